#include "drv.h"
#include "SymmetricKey.h"
#include "BlockCipherFromName.h"
#include "RHX.h"
#include "SHX.h"
#include "bcname.h"
using namespace CEX;
using Cipher::Block::IBlockCipher;
using Enumeration::BlockCiphers;

// b NAME
CMD("blk.new")
{
	IBlockCipher* b = Helper::BlockCipherFromName::GetInstance(bcname(a[1]));
	c.put<IBlockCipher>(a[0], b);
	return b->Name() + " " + std::to_string(b->BlockSize()) + " " + (b->IsInitialized() ? "1" : "0");
}
// b enc|dec key info
CMD("blk.init")
{
	Bytes k = c.bytes(a[2]), i = c.bytes(a[3]), n;
	Cipher::SymmetricKey key(k, n, i);
	IBlockCipher &b = c.get<IBlockCipher>(a[0]);
	b.Initialize(a[1] == "enc", key);
	return std::to_string(b.Rounds()) + " " + (b.IsInitialized() ? "1" : "0") + " " + (b.IsEncryption() ? "1" : "0");
}
// b how blocks input inoff outoff: the transform's whole output buffer; keeps the blocks as $dst
CMD("blk.tr")
{
	IBlockCipher &b = c.get<IBlockCipher>(a[0]);
	size_t n = num(a[2]), io = num(a[4]), oo = num(a[5]);
	Bytes in(io, 0x11), d = c.bytes(a[3]);
	in.insert(in.end(), d.begin(), d.end());
	in.insert(in.end(), 3, 0x22);
	Bytes out(oo + n * 16 + 4, 0xA5);
	if (a[1] == "ser")
		for (size_t i = 0; i < n; ++i) b.Transform(in, io + i * 16, out, oo + i * 16);
	else if (a[1] == "enc") { if (io || oo) b.EncryptBlock(in, io, out, oo); else b.EncryptBlock(in, out); }
	else if (a[1] == "dec") { if (io || oo) b.DecryptBlock(in, io, out, oo); else b.DecryptBlock(in, out); }
	else if (n == 1) { if (io || oo) b.Transform(in, io, out, oo); else b.Transform(in, out); }
	else if (n == 2) b.Transform256(in, io, out, oo);
	else if (n == 4) b.Transform512(in, io, out, oo);
	else if (n == 8) b.Transform1024(in, io, out, oo);
	else b.Transform2048(in, io, out, oo);
	c.bufs[a[6]] = Bytes(out.begin() + oo, out.begin() + oo + n * 16);
	return hex(out);
}
