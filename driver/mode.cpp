#include "drv.h"
#include "bcname.h"
#include "SymmetricKey.h"
#include "BlockCipherFromName.h"
#include "ECB.h"
#include "CBC.h"
#include "CFB.h"
#include "OFB.h"
#include "CTR.h"
#include "ICM.h"
#include "SHA2256.h"
using namespace CEX;
using namespace CEX::Cipher::Block::Mode;
using CEX::Cipher::Block::IBlockCipher;

template <class E> static ICipherMode* make(const std::string &m, E e, size_t reg)
{
	if (m == "ECB") return new ECB(e);
	if (m == "CBC") return new CBC(e);
	if (m == "CFB") return new CFB(e, reg);
	if (m == "OFB") return new OFB(e);
	if (m == "CTR") return new CTR(e);
	return new ICM(e);
}
// m MODE CIPHER enum|engine reg
CMD("mode.new")
{
	ICipherMode* m;
	if (a[3] == "enum") m = make(a[1], bcname(a[2]), num(a[4]));
	else
	{
		IBlockCipher* e = Helper::BlockCipherFromName::GetInstance(bcname(a[2]));
		c.put<IBlockCipher>(a[0] + ".e", e);
		m = make(a[1], e, num(a[4]));
	}
	c.put<ICipherMode>(a[0], m);
	return std::string(m->IsInitialized() ? "1" : "0");
}
CMD("mode.init")
{
	Bytes k = c.bytes(a[2]), n = c.bytes(a[3]), i = c.bytes(a[4]);
	Cipher::SymmetricKey key(k, n, i);
	ICipherMode &m = c.get<ICipherMode>(a[0]);
	m.Initialize(a[1] == "enc", key);
	return std::string(m.IsInitialized() ? "1" : "0") + (m.IsEncryption() ? "1" : "0");
}
CMD("mode.par")
{
	c.get<ICipherMode>(a[0]).ParallelProfile().Calculate(a[1] == "1", num(a[2]), num(a[3]));
	return "ok";
}
CMD("mode.deg") { c.get<ICipherMode>(a[0]).ParallelMaxDegree(num(a[1])); return ""; }
CMD("mode.q")
{
	ICipherMode &m = c.get<ICipherMode>(a[0]);
	return std::string(m.IsInitialized() ? "1" : "0") + (m.IsEncryption() ? "1" : "0") + " " + std::to_string(m.BlockSize()) + " " + (m.Enumeral() == Enumeration::CipherModes::None ? "none" : "some");
}
// m tr|enc|dec input inoff outoff len
CMD("mode.tr")
{
	ICipherMode &m = c.get<ICipherMode>(a[0]);
	Bytes d = c.bytes(a[2]);
	size_t io = num(a[3]), oo = num(a[4]), n = num(a[5]);
	Bytes in(io, 0x11);
	in.insert(in.end(), d.begin(), d.end());
	// a single-block call wants a whole block's room whatever the register size
	const size_t need = a[1] == "tr" || n > 16 ? n : 16;
	in.resize(io + need + 3, 0x22);
	Bytes out(oo + need + 5, 0xA5);
	if (a[1] == "tr") m.Transform(in, io, out, oo, n);
	else if (a[1] == "enc") { if (io || oo) m.EncryptBlock(in, io, out, oo); else m.EncryptBlock(in, out); }
	else { if (io || oo) m.DecryptBlock(in, io, out, oo); else m.DecryptBlock(in, out); }
	return hex(out);
}
// one large transform, hashed with an independent instance of the (separately checked) SHA2-256
CMD("mode.sum")
{
	Bytes d = c.bytes(a[1]), out(d.size()), h(32);
	c.get<ICipherMode>(a[0]).Transform(d, 0, out, 0, d.size());
	Digest::SHA2256 g(false);
	g.Compute(out, h);
	return hex(h);
}
CMD("mode.legal") { return "0 0" + legalsizes(c.get<ICipherMode>(a[0]).LegalKeySizes()); }
