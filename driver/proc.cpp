// The stream helpers.
#include "drv.h"
#include "bcname.h"
#include "CipherStream.h"
#include "DigestStream.h"
#include "MacStream.h"
#include "DigestFromName.h"
#include "MacFromName.h"
#include "CipherModeFromName.h"
#include "PaddingFromName.h"
#include "SymmetricKey.h"
#include "SymmetricSecureKey.h"
#include "CFB.h"
using namespace CEX;
using namespace CEX::Processing;
using IO::IByteStream;
using Cipher::Block::Mode::ICipherMode;
using Cipher::Block::Padding::IPadding;
using Enumeration::CipherModes;
using Enumeration::PaddingModes;

static CipherModes cm(const std::string &m)
{
	return m == "ECB" ? CipherModes::ECB : m == "CBC" ? CipherModes::CBC : m == "CFB" ? CipherModes::CFB : m == "OFB" ? CipherModes::OFB : m == "CTR" ? CipherModes::CTR : CipherModes::ICM;
}
static PaddingModes pm(const std::string &n)
{
	return n == "ESP" ? PaddingModes::ESP : n == "PKCS7" ? PaddingModes::PKCS7 : n == "X923" ? PaddingModes::X923 : n == "ZeroOne" ? PaddingModes::ZeroOne : PaddingModes::None;
}
// s MODE CIPHER enum|ptr PADDING reg
CMD("ps.cipher")
{
	CipherStream* s;
	if (a[3] == "enum") s = new CipherStream(bcname(a[2]), cm(a[1]), pm(a[4]));
	else
	{
		ICipherMode* m = a[1] == "CFB" ? new Cipher::Block::Mode::CFB(bcname(a[2]), num(a[5])) : Helper::CipherModeFromName::GetInstance(bcname(a[2]), cm(a[1]));
		c.put<ICipherMode>(a[0] + ".e", m);
		IPadding* p = nullptr;
		if (a[4] != "None") { p = Helper::PaddingFromName::GetInstance(pm(a[4])); c.put<IPadding>(a[0] + ".p", p); }
		s = new CipherStream(m, p);
	}
	c.put<CipherStream>(a[0], s);
	return "ok";
}
template <class T, class F> static void keyed(const Bytes &k, const Bytes &n, const Bytes &i, bool secure, F f)
{
	if (secure) { Cipher::SymmetricSecureKey key(k, n, i, Enumeration::SecurityPolicy::SPL256, Bytes(16, 7)); f(key); }
	else { Cipher::SymmetricKey key(k, n, i); f(key); }
}
CMD("ps.init")
{
	Bytes k = c.bytes(a[2]), n = c.bytes(a[3]), i = c.bytes(a[4]);
	CipherStream &s = c.get<CipherStream>(a[0]);
	keyed<void>(k, n, i, a.size() > 5 && a[5] == "sec", [&](Cipher::ISymmetricKey &key) { s.Initialize(a[1] == "enc", key); });
	return "ok";
}
CMD("ps.par") { c.get<CipherStream>(a[0]).ParallelProfile().Calculate(a[1] == "1", num(a[2]), num(a[3])); return "ok"; }
// s BYTES inoffset outsize outoffset
CMD("ps.arr")
{
	Bytes d = c.bytes(a[1]), in(num(a[2]), 0x11), out(num(a[3]), 0xA5);
	in.insert(in.end(), d.begin(), d.end());
	c.get<CipherStream>(a[0]).Write(in, num(a[2]), out, num(a[4]));
	return hex(out);
}
CMD("ps.str")
{
	IByteStream &i = c.get<IByteStream>(a[1]), &o = c.get<IByteStream>(a[2]);
	c.get<CipherStream>(a[0]).Write(&i, &o);
	return std::to_string(i.Position()) + " " + std::to_string(o.Position()) + " " + std::to_string(o.Length());
}
CMD("ps.kept") { return c.get<ICipherMode>(a[0] + ".e").IsInitialized() ? "1" : "0"; }
// digests: s ALG seq|tree enum|ptr
#include "Digests.h"
static Enumeration::Digests dg(const std::string &n)
{
	using Enumeration::Digests;
	return n == "Blake256" ? Digests::Blake256 : n == "Blake512" ? Digests::Blake512 : n == "SHA2256" ? Digests::SHA2256 : n == "SHA2512" ? Digests::SHA2512 : n == "SHA3256" ? Digests::SHA3256 :
		n == "SHA3512" ? Digests::SHA3512 : n == "Skein256" ? Digests::Skein256 : n == "Skein512" ? Digests::Skein512 : Digests::Skein1024;
}
CMD("ps.digest")
{
	DigestStream* s;
	if (a[3] == "enum") s = new DigestStream(dg(a[1]), a[2] == "tree");
	else
	{
		Digest::IDigest* d = Helper::DigestFromName::GetInstance(dg(a[1]), a[2] == "tree");
		d->Update(Bytes(77, 5), 0, 77);
		s = new DigestStream(d);
	}
	c.put<DigestStream>(a[0], s);
	return std::to_string(s->IsParallel() ? 1 : 0) + " " + std::to_string(s->ParallelBlockSize());
}
CMD("ps.dcomp") { Bytes d = c.bytes(a[1]); return hex(c.get<DigestStream>(a[0]).Compute(d, num(a[2]), num(a[3]))); }
CMD("ps.dstr") { IByteStream &i = c.get<IByteStream>(a[1]); Bytes h = c.get<DigestStream>(a[0]).Compute(&i); return hex(h) + " " + std::to_string(i.Position()); }
// macs: s NUMBER enum|ptr
CMD("ps.mac")
{
	MacStream* s;
	Enumeration::Macs t = static_cast<Enumeration::Macs>(num(a[1]));
	if (a[2] == "enum") s = new MacStream(t);
	else { Mac::IMac* m = Helper::MacFromName::GetInstance(t); c.put<Mac::IMac>(a[0] + ".e", m); s = new MacStream(m); }
	c.put<MacStream>(a[0], s);
	return "ok";
}
CMD("ps.minit")
{
	Bytes k = c.bytes(a[1]), n = c.bytes(a[2]), i = c.bytes(a[3]);
	MacStream &s = c.get<MacStream>(a[0]);
	keyed<void>(k, n, i, a.size() > 4 && a[4] == "sec", [&](Cipher::ISymmetricKey &key) { s.Initialize(key); });
	return "ok";
}
CMD("ps.mcomp") { Bytes d = c.bytes(a[1]); return hex(c.get<MacStream>(a[0]).Compute(d, num(a[2]), num(a[3]))); }
CMD("ps.mstr") { IByteStream &i = c.get<IByteStream>(a[1]); Bytes h = c.get<MacStream>(a[0]).Compute(&i); return hex(h) + " " + std::to_string(i.Position()); }
CMD("ps.mkept") { return c.get<Mac::IMac>(a[0] + ".e").Name().size() ? "1" : "0"; }
