#include "drv.h"
#include "SymmetricKey.h"
#include "BCG.h"
#include "CSG.h"
#include "HCG.h"
#include "SHA2256.h"
#include "SHA2512.h"
#include "DrbgFromName.h"
#include "IProvider.h"
#include "ParallelOptions.h"
using namespace CEX;
using namespace CEX::Drbg;
using namespace CEX::Enumeration;
using CEX::Provider::IProvider;

// an entropy source with known output: the bytes @seed:0:... in order
struct KnownProvider final : IProvider
{
	Ctx &c; std::string seed; size_t pos = 0;
	KnownProvider(Ctx &C, const std::string &s) : c(C), seed(s) {}
	Bytes take(size_t n) { Bytes b = n ? c.bytes("@" + seed + ":" + std::to_string(pos) + ":" + std::to_string(n)) : Bytes(); pos += n; return b; }
	const Providers Enumeral() override { return Providers::CSP; }
	const bool IsAvailable() override { return true; }
	const std::string Name() override { return "Known"; }
	void Generate(Bytes &o) override { Generate(o, 0, o.size()); }
	void Generate(SecureVector<uint8_t> &o) override { Generate(o, 0, o.size()); }
	void Generate(Bytes &o, size_t f, size_t n) override { Bytes t = take(n); for (size_t i = 0; i < n; ++i) o[f + i] = t[i]; }
	void Generate(SecureVector<uint8_t> &o, size_t f, size_t n) override { Bytes t = take(n); for (size_t i = 0; i < n; ++i) o[f + i] = t[i]; }
	uint16_t NextUInt16() override { return 0; }
	uint32_t NextUInt32() override { return 0; }
	uint64_t NextUInt64() override { return 0; }
	void Reset() override {}
};
static ShakeModes smode(const std::string &n) { return n == "CSG128" ? ShakeModes::SHAKE128 : n == "CSG256" ? ShakeModes::SHAKE256 : ShakeModes::SHAKE512; }

// g NAME none|factory|prov:SEED
CMD("drbg.new")
{
	const std::string &n = a[1];
	const bool prov = a[2].rfind("prov:", 0) == 0;
	KnownProvider* p = prov ? new KnownProvider(c, a[2].substr(5)) : nullptr;      // left to the generator or leaked
	IDrbg* g;
	if (a[2] == "factory")
		g = Helper::DrbgFromName::GetInstance(n == "BCG" ? Drbgs::BCG : n[0] == 'C' ? Drbgs::CSG : Drbgs::HCG);
	else if (n == "BCG") g = p ? new BCG(p) : new BCG(Providers::None);
	else if (n[0] == 'C') g = p ? new CSG(smode(n), p) : new CSG(smode(n), Providers::None);
	else
	{
		const bool big = n == "HCG512";
		if (p || a[2] == "digest")
			g = new HCG(big ? static_cast<Digest::IDigest*>(new Digest::SHA2512(false)) : new Digest::SHA2256(false), p);
		else
			g = new HCG(big ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256, Providers::None);
	}
	c.put<IDrbg>(a[0], g);
	return std::string(g->IsInitialized() ? "1" : "0");
}
CMD("drbg.init")
{
	Bytes k = c.bytes(a[1]), n = c.bytes(a[2]), i = c.bytes(a[3]);
	Cipher::SymmetricKey key(k, n, i);
	IDrbg &g = c.get<IDrbg>(a[0]);
	g.Initialize(key);
	return std::string(g.IsInitialized() ? "1" : "0");
}
// g size off n vec|sec
CMD("drbg.gen")
{
	IDrbg &g = c.get<IDrbg>(a[0]);
	size_t size = num(a[1]), off = num(a[2]), n = num(a[3]);
	if (a[4] == "sec")
	{
		SecureVector<uint8_t> o(size, 0xa5);
		if (off == 0 && n == size) g.Generate(o); else g.Generate(o, off, n);
		return hex(plain(o));
	}
	Bytes o(size, 0xa5);
	if (off == 0 && n == size) g.Generate(o); else g.Generate(o, off, n);
	return hex(o);
}
CMD("drbg.big") { Bytes o(num(a[1])); c.get<IDrbg>(a[0]).Generate(o, 0, o.size()); return std::string("filled"); }
// g key vec|sec times
CMD("drbg.upd")
{
	IDrbg &g = c.get<IDrbg>(a[0]);
	Bytes k = c.bytes(a[1]);
	SecureVector<uint8_t> s = sec<SecureVector<uint8_t>>(k);
	for (long long i = 0; i < num(a[3]); ++i) if (a[2] == "sec") g.Update(s); else g.Update(k);
	return std::string("ok");
}
CMD("drbg.thr") { c.get<IDrbg>(a[0]).ReseedThreshold() = num(a[1]); return std::to_string(c.get<IDrbg>(a[0]).ReseedThreshold()); }
CMD("drbg.par") { static_cast<BCG&>(c.get<IDrbg>(a[0])).ParallelProfile().Calculate(num(a[1]) != 0, num(a[2]), num(a[3])); return std::string("ok"); }
CMD("drbg.q")
{
	IDrbg &g = c.get<IDrbg>(a[0]);
	std::string s = g.IsInitialized() ? "1" : "0";
	s += " " + g.Name() + " " + std::to_string(static_cast<int>(g.Enumeral())) + " " + std::to_string(g.MaxReseedCount()) + " " + std::to_string(g.MaxRequestSize());
	std::vector<SymmetricKeySize> ks = g.LegalKeySizes();
	for (auto k : ks) s += " " + std::to_string(k.KeySize()) + ":" + std::to_string(k.IVSize()) + ":" + std::to_string(k.InfoSize());
	return s;
}
CMD("drbg.legal") { return "0 0" + legalsizes(c.get<IDrbg>(a[0]).LegalKeySizes()); }
