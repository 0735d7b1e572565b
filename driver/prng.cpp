#include "drv.h"
#include <stdexcept>
#include "SymmetricKey.h"
#include "BCR.h"
#include "CSR.h"
#include "HCR.h"
#include "SecureRandom.h"
#include "PrngFromName.h"
#include "ProviderFromName.h"
using namespace CEX;
using namespace CEX::Enumeration;
using CEX::Prng::IPrng;
using CEX::Prng::SecureRandom;

// ---- stand-ins for the two factories: entropy and an engine with known output ---------------------------------
static Ctx* g_ctx = nullptr; static long long g_seed = 0, g_used = 0; static Bytes g_script; static size_t g_at = 0;
struct KnownProvider final : Provider::IProvider
{
	long long id = -1; size_t pos = 0;      // numbered by first use
	Bytes take(size_t n)
	{
		if (id < 0) id = g_used++;
		Bytes b = n ? g_ctx->bytes("@" + std::to_string(g_seed + id) + ":" + std::to_string(pos) + ":" + std::to_string(n)) : Bytes();
		pos += n;
		return b;
	}
	const Providers Enumeral() override { return Providers::CSP; }
	const bool IsAvailable() override { return true; }
	const std::string Name() override { return "Known"; }
	void Generate(Bytes &o) override { Generate(o, 0, o.size()); }
	void Generate(SecureVector<uint8_t> &o) override { Generate(o, 0, o.size()); }
	void Generate(Bytes &o, size_t f, size_t n) override { Bytes t = take(n); for (size_t i = 0; i < n; ++i) o[f + i] = t[i]; }
	void Generate(SecureVector<uint8_t> &o, size_t f, size_t n) override { Bytes t = take(n); for (size_t i = 0; i < n; ++i) o[f + i] = t[i]; }
	uint16_t NextUInt16() override { return 0; }
	uint32_t NextUInt32() override { return 0; }
	uint64_t NextUInt64() override { return 0; }
	void Reset() override {}
};
struct ScriptPrng final : IPrng
{
	Bytes take(size_t n)
	{
		if (g_at + n > g_script.size()) throw std::runtime_error("the script of the engine is used up");
		Bytes b(g_script.begin() + g_at, g_script.begin() + g_at + n); g_at += n; return b;
	}
	const Prngs Enumeral() override { return Prngs::BCR; }
	const std::string Name() override { return "Script"; }
	void Generate(Bytes &o) override { Generate(o, 0, o.size()); }
	void Generate(SecureVector<uint8_t> &o) override { Generate(o, 0, o.size()); }
	void Generate(Bytes &o, size_t f, size_t n) override { Bytes t = take(n); for (size_t i = 0; i < n; ++i) o[f + i] = t[i]; }
	void Generate(SecureVector<uint8_t> &o, size_t f, size_t n) override { Bytes t = take(n); for (size_t i = 0; i < n; ++i) o[f + i] = t[i]; }
	uint16_t NextUInt16() override { return 0; }
	uint32_t NextUInt32() override { return 0; }
	uint64_t NextUInt64() override { return 0; }
	void Reset() override {}
};
namespace CEX { namespace Helper {
Provider::IProvider* ProviderFromName::GetInstance(Providers) { return new KnownProvider(); }
Prng::IPrng* PrngFromName::GetInstance(Prngs, Providers) { return new ScriptPrng(); }
} }

// ---- the generators ---------------------------------------------------------------------------------------------
CMD("prng.new")
{
	g_ctx = &c; g_seed = num(a[2]); g_used = 0;
	const std::string &n = a[1];
	IPrng* g;
	if (n == "BCR") g = new Prng::BCR(Providers::ACP);
	else if (n[0] == 'C') g = new Prng::CSR(n == "CSR128" ? ShakeModes::SHAKE128 : n == "CSR256" ? ShakeModes::SHAKE256 : ShakeModes::SHAKE512, Providers::ACP);
	else g = new Prng::HCR(n == "HCR256" ? SHA2Digests::SHA2256 : SHA2Digests::SHA2512, Providers::ACP);
	c.put<IPrng>(a[0], g);
	return std::string("ok");
}
CMD("prng.rnd") { g_script = c.bytes(a[1]); g_at = 0; c.put<SecureRandom>(a[0], new SecureRandom(Prngs::BCR, Providers::ACP)); return std::string("ok"); }
template <class G> static std::string gen(G &g, Args &a)
{
	size_t size = num(a[1]), off = num(a[2]), n = num(a[3]);
	if (a[4] == "sec")
	{
		SecureVector<uint8_t> o(size, 0xa5);
		if (off == 0 && n == size) g.Generate(o); else g.Generate(o, off, n);
		return hex(plain(o));
	}
	Bytes o(size, 0xa5);
	if (off == 0 && n == size) g.Generate(o); else g.Generate(o, off, n);
	return hex(o);
}
CMD("prng.gen") { return gen(c.get<IPrng>(a[0]), a); }
CMD("rnd.gen") { return gen(c.get<SecureRandom>(a[0]), a); }
CMD("rnd.ret") { return hex(c.get<SecureRandom>(a[0]).Generate(num(a[1]))); }
CMD("prng.reset") { c.get<IPrng>(a[0]).Reset(); return std::string("ok"); }
CMD("prng.next")
{
	IPrng &g = c.get<IPrng>(a[0]);
	return a[1] == "u16" ? std::to_string(g.NextUInt16()) : a[1] == "u32" ? std::to_string(g.NextUInt32()) : std::to_string(g.NextUInt64());
}
template <class V, class G> static std::string fill(G &g, size_t size, size_t off, size_t n)
{
	typedef typename V::value_type T;
	V o(size, static_cast<T>(0xa5a5a5a5a5a5a5a5ULL));
	g.Fill(o, off, n);
	std::string s;
	for (size_t i = 0; i < size; ++i) s += (i ? " " : "") + std::to_string(o[i]);
	return s.empty() ? "-" : s;
}
CMD("prng.fill")
{
	IPrng &g = c.get<IPrng>(a[0]); size_t s = num(a[2]), f = num(a[3]), n = num(a[4]);
	if (a[5] == "sec") return a[1] == "2" ? fill<SecureVector<uint16_t>>(g, s, f, n) : a[1] == "4" ? fill<SecureVector<uint32_t>>(g, s, f, n) : fill<SecureVector<uint64_t>>(g, s, f, n);
	return a[1] == "2" ? fill<std::vector<uint16_t>>(g, s, f, n) : a[1] == "4" ? fill<std::vector<uint32_t>>(g, s, f, n) : fill<std::vector<uint64_t>>(g, s, f, n);
}
CMD("rnd.fill")
{
	SecureRandom &g = c.get<SecureRandom>(a[0]); size_t s = num(a[2]), f = num(a[3]), n = num(a[4]);
	if (a[5] == "sec") return fill<SecureVector<uint16_t>>(g, s, f, n);
	return a[1] == "2" ? fill<std::vector<uint16_t>>(g, s, f, n) : a[1] == "4" ? fill<std::vector<uint32_t>>(g, s, f, n) : fill<std::vector<uint64_t>>(g, s, f, n);
}
#define NEXT(T, N) (a.size() == 2 ? std::to_string(g.Next##N()) : a.size() == 3 ? std::to_string(g.Next##N(static_cast<T>(a2))) : std::to_string(g.Next##N(static_cast<T>(a2), static_cast<T>(a3))))
CMD("rnd.next")
{
	SecureRandom &g = c.get<SecureRandom>(a[0]);
	const std::string &t = a[1];
	uint64_t a2 = 0, a3 = 0;
	if (a.size() > 2) a2 = a[2][0] == '-' ? static_cast<uint64_t>(num(a[2])) : unum(a[2]);
	if (a.size() > 3) a3 = a[3][0] == '-' ? static_cast<uint64_t>(num(a[3])) : unum(a[3]);
	if (t == "c") return std::to_string(static_cast<int>(g.NextChar()));
	if (t == "uc") return std::to_string(static_cast<int>(g.NextUChar()));
	if (t == "d") { double d = g.NextDouble(); return hex(reinterpret_cast<uint8_t*>(&d), 8); }
	return t == "i16" ? NEXT(int16_t, Int16) : t == "u16" ? NEXT(uint16_t, UInt16) : t == "i32" ? NEXT(int32_t, Int32) :
		t == "u32" ? NEXT(uint32_t, UInt32) : t == "i64" ? NEXT(int64_t, Int64) : NEXT(uint64_t, UInt64);
}
