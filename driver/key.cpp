#include "drv.h"
#include <stdexcept>
#include "ISymmetricKey.h"
#include "ProviderFromName.h"
#include "SymmetricKey.h"
#include "SymmetricKeyGenerator.h"
#include "SymmetricKeySize.h"
#include "SymmetricSecureKey.h"
using namespace CEX;
using namespace CEX::Cipher;
using CEX::Enumeration::SecurityPolicy;
using CEX::Enumeration::Providers;
typedef SecureVector<uint8_t> Sec;

static std::string sizes(SymmetricKeySize &s) { return std::to_string(s.KeySize()) + "/" + std::to_string(s.IVSize()) + "/" + std::to_string(s.InfoSize()); }
static std::string look(ISymmetricKey &k)
{
	std::string r = hex(k.Key()) + " " + hex(k.IV()) + " " + hex(k.Info());
	std::string s = hex(k.SecureKey()) + " " + hex(k.SecureIV()) + " " + hex(k.SecureInfo());
	return (r == s ? r : r + " BUT " + s) + " " + sizes(k.KeySizes());
}
template <class V> static ISymmetricKey* make(bool sealed, int arity, const V &k, const V &v, const V &i, int pol, const V &salt, bool salted)
{
	if (!sealed) return arity == 1 ? new SymmetricKey(k) : arity == 2 ? new SymmetricKey(k, v) : new SymmetricKey(k, v, i);
	if (!salted) return arity == 1 ? new SymmetricSecureKey(k) : arity == 2 ? new SymmetricSecureKey(k, v) : new SymmetricSecureKey(k, v, i);
	SecurityPolicy p = static_cast<SecurityPolicy>(pol);
	return arity == 1 ? new SymmetricSecureKey(k, p, salt) : arity == 2 ? new SymmetricSecureKey(k, v, p, salt) : new SymmetricSecureKey(k, v, i, p, salt);
}
// key.make NAME plain|sealed ARITY KEY IV INFO POLICY SALT vec|sec
CMD("key.make")
{
	Bytes k = c.bytes(a[3]), v = c.bytes(a[4]), i = c.bytes(a[5]), s = c.bytes(a[7]);
	bool sealed = a[1] == "sealed", salted = a[6] != "0";
	ISymmetricKey* p = a[8] == "sec" ? make<Sec>(sealed, num(a[2]), sec<Sec>(k), sec<Sec>(v), sec<Sec>(i), num(a[6]), sec<Sec>(s), salted) : make<Bytes>(sealed, num(a[2]), k, v, i, num(a[6]), s, salted);
	c.put<ISymmetricKey>(a[0], p);
	return "ok";
}
CMD("key.look") { return look(c.get<ISymmetricKey>(a[0])); }
CMD("key.clone")
{
	ISymmetricKey &k = c.get<ISymmetricKey>(a[1]);
	ISymmetricKey* n;
	if (a[2] == "sealed") n = static_cast<SymmetricSecureKey&>(k).Clone(); else n = static_cast<SymmetricKey&>(k).Clone();
	c.put<ISymmetricKey>(a[0], n);
	return "ok";
}
CMD("key.store")
{
	ISymmetricKey &k = c.get<ISymmetricKey>(a[1]);
	Sec s = a[2] == "sealed" ? SymmetricSecureKey::Serialize(static_cast<SymmetricSecureKey&>(k)) : SymmetricKey::Serialize(static_cast<SymmetricKey&>(k));
	c.bufs[a[0]] = plain(s);
	return hex(s);
}
CMD("key.load")
{
	Sec s = sec<Sec>(c.bytes(a[1]));
	c.put<ISymmetricKey>(a[0], a[2] == "sealed" ? SymmetricSecureKey::DeSerialize(s) : SymmetricKey::DeSerialize(s));
	return "ok";
}
CMD("key.reset") { c.get<ISymmetricKey>(a[0]).Reset(); return "ok"; }
// after a container was reset, or at rest: no live memory holds the bytes
CMD("key.mem") { Bytes b = c.bytes(a[0]); return livemem(b.data(), b.size(), b.data()) ? "found" : "ok"; }
// destroyed: the memory given back does not hold the bytes
CMD("key.drop")
{
	Bytes b = c.bytes(a[1]);
	c.get<ISymmetricKey>(a[0]);
	watchfree(b.data(), b.size());
	c.objs.erase(a[0]);
	bool seen = freedseen();
	watchfree(nullptr, 0);
	return seen ? "found" : "ok";
}
CMD("key.sizes")
{
	SymmetricKeySize s(num(a[0]), num(a[1]), num(a[2]));
	Bytes b = s.ToBytes();
	SymmetricKeySize t(b);
	std::string r = sizes(s) + " " + sizes(t) + " " + hex(b);
	t.Reset();
	return r + " " + sizes(t);
}
CMD("key.contains")      // K IV INFO of a list of sizes
{
	std::vector<SymmetricKeySize> v;
	for (size_t i = 3; i + 2 < a.size(); i += 3) v.push_back(SymmetricKeySize(num(a[i]), num(a[i + 1]), num(a[i + 2])));
	return SymmetricKeySize::Contains(v, num(a[0]), num(a[1]), num(a[2])) ? "yes" : "no";
}
// ---- generated keys: entropy with known output ----------------------------------------------------------------
static size_t g_drawn = 0;
struct KnownProvider final : Provider::IProvider
{
	const Providers Enumeral() override { return Providers::CSP; }
	const bool IsAvailable() override { return true; }
	const std::string Name() override { return "Known"; }
	void fill(uint8_t* p, size_t n) { static Ctx x; if (n) { Bytes b = x.bytes("@99:" + std::to_string(g_drawn) + ":" + std::to_string(n)); for (size_t i = 0; i < n; ++i) p[i] = b[i]; } g_drawn += n; }
	void Generate(Bytes &o) override { fill(o.data(), o.size()); }
	void Generate(Sec &o) override { fill(o.data(), o.size()); }
	void Generate(Bytes &o, size_t f, size_t n) override { fill(o.data() + f, n); }
	void Generate(Sec &o, size_t f, size_t n) override { fill(o.data() + f, n); }
	uint16_t NextUInt16() override { return 0; }
	uint32_t NextUInt32() override { return 0; }
	uint64_t NextUInt64() override { return 0; }
	void Reset() override {}
};
namespace CEX { namespace Helper { Provider::IProvider* ProviderFromName::GetInstance(Providers) { return new KnownProvider(); } } }
CMD("key.gen")       // NAME plain|sealed POLICY K IV INFO
{
	SymmetricKeyGenerator g(static_cast<SecurityPolicy>(num(a[2])), Providers::ACP);
	SymmetricKeySize s(num(a[3]), num(a[4]), num(a[5]));
	g_drawn = num(a[6]);
	ISymmetricKey* p;
	if (a[1] == "sealed") p = g.GetSecureKey(s); else p = g.GetSymmetricKey(s);
	c.put<ISymmetricKey>(a[0], p);
	return look(*p);
}
CMD("key.rand")      // POLICY SIZE OFF N
{
	SymmetricKeyGenerator g(static_cast<SecurityPolicy>(num(a[0])), Providers::ACP);
	g_drawn = num(a[4]);
	size_t n = num(a[3]);
	if (num(a[1]) == -1) return hex(g.Generate(n));
	Sec o(num(a[1]), 0xa5);
	g.Generate(o, num(a[2]), n);
	return hex(o);
}
