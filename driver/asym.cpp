#include "drv.h"
#include <stdexcept>
#include "AsymmetricKey.h"
#include "AsymmetricKeyPair.h"
#include "AsymmetricSecureKey.h"
#include "Dilithium.h"
#include "ECDH.h"
#include "ECDSA.h"
#include "IAsymmetricCipher.h"
#include "IAsymmetricSigner.h"
#include "IPrng.h"
#include "Kyber.h"
#include "McEliece.h"
#include "PrngFromName.h"
#include "SphincsPlus.h"
#include "XMSS.h"
using namespace CEX;
using namespace CEX::Asymmetric;
using namespace CEX::Enumeration;
using Prng::IPrng;
typedef SecureVector<uint8_t> Sec;

// ---- a generator with known output: "@seed:0:..." ---------------------------------------------------------------
struct KnownPrng final : IPrng
{
	unsigned long long seed, pos = 0;
	KnownPrng(unsigned long long s) : seed(s) {}
	Bytes take(size_t n) { static Ctx x; Bytes b = n ? x.bytes("@" + std::to_string(seed) + ":" + std::to_string(pos) + ":" + std::to_string(n)) : Bytes(); pos += n; return b; }
	template <class V> void fill(V &o, size_t f, size_t n) { Bytes t = take(n); for (size_t i = 0; i < n; ++i) o[f + i] = t[i]; }
	const Prngs Enumeral() override { return Prngs::CSR; }
	const std::string Name() override { return "Known"; }
	void Generate(Bytes &o, size_t f, size_t n) override { fill(o, f, n); }
	void Generate(Sec &o, size_t f, size_t n) override { fill(o, f, n); }
	void Generate(Bytes &o) override { fill(o, 0, o.size()); }
	void Generate(Sec &o) override { fill(o, 0, o.size()); }
	uint16_t NextUInt16() override { Bytes b = take(2); return static_cast<uint16_t>(b[0] | b[1] << 8); }
	uint32_t NextUInt32() override { uint32_t r = 0; Bytes b = take(4); for (int i = 3; i >= 0; --i) r = r << 8 | b[i]; return r; }
	uint64_t NextUInt64() override { uint64_t r = 0; Bytes b = take(8); for (int i = 7; i >= 0; --i) r = r << 8 | b[i]; return r; }
	void Reset() override {}
};
static unsigned long long g_pseed = 1;
#if !defined(CEXV_REALPRNG)
namespace CEX { namespace Helper { IPrng* PrngFromName::GetInstance(Prngs, Providers) { return new KnownPrng(g_pseed); } } }
#endif

// an object and the generator it was given
struct Signer { std::unique_ptr<IPrng> rng; std::unique_ptr<Sign::IAsymmetricSigner> p; };
struct Kem { std::unique_ptr<IPrng> rng; std::unique_ptr<Encrypt::IAsymmetricCipher> p; };
struct Dh { std::unique_ptr<IPrng> rng; std::unique_ptr<Encrypt::ECDH::ECDH> p; };

// primitive of a parameter number
static AsymmetricPrimitives prim(int n)
{
	return n <= 3 ? AsymmetricPrimitives::Dilithium : n <= 6 ? AsymmetricPrimitives::ECDH : n <= 8 ? AsymmetricPrimitives::ECDSA : n <= 12 ? AsymmetricPrimitives::Kyber :
		n <= 16 ? AsymmetricPrimitives::McEliece : n <= 20 ? AsymmetricPrimitives::SphincsPlus : AsymmetricPrimitives::XMSS;
}
template <class T, class P> static T* made(int n, IPrng* r) { return r ? new T(static_cast<P>(n), r) : new T(static_cast<P>(n), Prngs::CSR); }
// sig.make OBJ PARAM SEED own|lent
CMD("sig.make")
{
	int n = num(a[1]);
	std::unique_ptr<Signer> s(new Signer());
	g_pseed = num(a[2]);
	if (a[3] == "lent") s->rng.reset(new KnownPrng(num(a[2])));
	IPrng* r = s->rng.get();
	switch (prim(n))
	{
		case AsymmetricPrimitives::Dilithium: s->p.reset(made<Sign::DLTM::Dilithium, DilithiumParameters>(n, r)); break;
		case AsymmetricPrimitives::ECDSA: s->p.reset(made<Sign::ECDSA::ECDSA, ECDSAParameters>(n, r)); break;
		case AsymmetricPrimitives::SphincsPlus: s->p.reset(made<Sign::SPXP::SphincsPlus, SphincsPlusParameters>(n, r)); break;
		default: s->p.reset(made<Sign::XMSS::XMSS, XmssParameters>(n, r));
	}
	c.put<Signer>(a[0], s.release());
	return "ok";
}
static std::string keep(Ctx &c, const std::string &name, AsymmetricKeyPair* kp)
{
	std::unique_ptr<AsymmetricKeyPair> own(kp);
	for (int i = 0; i < 2; ++i)
	{
		AsymmetricKey* k = i ? own->PrivateKey() : own->PublicKey();
		Bytes b = k->Polynomial();
		c.put<AsymmetricKey>(name + (i ? ".prv" : ".pub"), new AsymmetricKey(b, k->PrimitiveType(), k->KeyClass(), k->Parameters()));
		c.bufs[name + (i ? ".prv" : ".pub")] = b;
	}
	return std::to_string(c.bufs[name + ".pub"].size()) + " " + std::to_string(c.bufs[name + ".prv"].size());
}
CMD("sig.gen") { return keep(c, a[1], c.get<Signer>(a[0]).p->Generate()); }
CMD("sig.init") { c.get<Signer>(a[0]).p->Initialize(&c.get<AsymmetricKey>(a[1])); return "ok"; }
CMD("sig.sign")        // OBJ MSG SIGBUF, what the output array holds before
{
	Bytes m = c.bytes(a[1]), s = c.bytes(a[3]);
	size_t n = c.get<Signer>(a[0]).p->Sign(m, s);
	c.bufs[a[2]] = s;
	return std::to_string(n) + " " + std::to_string(s.size());
}
CMD("sig.verify")      // OBJ SIG, what the output array holds before
{
	Bytes s = c.bytes(a[1]), m = c.bytes(a[2]);
	return c.get<Signer>(a[0]).p->Verify(s, m) ? "yes " + hex(m) : "no";
}
CMD("sig.parts")       // SIG N: its parts SIG.h (without its last N bytes), SIG.g (one less), SIG.1 (without its last byte)
{
	Bytes s = c.bufs[a[0]];
	size_t n = num(a[1]);
	if (s.size() <= n || n == 0) return "a signature of " + std::to_string(s.size()) + " bytes";
	c.bufs[a[0] + ".h"] = Bytes(s.begin(), s.end() - n);
	c.bufs[a[0] + ".g"] = Bytes(s.begin(), s.end() - n - 1);
	c.bufs[a[0] + ".1"] = Bytes(s.begin(), s.end() - 1);
	return "ok";
}
// a place in an array of n bytes: from the end, from the start, or a millionth of it
static size_t place(long long x, size_t n, bool part) { return part ? static_cast<size_t>(static_cast<unsigned long long>(x) * n / 1000000) : x < 0 ? n - static_cast<size_t>(-x) : static_cast<size_t>(x); }
CMD("sig.flip")        // OBJ SIG N, h: byte of the head, m: of the message, f: fraction of the head; BIT PREFILL
{
	Bytes s = c.bufs[a[1]], m = c.bytes(a[6]);
	size_t n = num(a[2]), h = s.size() - n, q = a[3] == "m" ? h + num(a[4]) : place(num(a[4]), h, a[3] == "f");
	if (q >= s.size()) return "no such byte";
	s[q] ^= static_cast<uint8_t>(1 << num(a[5]));
	return c.get<Signer>(a[0]).p->Verify(s, m) ? "yes " + hex(m) : "no";
}
CMD("sig.flipkey")     // OBJ PUB SIG PLACE BIT PREFILL: verifies with the changed public key, then puts the key back
{
	AsymmetricKey &k = c.get<AsymmetricKey>(a[1]);
	Bytes b = k.Polynomial(), m = c.bytes(a[5]);
	size_t q = place(num(a[3]), b.size(), num(a[3]) > 999);
	b[q] ^= static_cast<uint8_t>(1 << num(a[4]));
	AsymmetricKey t(b, k.PrimitiveType(), k.KeyClass(), k.Parameters());
	auto &p = *c.get<Signer>(a[0]).p;
	p.Initialize(&t);
	std::string r;
	try { r = p.Verify(c.bufs[a[2]], m) ? "yes " + hex(m) : "no"; }
	catch (...) { p.Initialize(&k); throw; }
	p.Initialize(&k);
	return r;
}
CMD("sig.look")
{
	auto &p = *c.get<Signer>(a[0]).p;
	return std::string(p.IsInitialized() ? "ready" : "new") + (p.IsInitialized() ? p.IsSigner() ? " signs" : " verifies" : "") + " " + std::to_string(p.PublicKeySize()) + " " + std::to_string(p.PrivateKeySize()) + " " + std::to_string(p.SignatureSize());
}
// ---- keys ------------------------------------------------------------------------------------------------------
CMD("akey.make")       // NAME BYTES PRIMITIVE CLASS PARAM vec|sec
{
	Bytes b = c.bytes(a[1]);
	auto p = static_cast<AsymmetricPrimitives>(num(a[2])); auto k = static_cast<AsymmetricKeyTypes>(num(a[3])); auto q = static_cast<AsymmetricParameters>(num(a[4]));
	c.put<AsymmetricKey>(a[0], a[5] == "sec" ? new AsymmetricKey(sec<Sec>(b), p, k, q) : new AsymmetricKey(b, p, k, q));
	return "ok";
}
CMD("akey.poly") { c.bufs[a[0]] = c.get<AsymmetricKey>(a[1]).Polynomial(); return std::to_string(c.bufs[a[0]].size()); }
// ---- key encapsulation ----------------------------------------------------------------------------------------
CMD("kem.make")        // OBJ PARAM SEED own|lent
{
	int n = num(a[1]);
	std::unique_ptr<Kem> s(new Kem());
	g_pseed = num(a[2]);
	if (a[3] == "lent") s->rng.reset(new KnownPrng(num(a[2])));
	IPrng* r = s->rng.get();
	if (prim(n) == AsymmetricPrimitives::Kyber) s->p.reset(made<Encrypt::MLWE::Kyber, KyberParameters>(n, r)); else s->p.reset(made<Encrypt::MPKC::McEliece, McElieceParameters>(n, r));
	c.put<int>("kem " + a[0], new int(1));
	c.put<Kem>(a[0], s.release());
	return "ok";
}
CMD("kem.gen") { return keep(c, a[1], c.get<Kem>(a[0]).p->Generate()); }
CMD("kem.init") { c.get<Kem>(a[0]).p->Initialize(&c.get<AsymmetricKey>(a[1])); return "ok"; }
CMD("kem.enc")         // OBJ CTBUF SSBUF, what the arrays hold before
{
	Bytes ct = c.bytes(a[3]), ss = c.bytes(a[4]);
	c.get<Kem>(a[0]).p->Encapsulate(ct, ss);
	c.bufs[a[1]] = ct; c.bufs[a[2]] = ss;
	return std::to_string(ct.size()) + " " + hex(ss);
}
CMD("kem.dec")         // OBJ CT, what the array holds before
{
	Bytes ct = c.bytes(a[1]), ss = c.bytes(a[2]);
	bool r = c.get<Kem>(a[0]).p->Decapsulate(ct, ss);
	return std::string(r ? "yes " : "no ") + hex(ss);
}
CMD("kem.flip")        // OBJ CT PLACE BIT, what the array holds before
{
	Bytes ct = c.bufs[a[1]], ss = c.bytes(a[4]);
	size_t q = place(num(a[2]), ct.size(), num(a[2]) > 999);
	ct[q] ^= static_cast<uint8_t>(1 << num(a[3]));
	bool r = c.get<Kem>(a[0]).p->Decapsulate(ct, ss);
	return std::string(r ? "yes " : "no ") + hex(ss);
}
CMD("kem.alter")       // OBJ CT cut N|cross CT2|noise SEED|zeros -, what the array holds before
{
	Bytes ct = c.bufs[a[1]], ss = c.bytes(a[4]);
	if (a[2] == "cut") ct.resize(ct.size() - num(a[3]));
	else if (a[2] == "cross") { const Bytes &t = c.bufs[a[3]]; std::copy(t.begin(), t.begin() + t.size() / 2, ct.begin()); }
	else if (a[2] == "noise") ct = c.bytes("@" + a[3] + ":0:" + std::to_string(ct.size()));
	else ct = Bytes(ct.size(), 0);
	bool r = c.get<Kem>(a[0]).p->Decapsulate(ct, ss);
	return std::string(r ? "yes " : "no ") + hex(ss);
}
CMD("kem.changed")     // ENCAPSULATOR DECAPSULATOR PUB PLACE BIT: ok if the owner does not get the secret made with the changed public key
{
	AsymmetricKey &k = c.get<AsymmetricKey>(a[2]);
	Bytes b = k.Polynomial(), ct, s1(32), s2(32);
	b[place(num(a[3]), b.size(), true)] ^= static_cast<uint8_t>(1 << num(a[4]));
	AsymmetricKey t(b, k.PrimitiveType(), k.KeyClass(), k.Parameters());
	auto &p = *c.get<Kem>(a[0]).p;
	p.Initialize(&t);
	p.Encapsulate(ct, s1);
	p.Initialize(&k);
	bool r = c.get<Kem>(a[1]).p->Decapsulate(ct, s2);
	return r && s1 == s2 ? "the owner got the secret" : "ok";
}
// ---- key exchange ---------------------------------------------------------------------------------------------
CMD("dh.make")
{
	std::unique_ptr<Dh> s(new Dh());
	g_pseed = num(a[2]);
	if (a[3] == "lent") s->rng.reset(new KnownPrng(num(a[2])));
	s->p.reset(made<Encrypt::ECDH::ECDH, ECDHParameters>(num(a[1]), s->rng.get()));
	c.objs.erase("kem " + a[0]);
	c.put<Dh>(a[0], s.release());
	return "ok";
}
CMD("dh.gen")
{
	Encrypt::ECDH::ECDH &p = *c.get<Dh>(a[0]).p;
	if (a.size() < 3) return keep(c, a[1], p.Generate());
	Bytes s = c.bytes(a[2]);
	return keep(c, a[1], p.Generate(s)) + " " + hex(c.bufs[a[1] + ".pub"]) + " " + hex(c.bufs[a[1] + ".prv"]);
}
CMD("dh.agree")        // OBJ PUB PRV, what the array holds before
{
	Bytes ss = c.bytes(a[3]);
	bool r = c.get<Dh>(a[0]).p->KeyExchange(&c.get<AsymmetricKey>(a[1]), &c.get<AsymmetricKey>(a[2]), ss);
	return std::string(r ? "yes " : "no ") + hex(ss);
}
CMD("ecdsa.gen")       // OBJ KEYS SEED
{
	Bytes s = c.bytes(a[2]);
	Sign::ECDSA::ECDSA &p = static_cast<Sign::ECDSA::ECDSA&>(*c.get<Signer>(a[0]).p);
	return keep(c, a[1], p.Generate(s)) + " " + hex(c.bufs[a[1] + ".pub"]) + " " + hex(c.bufs[a[1] + ".prv"]);
}
CMD("obj.domain")      // OBJ BYTES
{
	Bytes d = c.bytes(a[1]);
	if (c.objs.count("kem " + a[0])) c.get<Kem>(a[0]).p->DomainKey() = d; else c.get<Dh>(a[0]).p->DomainKey() = d;
	return "ok";
}
// ---- containers ------------------------------------------------------------------------------------------------
struct Sealed { std::unique_ptr<AsymmetricSecureKey> p; };
static std::string ident(int k, int q, int p, const Bytes &b, const Bytes &want)
{
	return std::to_string(k) + " " + std::to_string(q) + " " + std::to_string(p) + " " + (b == want ? "same" : b.size() == want.size() ? "differs" : "has " + std::to_string(b.size()) + " bytes");
}
template <class K> static std::string ident(K &k, const Bytes &b, const Bytes &want) { return ident(static_cast<int>(k.KeyClass()), static_cast<int>(k.Parameters()), static_cast<int>(k.PrimitiveType()), b, want); }
CMD("skey.make")       // NAME BYTES SALT PRIMITIVE CLASS PARAM POLICY vec|sec
{
	Bytes b = c.bytes(a[1]), s = c.bytes(a[2]);
	auto p = static_cast<AsymmetricPrimitives>(num(a[3])); auto k = static_cast<AsymmetricKeyTypes>(num(a[4])); auto q = static_cast<AsymmetricParameters>(num(a[5])); auto y = static_cast<SecurityPolicy>(num(a[6]));
	std::unique_ptr<Sealed> o(new Sealed());
	if (a[7] == "sec") { Sec t = sec<Sec>(b); o->p.reset(new AsymmetricSecureKey(t, sec<Sec>(s), p, k, q, y)); }
	else o->p.reset(new AsymmetricSecureKey(b, s, p, k, q, y));
	c.put<Sealed>(a[0], o.release());
	return "ok";
}
CMD("skey.look")       // NAME BYTES: class, parameters, primitive, and whether both accessors give the bytes
{
	AsymmetricSecureKey &k = *c.get<Sealed>(a[0]).p;
	Bytes w = c.bytes(a[1]);
	Sec o(w.size() + (a.size() > 2 ? num(a[2]) : 0), 0xA5);
	k.SecurePolynomial(o);
	for (size_t i = w.size(); i < o.size(); ++i) if (o[i] != 0xA5) return "the output array was changed behind the key";
	Bytes t = plain(o); t.resize(w.size());
	if (t != w) return "SecurePolynomial differs";
	return ident(k, k.Polynomial(), w);
}
CMD("skey.short") { Sec o(num(a[1])); c.get<Sealed>(a[0]).p->SecurePolynomial(o); return "ok"; }
CMD("skey.store") { Sec s = AsymmetricSecureKey::Serialize(*c.get<Sealed>(a[1]).p); c.bufs[a[0]] = plain(s); return c.bufs[a[0]] == c.bytes(a[2]) ? "ok" : "other bytes: " + hex(s).substr(0, 200); }
CMD("skey.reset") { c.get<Sealed>(a[0]).p->Reset(); return "ok"; }
CMD("akey.look")
{
	AsymmetricKey &k = c.get<AsymmetricKey>(a[0]);
	Bytes w = c.bytes(a[1]);
	if (plain(k.SecurePolynomial()) != w) return "SecurePolynomial differs";
	return ident(k, k.Polynomial(), w);
}
CMD("akey.store") { Sec s = AsymmetricKey::Serialize(c.get<AsymmetricKey>(a[1])); c.bufs[a[0]] = plain(s); return c.bufs[a[0]] == c.bytes(a[2]) ? "ok" : "other bytes: " + hex(s).substr(0, 200); }
CMD("akey.load")       // NAME STREAM plain|sealed: which class reads it
{
	Sec s = sec<Sec>(c.bytes(a[1]));
	c.put<AsymmetricKey>(a[0], a[2] == "plain" ? AsymmetricKey::DeSerialize(s) : AsymmetricSecureKey::DeSerialize(s));
	return "ok";
}
CMD("akey.reset") { c.get<AsymmetricKey>(a[0]).Reset(); return "ok"; }
CMD("akey.mem") { Bytes b = c.bytes(a[0]); return livemem(b.data(), b.size(), b.data()) ? "found" : "ok"; }
CMD("akey.drop")       // NAME BYTES: destroyed, the memory given back does not hold them
{
	Bytes b = c.bytes(a[1]);
	watchfree(b.data(), b.size());
	c.objs.erase(a[0]);
	bool seen = freedseen();
	watchfree(nullptr, 0);
	return seen ? "found" : "ok";
}
// PAIR PUB PRV TAG: the pair's accessors give back what it was made of; erased it has nothing; ok
CMD("apair")
{
	auto copy = [&](const std::string &n) { AsymmetricKey &k = c.get<AsymmetricKey>(n); return new AsymmetricKey(k.Polynomial(), k.PrimitiveType(), k.KeyClass(), k.Parameters()); };
	AsymmetricKey* pub = copy(a[0]); AsymmetricKey* prv = copy(a[1]);
	Bytes tag = c.bytes(a[2]), keep = tag;
	std::unique_ptr<AsymmetricKeyPair> p(a[2] == "-" ? new AsymmetricKeyPair(prv, pub) : new AsymmetricKeyPair(prv, pub, tag));
	if (p->PublicKey() != pub || p->PrivateKey() != prv || p->Tag() != keep) return "the pair has other members";
	if (p->PublicKey()->Polynomial() != c.get<AsymmetricKey>(a[0]).Polynomial() || p->PrivateKey()->Polynomial() != c.get<AsymmetricKey>(a[1]).Polynomial()) return "the keys of the pair changed";
	p->Reset();
	if (p->PublicKey() != nullptr || p->PrivateKey() != nullptr || p->Tag().size()) return "the pair is not empty after Reset";
	return "ok";
}
// PARAM PUB PRV: do the two keys work together?
CMD("akey.use")
{
	int n = num(a[0]);
	AsymmetricKey &pub = c.get<AsymmetricKey>(a[1]), &prv = c.get<AsymmetricKey>(a[2]);
	Bytes msg = c.bytes("@77:0:50"), x, y, z;
	std::unique_ptr<IPrng> g(new KnownPrng(99));
	switch (prim(n))
	{
		case AsymmetricPrimitives::ECDH:
		{
			std::unique_ptr<Encrypt::ECDH::ECDH> s(made<Encrypt::ECDH::ECDH, ECDHParameters>(n, g.get()));
			std::unique_ptr<AsymmetricKeyPair> o(s->Generate());
			return s->KeyExchange(&pub, o->PrivateKey(), x) && s->KeyExchange(o->PublicKey(), &prv, y) && x == y ? "yes" : "no";
		}
		case AsymmetricPrimitives::Kyber: case AsymmetricPrimitives::McEliece:
		{
			std::unique_ptr<Encrypt::IAsymmetricCipher> s;
			if (prim(n) == AsymmetricPrimitives::Kyber) s.reset(made<Encrypt::MLWE::Kyber, KyberParameters>(n, g.get())); else s.reset(made<Encrypt::MPKC::McEliece, McElieceParameters>(n, g.get()));
			s->Initialize(&pub); s->Encapsulate(z, x);
			s->Initialize(&prv);
			return s->Decapsulate(z, y) && x == y ? "yes" : "no";
		}
		default:
		{
			std::unique_ptr<Sign::IAsymmetricSigner> s;
			if (prim(n) == AsymmetricPrimitives::Dilithium) s.reset(made<Sign::DLTM::Dilithium, DilithiumParameters>(n, g.get()));
			else if (prim(n) == AsymmetricPrimitives::ECDSA) s.reset(made<Sign::ECDSA::ECDSA, ECDSAParameters>(n, g.get()));
			else if (prim(n) == AsymmetricPrimitives::SphincsPlus) s.reset(made<Sign::SPXP::SphincsPlus, SphincsPlusParameters>(n, g.get()));
			else s.reset(made<Sign::XMSS::XMSS, XmssParameters>(n, g.get()));
			s->Initialize(&prv); s->Sign(msg, z);
			s->Initialize(&pub);
			return s->Verify(z, y) && y == msg ? "yes" : "no";
		}
	}
}
CMD("agen")            // NAMES PARAM SEED
{
	int n = num(a[1]);
	std::unique_ptr<IPrng> g(new KnownPrng(num(a[2])));
	AsymmetricKeyPair* p;
	switch (prim(n))
	{
		case AsymmetricPrimitives::ECDH: { std::unique_ptr<Encrypt::ECDH::ECDH> s(made<Encrypt::ECDH::ECDH, ECDHParameters>(n, g.get())); p = s->Generate(); break; }
		case AsymmetricPrimitives::Kyber: { std::unique_ptr<Encrypt::MLWE::Kyber> s(made<Encrypt::MLWE::Kyber, KyberParameters>(n, g.get())); p = s->Generate(); break; }
		case AsymmetricPrimitives::McEliece: { std::unique_ptr<Encrypt::MPKC::McEliece> s(made<Encrypt::MPKC::McEliece, McElieceParameters>(n, g.get())); p = s->Generate(); break; }
		case AsymmetricPrimitives::Dilithium: { std::unique_ptr<Sign::DLTM::Dilithium> s(made<Sign::DLTM::Dilithium, DilithiumParameters>(n, g.get())); p = s->Generate(); break; }
		case AsymmetricPrimitives::ECDSA: { std::unique_ptr<Sign::ECDSA::ECDSA> s(made<Sign::ECDSA::ECDSA, ECDSAParameters>(n, g.get())); p = s->Generate(); break; }
		case AsymmetricPrimitives::SphincsPlus: { std::unique_ptr<Sign::SPXP::SphincsPlus> s(made<Sign::SPXP::SphincsPlus, SphincsPlusParameters>(n, g.get())); p = s->Generate(); break; }
		default: { std::unique_ptr<Sign::XMSS::XMSS> s(made<Sign::XMSS::XMSS, XmssParameters>(n, g.get())); p = s->Generate(); }
	}
	return keep(c, a[0], p);
}
