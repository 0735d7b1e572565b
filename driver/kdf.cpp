#include "drv.h"
#include "SymmetricKey.h"
#include "HKDF.h"
#include "KDF2.h"
#include "PBKDF2.h"
#include "SHAKE.h"
#include "SCBKDF.h"
#include "SHA2256.h"
#include "SHA2512.h"
#include "KdfFromName.h"
using namespace CEX;
using namespace CEX::Kdf;
using Enumeration::SHA2Digests;
using Enumeration::ShakeModes;

// k NAME enum|digest[:iterations] | cost:cpu:mem | factory
CMD("kdf.new")
{
	const std::string &n = a[1], &how = a[2];
	const bool big = n.size() > 3 && n.substr(n.size() - 3) == "512";
	size_t p = how.find(':');
	const std::string kind = how.substr(0, p);
	const size_t x = p == std::string::npos ? 0 : num(how.substr(p + 1, how.find(':', p + 1) - p - 1));
	SHA2Digests d = big ? SHA2Digests::SHA2512 : SHA2Digests::SHA2256;
	ShakeModes m = big ? ShakeModes::SHAKE512 : n.substr(n.size() - 3) == "256" ? ShakeModes::SHAKE256 : ShakeModes::SHAKE128;
	Digest::IDigest* g = nullptr;
	if (kind == "digest")
	{
		g = big ? static_cast<Digest::IDigest*>(new Digest::SHA2512(false)) : new Digest::SHA2256(false);
		c.put<Digest::IDigest>(a[0] + ".d", g);
	}
	IKdf* k;
	if (n.rfind("HKDF", 0) == 0) k = g ? new HKDF(g) : new HKDF(d);
	else if (n.rfind("KDF2", 0) == 0) k = g ? new KDF2(g) : new KDF2(d);
	else if (n.rfind("PBKDF2", 0) == 0)
	{
		if (p == std::string::npos) k = new PBKDF2(d);
		else k = g ? new PBKDF2(g, static_cast<uint32_t>(x)) : new PBKDF2(d, static_cast<uint32_t>(x));
	}
	else if (n.rfind("SHAKE", 0) == 0) k = new SHAKE(m);
	else k = new SCBKDF(m, x, num(how.substr(how.find(':', p + 1) + 1)));
	c.put<IKdf>(a[0], k);
	return std::string(k->IsInitialized() ? "1" : "0");
}
CMD("kdf.init")
{
	Bytes k = c.bytes(a[1]), n = c.bytes(a[2]), i = c.bytes(a[3]);
	Cipher::SymmetricKey key(k, n, i);
	IKdf &g = c.get<IKdf>(a[0]);
	g.Initialize(key);
	return std::string(g.IsInitialized() ? "ok" : "uninitialized");
}
// SHAKE's own overloads: k vec|sec key salt info
CMD("kdf.shinit")
{
	Bytes k = c.bytes(a[2]), n = c.bytes(a[3]), i = c.bytes(a[4]);
	SHAKE &g = static_cast<SHAKE&>(c.get<IKdf>(a[0]));
	if (a[1] == "vec") { if (i.size()) g.Initialize(k, n, i); else if (n.size()) g.Initialize(k, n); else g.Initialize(k); }
	else
	{
		SecureVector<uint8_t> sk = sec<SecureVector<uint8_t>>(k), sn = sec<SecureVector<uint8_t>>(n), si = sec<SecureVector<uint8_t>>(i);
		if (i.size()) g.Initialize(sk, sn, si); else if (n.size()) g.Initialize(sk, sn); else g.Initialize(sk);
	}
	return std::string(g.IsInitialized() ? "ok" : "uninitialized");
}
CMD("kdf.q") { return std::string(c.get<IKdf>(a[0]).IsInitialized() ? "1" : "0"); }
CMD("kdf.reset") { c.get<IKdf>(a[0]).Reset(); return "ok"; }
// k size off len vec|sec: the whole buffer
CMD("kdf.gen")
{
	IKdf &g = c.get<IKdf>(a[0]);
	size_t sz = num(a[1]), o = num(a[2]), n = num(a[3]);
	if (a[4] == "sec")
	{
		SecureVector<uint8_t> b(sz, 0xA5);
		if (o == 0 && n == sz) g.Generate(b); else g.Generate(b, o, n);
		return hex(plain(b));
	}
	Bytes b(sz, 0xA5);
	if (o == 0 && n == sz) g.Generate(b); else g.Generate(b, o, n);
	return hex(b);
}
CMD("kdf.legal") { IKdf &m = c.get<IKdf>(a[0]); return std::to_string(m.MinimumKeySize()) + " " + std::to_string(m.MinimumSaltSize()) + legalsizes(m.LegalKeySizes()); }
