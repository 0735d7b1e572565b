#include "drv.h"
#include "SymmetricKey.h"
#include "SymmetricSecureKey.h"
#include "HMAC.h"
#include "KMAC.h"
#include "KPA.h"
#include "CMAC.h"
#include "GMAC.h"
#include "Poly1305.h"
using namespace CEX;
using namespace CEX::Mac;
using Enumeration::BlockCiphers;

static BlockCiphers bc(const std::string &n)
{
	return n == "" ? BlockCiphers::AES : n == "RHXH256" ? BlockCiphers::RHXH256 : n == "RHXH512" ? BlockCiphers::RHXH512 :
		n == "RHXS256" ? BlockCiphers::RHXS256 : n == "RHXS512" ? BlockCiphers::RHXS512 : BlockCiphers::None;
}
static IMac* make(const std::string &n)
{
	if (n == "HMACSHA2256") return new HMAC(Enumeration::SHA2Digests::SHA2256);
	if (n == "HMACSHA2512") return new HMAC(Enumeration::SHA2Digests::SHA2512);
	if (n == "KMAC128") return new KMAC(Enumeration::KmacModes::KMAC128);
	if (n == "KMAC256") return new KMAC(Enumeration::KmacModes::KMAC256);
	if (n == "KMAC512") return new KMAC(Enumeration::KmacModes::KMAC512);
	if (n == "KPA128") return new KPA(Enumeration::KpaModes::KPA128);
	if (n == "KPA256") return new KPA(Enumeration::KpaModes::KPA256);
	if (n == "KPA512") return new KPA(Enumeration::KpaModes::KPA512);
	if (n.compare(0, 4, "CMAC") == 0) return new CMAC(bc(n.substr(4)));
	if (n.compare(0, 4, "GMAC") == 0) return new GMAC(bc(n.substr(4)));
	if (n == "Poly1305") return new Poly1305();
	throw std::string("bad mac ") + n;
}
CMD("mac.new") { IMac* m = make(a[1]); c.put<IMac>(a[0], m); return std::to_string(m->BlockSize()) + " " + std::to_string(m->TagSize()) + " " + (m->IsInitialized() ? "1" : "0"); }
CMD("mac.init")
{
	Bytes k = c.bytes(a[1]), n = c.bytes(a[2]), i = c.bytes(a[3]);
	Cipher::SymmetricKey key(k, n, i);
	c.get<IMac>(a[0]).Initialize(key);
	return "ok";
}
CMD("mac.upd") { Bytes in = c.bytes(a[1]); c.get<IMac>(a[0]).Update(in, num(a[2]), num(a[3])); return "ok"; }
CMD("mac.fin")
{
	size_t n = num(a[1]), o = num(a[2]);
	if (a.size() > 3 && a[3] == "sec")
	{
		SecureVector<uint8_t> out(n, 0xA5);
		size_t r = c.get<IMac>(a[0]).Finalize(out, o);
		return std::to_string(r) + " " + hex(out);
	}
	Bytes out(n, 0xA5);
	size_t r = c.get<IMac>(a[0]).Finalize(out, o);
	return std::to_string(r) + " " + hex(out);
}
CMD("mac.comp") { Bytes in = c.bytes(a[1]), out(num(a[2]), 0xA5); c.get<IMac>(a[0]).Compute(in, out); return hex(out); }
CMD("mac.reset") { c.get<IMac>(a[0]).Reset(); return "ok"; }
CMD("mac.isinit") { return c.get<IMac>(a[0]).IsInitialized() ? "1" : "0"; }
#include "Keccak.h"
// key custom message outlen rate: the stateless KMAC
CMD("mac.kmacp")
{
	Bytes k = c.bytes(a[0]), s = c.bytes(a[1]), m = c.bytes(a[2]), out(num(a[3]), 0xA5);
	Digest::Keccak::MACP1600(k, s, m, 0, m.size(), out, num(a[4]));
	return hex(out);
}
CMD("mac.legal") { IMac &m = c.get<IMac>(a[0]); return std::to_string(m.MinimumKeySize()) + " " + std::to_string(m.MinimumSaltSize()) + legalsizes(m.LegalKeySizes()); }
