// The authenticated ciphers (stream ciphers with or without their MAC, GCM, HBA) behind one set of commands.
#include "drv.h"
#include "bcname.h"
#include "SymmetricKey.h"
#include "BlockCipherFromName.h"
#include "CryptoAuthenticationFailure.h"
#include "ChaChaP20.h"
#include "CSX512.h"
#include "GCM.h"
#include "HBA.h"
#include "RCS.h"
#include "RWS.h"
#include "TSX256.h"
#include "TSX512.h"
#include "TSX1024.h"
#include "StreamAuthenticators.h"
using namespace CEX;
using namespace CEX::Cipher::Stream;
using CEX::Cipher::Block::IBlockCipher;
using CEX::Cipher::Block::Mode::GCM;
using CEX::Cipher::Block::Mode::HBA;
using CEX::Cipher::SymmetricKey;

namespace {
struct Cr
{
	virtual ~Cr() {}
	virtual void init(bool enc, SymmetricKey &k) = 0;
	virtual void ad(const Bytes &b, size_t o, size_t n) = 0;
	virtual void adsec(const SecureVector<uint8_t> &b, size_t o, size_t n) = 0;
	virtual void tr(const Bytes &in, size_t io, Bytes &out, size_t oo, size_t n) = 0;
	virtual Bytes tag() = 0;
	virtual void tag(SecureVector<uint8_t> &t) = 0;
	virtual void par(bool on, size_t size, size_t degree) = 0;
	virtual void deg(size_t n) = 0;
	virtual std::string q() = 0;
	virtual std::string legal() = 0;
	virtual std::string nonce() { return "-"; }
	virtual void ser() { throw std::string("no serialization"); }
	virtual size_t tagsize() = 0;
	virtual std::string name() = 0;
};
template <class T> struct Base : Cr
{
	std::unique_ptr<T> o;
	void init(bool enc, SymmetricKey &k) override { o->Initialize(enc, k); }
	void ad(const Bytes &b, size_t of, size_t n) override { o->SetAssociatedData(b, of, n); }
	void tr(const Bytes &in, size_t io, Bytes &out, size_t oo, size_t n) override { o->Transform(in, io, out, oo, n); }
	Bytes tag() override { return o->Tag(); }
	void tag(SecureVector<uint8_t> &t) override { o->Tag(t); }
	void par(bool on, size_t size, size_t degree) override { o->ParallelProfile().Calculate(on, size, degree); }
	void deg(size_t n) override { o->ParallelMaxDegree(n); }
	std::string q() override { return std::string(o->IsInitialized() ? "1" : "0") + (o->IsEncryption() ? "1" : "0"); }
	size_t tagsize() override { return o->TagSize(); }
	std::string legal() override { return legalsizes(o->LegalKeySizes()); }
	std::string name() override { return o->Name(); }
};
template <class T> struct Strm : Base<T>
{
	explicit Strm(bool auth) { this->o.reset(new T(auth)); }
	void adsec(const SecureVector<uint8_t> &b, size_t of, size_t n) override { Bytes t = plain(b); this->o->SetAssociatedData(t, of, n); }
	std::string nonce() override { return hex(this->o->Nonce()); }
};
template <class T> struct Ser : Strm<T>
{
	explicit Ser(bool auth) : Strm<T>(auth) {}
	void ser() override { SecureVector<uint8_t> s = this->o->Serialize(); this->o.reset(new T(s)); }
};
template <class T> struct Aead : Base<T>
{
	std::shared_ptr<IBlockCipher> e;
	template <class... A> explicit Aead(A... a) { this->o.reset(new T(a...)); }
	void adsec(const SecureVector<uint8_t> &b, size_t of, size_t n) override { this->o->SetAssociatedData(b, of, n); }
};
Cr* make(Args &a)
{
	const std::string n = a[1];
	if (n == "GCM" || n == "HBA")
	{
		IBlockCipher* e = a[3] == "enum" ? nullptr : Helper::BlockCipherFromName::GetInstance(bcname(a[2]));
		if (n == "GCM")
		{
			Aead<GCM>* m = e ? new Aead<GCM>(e) : new Aead<GCM>(bcname(a[2]));
			m->e.reset(e);
			return m;
		}
		const std::string s = a[4];
		Enumeration::StreamAuthenticators t = s == "KMAC256" ? Enumeration::StreamAuthenticators::KMAC256 : s == "KMAC512" ? Enumeration::StreamAuthenticators::KMAC512 :
			s == "HMACSHA2256" ? Enumeration::StreamAuthenticators::HMACSHA2256 : s == "HMACSHA2512" ? Enumeration::StreamAuthenticators::HMACSHA2512 :
			s == "Poly1305" ? Enumeration::StreamAuthenticators::Poly1305 : Enumeration::StreamAuthenticators::None;
		Aead<HBA>* m = e ? new Aead<HBA>(e, t) : new Aead<HBA>(bcname(a[2]), t);
		m->e.reset(e);
		return m;
	}
	const bool auth = a[2] == "auth";
	if (n == "RCS") return new Ser<RCS>(auth);
	if (n == "RWS") return new Ser<RWS>(auth);
	if (n == "ChaChaP20") return new Ser<ChaChaP20>(auth);
	if (n == "CSX512") return new Ser<CSX512>(auth);
	if (n == "TSX256") return new Strm<TSX256>(auth);
	if (n == "TSX512") return new Strm<TSX512>(auth);
	return new Strm<TSX1024>(auth);
}
}
// c NAME auth|plain | GCM CIPHER enum|engine | HBA CIPHER enum|engine AUTH
CMD("cr.new") { c.put<Cr>(a[0], make(a)); return c.get<Cr>(a[0]).q(); }
CMD("cr.init")
{
	Bytes k = c.bytes(a[2]), n = c.bytes(a[3]), i = c.bytes(a[4]);
	SymmetricKey key(k, n, i);
	c.get<Cr>(a[0]).init(a[1] == "enc", key);
	return c.get<Cr>(a[0]).q();
}
CMD("cr.par") { c.get<Cr>(a[0]).par(a[1] == "1", num(a[2]), num(a[3])); return "ok"; }
CMD("cr.deg") { c.get<Cr>(a[0]).deg(num(a[1])); return "ok"; }
CMD("cr.q") { return c.get<Cr>(a[0]).q(); }
CMD("cr.nonce") { return c.get<Cr>(a[0]).nonce(); }
CMD("cr.ser") { c.get<Cr>(a[0]).ser(); return c.get<Cr>(a[0]).q(); }
// c data offset vec|sec
CMD("cr.ad")
{
	Bytes d = c.bytes(a[1]);
	size_t o = num(a[2]);
	Bytes in(o, 0x11);
	in.insert(in.end(), d.begin(), d.end());
	in.resize(in.size() + (a[4] == "tight" ? 0 : 9), 0x22);
	if (a[3] == "sec") c.get<Cr>(a[0]).adsec(sec<SecureVector<uint8_t>>(in), o, d.size());
	else c.get<Cr>(a[0]).ad(in, o, d.size());
	return "ok";
}
// c input inoff outoff len room [name]: len is Transform's Length; room bytes behind the output offset; the whole output is shown,
// or kept in a named buffer (without the offset). A call that throws after writing to the output reports DIRTY.
CMD("cr.tr")
{
	Bytes d = c.bytes(a[1]);
	size_t io = num(a[2]), oo = num(a[3]), n = num(a[4]), room = num(a[5]);
	Bytes in(io, 0x11);
	in.insert(in.end(), d.begin(), d.end());
	Bytes out(oo + room, 0xA5);
	Bytes before = in;
	try { c.get<Cr>(a[0]).tr(in, io, out, oo, n); }
	catch (...)
	{
		if (out != Bytes(oo + room, 0xA5)) return "DIRTY " + hex(out);
		throw;
	}
	if (in != before) return std::string("INPUT CHANGED");
	if (a.size() > 6) { c.bufs[a[6]] = Bytes(out.begin() + oo, out.end()); }
	return hex(out);
}
CMD("cr.tag")
{
	Cr &r = c.get<Cr>(a[0]);
	Bytes t = r.tag();
	SecureVector<uint8_t> s(t.size());
	r.tag(s);
	return hex(t) + (plain(s) == t ? "" : " other " + hex(s));
}
CMD("cr.name") { return c.get<Cr>(a[0]).name() + " " + std::to_string(c.get<Cr>(a[0]).tagsize()); }
CMD("cr.legal") { return "0 0" + c.get<Cr>(a[0]).legal(); }
// c data offset length vec|sec: the data exactly as given, whatever the offset and the length say
CMD("cr.adraw")
{
	Bytes in = c.bytes(a[1]);
	if (a[4] == "sec") c.get<Cr>(a[0]).adsec(sec<SecureVector<uint8_t>>(in), num(a[2]), num(a[3]));
	else c.get<Cr>(a[0]).ad(in, num(a[2]), num(a[3]));
	return "ok";
}
