#include "drv.h"
#include "MemoryStream.h"
#include "StreamReader.h"
#include "StreamWriter.h"
#include "SecureVector.h"
using namespace CEX;
using namespace CEX::IO;

static std::string at(StreamWriter &s) { return " " + std::to_string(s.Position()) + "/" + std::to_string(s.Length()); }
static std::string at(StreamReader &s) { return " " + std::to_string(s.Position()) + "/" + std::to_string(s.Length()); }
CMD("ts.new")
{
	Bytes b = a.size() > 2 ? c.bytes(a[2]) : Bytes();
	StreamWriter* w;
	if (a[1] == "room") w = new StreamWriter(static_cast<size_t>(num(a[3])));
	else if (a[1] == "array") w = new StreamWriter(b);
	else { MemoryStream m(b); m.Seek(b.size() / 2, SeekOrigin::Begin); w = new StreamWriter(m); }
	c.put<StreamWriter>(a[0], w);
	return "ok" + at(*w);
}
CMD("ts.wint")      // the value is given by its bytes
{
	StreamWriter &w = c.get<StreamWriter>(a[0]);
	Bytes b = c.bytes(a[2]);
	uint64_t v = 0;
	for (size_t i = b.size(); i-- > 0; ) v = (v << 8) | b[i];
	const std::string &t = a[1];
	if (t == "u1") w.Write(static_cast<uint8_t>(v)); else if (t == "i1") w.Write(static_cast<int8_t>(v));
	else if (t == "u2") w.Write(static_cast<uint16_t>(v)); else if (t == "i2") w.Write(static_cast<int16_t>(v));
	else if (t == "u4") w.Write(static_cast<uint32_t>(v)); else if (t == "i4") w.Write(static_cast<int32_t>(v));
	else if (t == "u8") w.Write(static_cast<uint64_t>(v)); else w.Write(static_cast<int64_t>(v));
	return "ok" + at(w);
}
template <class T> static void load(T &o, const Bytes &b, size_t at)
{
	typedef typename T::value_type V;
	for (size_t i = 0; i * sizeof(V) < b.size(); ++i) { uint64_t v = 0; for (size_t j = sizeof(V); j-- > 0; ) v = (v << 8) | b[i * sizeof(V) + j]; o[at + i] = static_cast<V>(v); }
}
template <class V> static void wvec(StreamWriter &w, const Bytes &b) { std::vector<V> x(b.size() / sizeof(V)); load(x, b, 0); w.Write(x); }
template <class A> static void warr(StreamWriter &w, const Bytes &b, size_t off) { size_t n = b.size() / sizeof(typename A::value_type); A x(off + n + 1); load(x, b, off); w.Write(x, off, n); }
CMD("ts.wvec")
{
	StreamWriter &w = c.get<StreamWriter>(a[0]); Bytes b = c.bytes(a[2]);
	if (a[1] == "1") wvec<uint8_t>(w, b); else if (a[1] == "2") wvec<uint16_t>(w, b); else if (a[1] == "4") wvec<uint32_t>(w, b); else wvec<uint64_t>(w, b);
	return "ok" + at(w);
}
CMD("ts.warr")
{
	StreamWriter &w = c.get<StreamWriter>(a[0]); Bytes b = c.bytes(a[2]); size_t o = num(a[3]);
	bool s = a[4] == "sec";
	if (a[1] == "1") s ? warr<SecureVector<uint8_t>>(w, b, o) : warr<std::vector<uint8_t>>(w, b, o);
	else if (a[1] == "2") s ? warr<SecureVector<uint16_t>>(w, b, o) : warr<std::vector<uint16_t>>(w, b, o);
	else if (a[1] == "4") s ? warr<SecureVector<uint32_t>>(w, b, o) : warr<std::vector<uint32_t>>(w, b, o);
	else s ? warr<SecureVector<uint64_t>>(w, b, o) : warr<std::vector<uint64_t>>(w, b, o);
	return "ok" + at(w);
}
CMD("ts.whole") { return hex(c.get<StreamWriter>(a[0]).Generate()); }
CMD("ts.turn")
{
	MemoryStream* m = c.get<StreamWriter>(a[0]).GetStream();
	std::string r = std::to_string(m->Position()) + "/" + std::to_string(m->Length()) + " " + hex(m->ToArray());
	if (m->Length() > 1) m->Seek(1, SeekOrigin::Begin);      // a reader starts in front wherever the stream is
	c.put<StreamReader>(a[1], new StreamReader(*m));
	if (m->Length() > 0) m->WriteByte(0x99);                 // and has its own copy
	delete m;
	return r;
}
CMD("ts.at") { return "ok" + at(c.get<StreamWriter>(a[0])); }
template <class T> static std::string rint(StreamReader &r) { T v = r.ReadInt<T>(); uint64_t u = static_cast<uint64_t>(v); Bytes b; for (size_t i = 0; i < 8; ++i) b.push_back(static_cast<uint8_t>(u >> (8 * i))); return hex(b); }
CMD("ts.rint")
{
	StreamReader &r = c.get<StreamReader>(a[0]); const std::string &t = a[1];
	std::string s = t == "b" ? std::string() : t == "u1" ? rint<uint8_t>(r) : t == "i1" ? rint<int8_t>(r) : t == "u2" ? rint<uint16_t>(r) : t == "i2" ? rint<int16_t>(r) :
		t == "u4" ? rint<uint32_t>(r) : t == "i4" ? rint<int32_t>(r) : t == "u8" ? rint<uint64_t>(r) : rint<int64_t>(r);
	if (t == "b") { uint8_t v = r.ReadByte(); s = hex(&v, 1) + "00000000000000"; }
	return s + at(r);
}
CMD("ts.rbytes") { StreamReader &r = c.get<StreamReader>(a[0]); std::string s = hex(r.ReadBytes(num(a[1]))); return s + at(r); }
template <class A> static std::string rarr(StreamReader &r, size_t n, size_t off)
{
	typedef typename A::value_type V;
	A o(off + n + 1, static_cast<V>(0xa5a5a5a5a5a5a5a5ULL));
	r.Read(o, off, n);
	return hex(reinterpret_cast<uint8_t*>(&o[0]), o.size() * sizeof(V));
}
CMD("ts.rarr")
{
	StreamReader &r = c.get<StreamReader>(a[0]); size_t n = num(a[2]), o = num(a[3]); bool s = a[4] == "sec";
	std::string x = a[1] == "1" ? (s ? rarr<SecureVector<uint8_t>>(r, n, o) : rarr<std::vector<uint8_t>>(r, n, o)) :
		a[1] == "2" ? (s ? rarr<SecureVector<uint16_t>>(r, n, o) : rarr<std::vector<uint16_t>>(r, n, o)) :
		a[1] == "4" ? (s ? rarr<SecureVector<uint32_t>>(r, n, o) : rarr<std::vector<uint32_t>>(r, n, o)) : (s ? rarr<SecureVector<uint64_t>>(r, n, o) : rarr<std::vector<uint64_t>>(r, n, o));
	return x + at(r);
}
