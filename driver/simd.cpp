// The SIMD integer types, one operator at a time on four registers.
#include "drv.h"
#include "UInt128.h"
#include "UShort128.h"
#include "UInt256.h"
#include "ULong256.h"
#include <array>
#include <cstring>
using namespace CEX::Numeric;

template <class T> struct Traits;
template <> struct Traits<UInt128> { typedef uint32_t E; };
template <> struct Traits<UShort128> { typedef uint16_t E; };
template <> struct Traits<UInt256> { typedef uint32_t E; };
template <> struct Traits<ULong256> { typedef uint64_t E; };
template <class T> struct Regs { T r[5]; };

template <class T> static std::string one(const T &x) { Bytes b(sizeof(T) + 8, 0xA5); x.Store(b, 3); return hex(Bytes(b.begin() + 3, b.begin() + 3 + sizeof(T))); }
template <class T> static std::string all(const Regs<T> &g) { std::string s; for (int i = 1; i < 5; ++i) s += (i > 1 ? " " : "") + one(g.r[i]); return s; }

template <class T> static std::string set(Ctx &c, const std::vector<std::string> &a)
{
	typedef typename Traits<T>::E E;
	const size_t N = sizeof(T) / sizeof(E);
	Regs<T> &g = c.get<Regs<T>>(a[1]);
	const std::string &f = a[2];
	T &d = g.r[num(a[3])];
	Bytes b = c.bytes(a[5]);
	std::vector<E> v(N + 2, static_cast<E>(0x5C));
	std::memcpy(&v[2], b.data(), sizeof(T));
	const E* e = &v[2];
	if (f == "array") d.Load(v, 2);
	else if (f == "ctor") d = T(v, 2);
	else if (f == "one") d.Load(e[0]);
	else if (f == "ctorone") d = T(e[0]);
	else if (f == "const1") d = T::ONE();
	else if (f == "const0") d = T::ZERO();
	else if (f == "assign") d = g.r[num(a[4])];
	else if (f == "loadul")
	{
		if constexpr (sizeof(E) == 8) d.LoadULL(v, 2);
		else if constexpr (sizeof(E) == 4) d.LoadUL(v, 2);
	}
	else if (f == "each" || f == "ctoreach")
	{
		bool k = f == "ctoreach";
		if constexpr (N == 4) { if (k) d = T(e[0], e[1], e[2], e[3]); else d.Load(e[0], e[1], e[2], e[3]); }
		else { if (k) d = T(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]); else d.Load(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]); }
	}
	else throw std::string("no such load ") + f;
	return all(g);
}

template <class T> static std::string op(Ctx &c, const std::vector<std::string> &a)
{
	typedef typename Traits<T>::E E;
	const bool big = sizeof(E) == 8, small = sizeof(E) == 2;
	Regs<T> &g = c.get<Regs<T>>(a[1]);
	const std::string &o = a[2], &f = a[3];
	T &d = g.r[num(a[4])], &x = g.r[num(a[5])], &y = g.r[num(a[6])];
	int32_t k = static_cast<int32_t>(num(a[7]));
	std::string ret;
	bool in = f == "op=";
#define BIN(N, OP) else if (o == N) { if (in) d OP##= y; else d = x OP y; }
	if (false) {}
	BIN("add", +) BIN("sub", -) BIN("mul", *) BIN("div", /) BIN("mod", %) BIN("xor", ^) BIN("or", |) BIN("and", &)
	else if (o == "shl") { if (in) d <<= k; else d = x << k; }
	else if (o == "shr") { if (in) d >>= k; else d = x >> k; }
	else if (o == "andnot") d = x.AndNot(y);
	else if (o == "gt") d = x > y;
	else if (o == "lt") d = x < y;
	else if (o == "ge") d = x >= y;
	else if (o == "le") d = x <= y;
	else if (o == "eq") d = x == y;
	else if (o == "ne") d = x != y;
	else if (o == "not") d = ~x;
	else if (o == "lnot") d = !x;
	else if (o == "abs") d = T::Abs(x);
	else if (o == "neg") { if constexpr (!big) d = T::Negate(x); }
	else if (o == "sra") { if constexpr (!big && !small) d = T::ShiftRA(x, k); }
	else if (o == "srl") { if constexpr (!big && !small) d = T::ShiftRL(x, k); }
	else if (o == "swap") { if (f == "static") d = T::Swap(x); else d = x.Swap(); }
	else if (o == "inc") { if (f == "prefix") ret = one(++d); else ret = one(d++); }
	else if (o == "dec") { if constexpr (!big) { if (f == "prefix") ret = one(--d); else ret = one(d--); } }
	else if (o == "rotl" || o == "rotr")
	{
		bool l = o == "rotl", m = f == "member";
		if constexpr (big) { if (m) { if (l) d.RotL64(k); else d.RotR64(k); } else d = l ? T::RotL64(x, k) : T::RotR64(x, k); }
		else if constexpr (small) { if (m) { if (l) d.RotL16(k); else d.RotR16(k); } else d = l ? T::RotL16(x, k) : T::RotR16(x, k); }
		else { if (m) { if (l) d.RotL32(k); else d.RotR32(k); } else d = l ? T::RotL32(x, k) : T::RotR32(x, k); }
	}
	else throw std::string("no such operator ") + o;
	return (ret.empty() ? "" : ret + " ") + all(g);
}
template <class T> static std::string move4(const Bytes &b)
{
	Bytes in(3, 0x5C); in.insert(in.end(), b.begin(), b.end());
	T r[4];
	T::Load4(in, 3, r[0], r[1], r[2], r[3]);
	std::string s;
	for (auto &x : r) s += one(x);
	Bytes out(b.size() + 8, 0xA5);
	T::Store4(out, 3, r[0], r[1], r[2], r[3]);
	return s + " " + hex(Bytes(out.begin() + 3, out.end() - 5));
}
#define EACH(F, ...) a[0] == "UInt128" ? F<UInt128>(__VA_ARGS__) : a[0] == "UShort128" ? F<UShort128>(__VA_ARGS__) : a[0] == "UInt256" ? F<UInt256>(__VA_ARGS__) : F<ULong256>(__VA_ARGS__)
template <class T> static std::string fresh(Ctx &c, const std::string &n) { auto* p = new Regs<T>; for (auto &x : p->r) x.Load(0); c.put<Regs<T>>(n, p); return ""; }
CMD("sv.new") { return EACH(fresh, c, a[1]); }
CMD("sv.set") { return EACH(set, c, a); }
CMD("sv.op") { return EACH(op, c, a); }
CMD("sv.move") { return a[0] == "UInt128" ? move4<UInt128>(c.bytes(a[1])) : move4<UInt256>(c.bytes(a[1])); }
