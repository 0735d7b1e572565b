// Integer and memory utilities.
#include "drv.h"
#include <cstring>
#include "IntegerTools.h"
#include "MemoryTools.h"
#include "ArrayTools.h"
using namespace CEX;
using Tools::IntegerTools;
using Tools::MemoryTools;
typedef std::string S;

template <class F> static std::string width(long long w, F f)
{
	switch (w) { case 1: return f(uint8_t()); case 2: return f(uint16_t()); case 4: return f(uint32_t()); case 8: return f(uint64_t()); }
	throw S("width");
}
template <class T> static std::vector<T> arr(const Bytes &b) { std::vector<T> v(b.size() / sizeof(T)); if (v.size()) std::memcpy(v.data(), b.data(), v.size() * sizeof(T)); return v; }
template <class T> static T word(const Bytes &b) { T t = 0; std::memcpy(&t, b.data(), b.size() < sizeof(T) ? b.size() : sizeof(T)); return t; }
template <class T> static S out(const std::vector<T> &v) { return v.size() ? hex(reinterpret_cast<const uint8_t*>(v.data()), v.size() * sizeof(T)) : S("-"); }
template <class T> static S outw(T v) { return hex(reinterpret_cast<const uint8_t*>(&v), sizeof(T)); }

template <class A, class B> static S mem(const S &f, const Bytes &inb, const Bytes &outb, size_t i, size_t o, size_t n, uint8_t val)
{
	const std::vector<A> in = arr<A>(inb);
	std::vector<A> inm = in;
	std::vector<B> ot = arr<B>(outb);
	if (f == "copyx") MemoryTools::Copy(in, i, ot, o, n);
	else if (f == "move") MemoryTools::Move(in, i, ot, o, n);
	else if (f == "toobj") MemoryTools::CopyToObject(in, i, ot.data() + o, n);
	else if (f == "fromobj") MemoryTools::CopyFromObject(in.data() + i, ot, o, n);
	else if (f == "xor") MemoryTools::XOR(in, i, ot, o, n);
	else if (f == "xorpart") MemoryTools::XorPartial(inm, i, ot, o, n);
	else if (f == "and") MemoryTools::AND(in, i, ot, o, n);
	else if (f == "or") MemoryTools::OR(in, i, ot, o, n);
	else if (f == "copy128") MemoryTools::COPY128(in, i, ot, o);
	else if (f == "copy256") MemoryTools::COPY256(in, i, ot, o);
	else if (f == "copy512") MemoryTools::COPY512(in, i, ot, o);
	else if (f == "xor128") MemoryTools::XOR128(in, i, ot, o);
	else if (f == "xor256") MemoryTools::XOR256(in, i, ot, o);
	else if (f == "xor512") MemoryTools::XOR512(in, i, ot, o);
	else if (f == "xor1024") MemoryTools::XOR1024(in, i, ot, o);
	else if (f == "and128") MemoryTools::AND128(in, i, ot, o);
	else if (f == "and256") MemoryTools::AND256(in, i, ot, o);
	else if (f == "and512") MemoryTools::AND512(in, i, ot, o);
	else if (f == "or128") MemoryTools::OR128(in, i, ot, o);
	else if (f == "or256") MemoryTools::OR256(in, i, ot, o);
	else if (f == "or512") MemoryTools::OR512(in, i, ot, o);
	else throw S("op " + f);
	return out(ot);
}
template <class B> static S memo(const S &f, const Bytes &inb, const Bytes &outb, size_t i, size_t o, size_t n, uint8_t val, bool &known)
{
	const std::vector<B> in = arr<B>(inb);
	std::vector<B> ot = arr<B>(outb);
	known = true;
	if (f == "copy") MemoryTools::Copy(in, i, ot, o, n);
	else if (f == "clear") MemoryTools::Clear(ot, o, n);
	else if (f == "set") MemoryTools::SetValue(ot, o, n, val);
	else if (f == "wipe") IntegerTools::Clear(ot);
	else if (f == "clear128") MemoryTools::CLEAR128(ot, o);
	else if (f == "clear256") MemoryTools::CLEAR256(ot, o);
	else if (f == "clear512") MemoryTools::CLEAR512(ot, o);
	else if (f == "set128") MemoryTools::SETVAL128(ot, o, val);
	else if (f == "set256") MemoryTools::SETVAL256(ot, o, val);
	else if (f == "set512") MemoryTools::SETVAL512(ot, o, val);
	else known = false;
	return out(ot);
}
// FUNCTION in-width out-width in out in-offset out-offset bytes value
CMD("u.mem")
{
	S f = a[0];
	Bytes in = c.bytes(a[3]), ot = c.bytes(a[4]);
	size_t i = num(a[5]), o = num(a[6]), n = num(a[7]);
	uint8_t val = static_cast<uint8_t>(num(a[8]));
	if (f == "raw") { MemoryTools::CopyRaw(in.data(), ot.data(), n); return hex(ot); }
	if (f == "clearraw") { MemoryTools::ClearRaw(ot.data(), n); return hex(ot); }
	if (f == "xorraw") { MemoryTools::XorRaw(in.data(), ot.data(), n); return hex(ot); }
	if (f == "xorpad") { MemoryTools::XorPad(ot, val); return hex(ot); }
	if (f == "tovalue") return width(num(a[1]), [&](auto t) { auto v = arr<decltype(t)>(in); return width(n, [&](auto x) { x = word<decltype(x)>(ot); MemoryTools::CopyToValue(v, i, x, n); Bytes r = ot; std::memcpy(r.data(), &x, n); return hex(r); }); });
	if (f == "fromvalue") return width(num(a[2]), [&](auto t) { auto v = arr<decltype(t)>(ot); return width(n, [&](auto x) { MemoryTools::CopyFromValue(word<decltype(x)>(in), v, o, n); return out(v); }); });
	bool known = false;
	S r = width(num(a[2]), [&](auto t) { return memo<decltype(t)>(f, in, ot, i, o, n, val, known); });
	if (known) return r;
	return width(num(a[1]), [&](auto x) { return width(num(a[2]), [&](auto y) { return mem<decltype(x), decltype(y)>(f, in, ot, i, o, n, val); }); });
}
// FUNCTION width a b a-offset b-offset elements
CMD("u.eq")
{
	S f = a[0];
	Bytes x = c.bytes(a[2]), y = c.bytes(a[3]);
	size_t i = num(a[4]), o = num(a[5]), n = num(a[6]);
	bool r = false;
	width(num(a[1]), [&](auto t) -> S {
		auto p = arr<decltype(t)>(x), q = arr<decltype(t)>(y);
		if (f == "mcompare") r = MemoryTools::Compare(p, i, q, o, n);
		else if (f == "icompare") r = IntegerTools::Compare(p, i, q, o, n);
		else if (f == "verify") r = IntegerTools::Verify(p, q, n) == 0;
		else if (f == "verifyo") r = IntegerTools::Verify(p, i, q, o, n) == 0;
		else if (f == "diffmask") r = IntegerTools::DiffMask(p, q, n) == 0;
		else if (f == "verifyraw") r = IntegerTools::VerifyRaw(x.data(), y.data(), n) == 0;
		else throw S("op");
		return "";
	});
	return r ? "same" : "differ";
}
// FUNCTION width value in out out-offset length
CMD("u.ctr")
{
	S f = a[0];
	Bytes v = c.bytes(a[2]), ot = c.bytes(a[4]);
	const Bytes in = c.bytes(a[3]);
	size_t o = num(a[5]), n = num(a[6]);
	return width(num(a[1]), [&](auto t) {
		auto val = word<decltype(t)>(v);
		if (f == "be.inc") IntegerTools::BeIncrement8(ot);
		else if (f == "be.incn") IntegerTools::BeIncrement8(ot, o, n);
		else if (f == "le.inc") IntegerTools::LeIncrement(ot);
		else if (f == "le.incn") IntegerTools::LeIncrement(ot, n);
		else if (f == "be.add") IntegerTools::BeIncrease8(ot, val);
		else if (f == "le.add") IntegerTools::LeIncrease8(ot, val);
		else if (f == "be.add2") IntegerTools::BeIncrease8(in, ot, val);
		else if (f == "le.add2") IntegerTools::LeIncrease8(in, ot, val);
		else if (f == "be.add3") IntegerTools::BeIncrease8(in, ot, o, val);
		else if (f == "le.add3") IntegerTools::LeIncrease8(in, ot, o, val);
		else if (f == "be.add4") IntegerTools::BeIncrease8(in, ot, o, n, val);
		else if (f == "le.add4") IntegerTools::LeIncrease8(in, ot, o, n, val);
		else throw S("op");
		return hex(ot);
	});
}
// FUNCTION width value in out
CMD("u.wide")
{
	S f = a[0];
	size_t v = static_cast<size_t>(word<uint64_t>(c.bytes(a[2])));
	Bytes in = c.bytes(a[3]), ot = c.bytes(a[4]);
	auto go = [&](auto t) {
		auto p = arr<decltype(t)>(in), q = arr<decltype(t)>(ot);
		if (f == "le.incw") { IntegerTools::LeIncrementW(p); return out(p); }
		if (f == "le.addw") { IntegerTools::LeIncreaseW(p, v); return out(p); }
		IntegerTools::LeIncreaseW(p, q, v);
		return out(q);
	};
	return num(a[1]) == 4 ? go(uint32_t()) : go(uint64_t());
}
template <class T> static S one(const S &f, T x)
{
	if (f == "expandmask") return outw(IntegerTools::ExpandMask<T>(x));
	if (f == "expandtop") return outw(IntegerTools::ExpandTopBit<T>(x));
	if (f == "iszero") return outw(IntegerTools::IsZero<T>(x));
	if (f == "ispow2") return outw(static_cast<T>(IntegerTools::IsPowerOf2(x) ? 1 : 0));
	throw S("op " + f);
}
template <class T> static S two(const S &f, T x, T y)
{
	if (f == "max") return outw(IntegerTools::Max(x, y));
	if (f == "min") return outw(IntegerTools::Min(x, y));
	if (f == "cmax") return outw(IntegerTools::CMax<T>(x, y));
	if (f == "cmin") return outw(IntegerTools::CMin<T>(x, y));
	if (f == "abs") return outw(IntegerTools::Abs(x, y));
	if (f == "satsub") return outw(IntegerTools::SaturatingSubtract(x, y));
	if (f == "isequal") return outw(IntegerTools::IsEqual<T>(x, y));
	if (f == "isless") return outw(IntegerTools::IsLess<T>(x, y));
	if (f == "islte") return outw(IntegerTools::IsLte<T>(x, y));
	if (f == "valueorzero") return outw(IntegerTools::ValueOrZero<T>(x, y));
	if (f == "select1") return outw(IntegerTools::Select<T>(static_cast<T>(~static_cast<T>(0)), x, y));
	if (f == "select0") return outw(IntegerTools::Select<T>(static_cast<T>(0), x, y));
	if (f == "modpow2") return outw(IntegerTools::ModPowerOf2(x, y));
	return one(f, x);
}
static S order(const S &f, long long w, const Bytes &x)
{
	const Bytes in = x;
	size_t n = static_cast<size_t>(w);
	Bytes ot(n, 0xA5);
	bool be = f[0] == 'b';
	S g = f.substr(3);
	if (g == "from" || g == "fromraw")
	{
		bool raw = g == "fromraw";
		Bytes pad = in;
		pad.insert(pad.begin(), 3, 0x5A);
		if (n == 2) return outw(be ? (raw ? IntegerTools::BeBytesTo16Raw(in.data()) : IntegerTools::BeBytesTo16(pad, 3)) : (raw ? IntegerTools::LeBytesTo16Raw(in.data()) : IntegerTools::LeBytesTo16(pad, 3)));
		if (n == 4) return outw(be ? (raw ? IntegerTools::BeBytesTo32Raw(in.data()) : IntegerTools::BeBytesTo32(pad, 3)) : (raw ? IntegerTools::LeBytesTo32Raw(in.data()) : IntegerTools::LeBytesTo32(pad, 3)));
		return outw(be ? (raw ? IntegerTools::BeBytesTo64Raw(in.data()) : IntegerTools::BeBytesTo64(pad, 3)) : (raw ? IntegerTools::LeBytesTo64Raw(in.data()) : IntegerTools::LeBytesTo64(pad, 3)));
	}
	if (g == "to")
	{
		ot.insert(ot.begin(), 3, 0x5A);
		ot.push_back(0x77);
		if (n == 2) { if (be) IntegerTools::Be16ToBytes(word<uint16_t>(x), ot, 3); else IntegerTools::Le16ToBytes(word<uint16_t>(x), ot, 3); }
		else if (n == 4) { if (be) IntegerTools::Be32ToBytes(word<uint32_t>(x), ot, 3); else IntegerTools::Le32ToBytes(word<uint32_t>(x), ot, 3); }
		else { if (be) IntegerTools::Be64ToBytes(word<uint64_t>(x), ot, 3); else IntegerTools::Le64ToBytes(word<uint64_t>(x), ot, 3); }
		if (ot[0] != 0x5A || ot[1] != 0x5A || ot[2] != 0x5A || ot.back() != 0x77) return "spilled";
		return hex(ot.data() + 3, n);
	}
	if (g == "to2")
	{
		if (n == 2) return hex(be ? IntegerTools::Be16ToBytes<Bytes>(word<uint16_t>(x)) : IntegerTools::Le16ToBytes<Bytes>(word<uint16_t>(x)));
		if (n == 4) return hex(be ? IntegerTools::Be32ToBytes<Bytes>(word<uint32_t>(x)) : IntegerTools::Le32ToBytes<Bytes>(word<uint32_t>(x)));
		return hex(be ? IntegerTools::Be64ToBytes<Bytes>(word<uint64_t>(x)) : IntegerTools::Le64ToBytes<Bytes>(word<uint64_t>(x)));
	}
	if (n == 2) { if (be) IntegerTools::Be16ToBytesRaw(word<uint16_t>(x), ot.data()); else IntegerTools::Le16ToBytesRaw(word<uint16_t>(x), ot.data()); }
	else if (n == 4) { if (be) IntegerTools::Be32ToBytesRaw(word<uint32_t>(x), ot.data()); else IntegerTools::Le32ToBytesRaw(word<uint32_t>(x), ot.data()); }
	else { if (be) IntegerTools::Be64ToBytesRaw(word<uint64_t>(x), ot.data()); else IntegerTools::Le64ToBytesRaw(word<uint64_t>(x), ot.data()); }
	return hex(ot);
}
// FUNCTION width a b
CMD("u.word")
{
	S f = a[0];
	Bytes x = c.bytes(a[2]), y = c.bytes(a[3]);
	long long w = num(a[1]);
	if (f.substr(0, 3) == "be." || f.substr(0, 3) == "le.") return order(f, w, x);
	if (f == "rotl" || f == "rotr")
	{
		if (w == 4)
		{
			uint32_t v = word<uint32_t>(x), r = f == "rotl" ? IntegerTools::RotL32(v, y[0]) : IntegerTools::RotR32(v, y[0]);
			if (y[0] > 0 && y[0] < 32 && r != (f == "rotl" ? IntegerTools::RotFL32(v, y[0]) : IntegerTools::RotFR32(v, y[0]))) return "the two rotations differ";
			return outw(r);
		}
		uint64_t v = word<uint64_t>(x), r = f == "rotl" ? IntegerTools::RotL64(v, y[0]) : IntegerTools::RotR64(v, y[0]);
		if (y[0] > 0 && y[0] < 64 && r != (f == "rotl" ? IntegerTools::RotFL64(v, y[0]) : IntegerTools::RotFR64(v, y[0]))) return "the two rotations differ";
		return outw(r);
	}
	if (f == "crop") return outw(IntegerTools::Crop(word<uint64_t>(x), y[0]));
	if (f == "parity") return outw(IntegerTools::Parity(word<uint64_t>(x)));
	return width(w, [&](auto t) {
		if (f == "getbyte") return outw(IntegerTools::GetByte(word<decltype(t)>(x), y[0]));
		return two<decltype(t)>(f, word<decltype(t)>(x), word<decltype(t)>(y)); });
}
// FUNCTION width in out in-offset out-offset bytes
CMD("u.block")
{
	S f = a[0];
	long long w = num(a[1]);
	Bytes in = c.bytes(a[2]), ot = c.bytes(a[3]);
	size_t i = num(a[4]), o = num(a[5]), n = num(a[6]);
	if (f == "le.fromn") return w == 4 ? outw(IntegerTools::LeBytesTo32(in, i, n)) : outw(IntegerTools::LeBytesTo64(in, i, n));
	auto wide = [&](auto t) {
		std::vector<decltype(t)> p = arr<decltype(t)>(in), q = arr<decltype(t)>(ot);
		if (f == "toblock.be") { IntegerTools::BeToBlock(p, i, ot, o, n); return hex(ot); }
		if (f == "toblock.le") { IntegerTools::LeToBlock(p, i, ot, o, n); return hex(ot); }
		if (f == "fromblock.be") IntegerTools::BlockToBe(in, i, q, o, n);
		else if (f == "fromblock.le") IntegerTools::BlockToLe(in, i, q, o, n);
		else throw S("op " + f);
		return out(q);
	};
	if (f == "unit.be" || f == "unit.le")
	{
		auto d = arr<uint32_t>(in);
		auto q = arr<uint64_t>(in);
		if (f == "unit.be") { if (w == 4) IntegerTools::BeUL256ToBlock(d, i, ot, o); else IntegerTools::BeULL512ToBlock(q, i, ot, o); }
		else if (w == 4) IntegerTools::LeUL256ToBlock(d, i, ot, o);
		else if (n == 32) IntegerTools::LeULL256ToBlock(q, i, ot, o);
		else if (n == 64) IntegerTools::LeULL512ToBlock(q, i, ot, o);
		else IntegerTools::LeULL1024ToBlock(q, i, ot, o);
		return hex(ot);
	}
	if (f == "ununit.le")
	{
		auto d = arr<uint32_t>(ot);
		auto q = arr<uint64_t>(ot);
		if (w == 4) { IntegerTools::LeBytesToUL512(in, i, d, o); return out(d); }
		if (n == 32) IntegerTools::LeBytesToULL256(in, i, q, o);
		else if (n == 64) IntegerTools::LeBytesToULL512(in, i, q, o);
		else IntegerTools::LeBytesToULL1024(in, i, q, o);
		return out(q);
	}
	return w == 4 ? wide(uint32_t()) : w == 8 ? wide(uint64_t()) : wide(uint16_t());
}
// FUNCTION width a b a-offset b-offset elements condition
CMD("u.cond")
{
	S f = a[0];
	Bytes x = c.bytes(a[2]), y = c.bytes(a[3]);
	size_t i = num(a[4]), o = num(a[5]), n = num(a[6]);
	bool p = a[7] == "1";
	if (f == "cmov") { IntegerTools::CMov(x, i, y, o, n, p ? 1 : 0); return hex(y); }
	if (f == "cmovraw") { IntegerTools::CMovRaw(x.data(), y.data(), n, p ? 1 : 0); return hex(y); }
	if (f == "shiftleft") { Bytes r(x.size()); uint32_t bit = IntegerTools::ShiftLeft(x, r); return hex(r) + (bit == (p ? 1U : 0U) ? "" : " carry"); }
	return width(num(a[1]), [&](auto t) {
		typedef decltype(t) T;
		std::vector<T> u = arr<T>(x), v = arr<T>(y), r(n);
		// every nonzero condition counts
		for (int k = 0; k < static_cast<int>(8 * sizeof(T)); ++k)
		{
			T cond = static_cast<T>(p ? static_cast<T>(1) << k : 0);
			std::vector<T> z = u;
			if (f == "ccopy") IntegerTools::ConditionalCopy<T>(cond, r.data(), u.data(), v.data(), n);
			else { IntegerTools::ConditionalZeroMem<T>(cond, z, n); r = z; }
			std::vector<T> first = r;
			if (k == 0) x.assign(reinterpret_cast<uint8_t*>(r.data()), reinterpret_cast<uint8_t*>(r.data() + r.size()));
			else if (std::memcmp(x.data(), r.data(), x.size()) != 0) return S("condition ") + std::to_string(k);
		}
		return hex(x); });
}
static S str(const Bytes &b) { return S(b.begin(), b.end()); }
// FUNCTION width bytes offset n text
CMD("u.text")
{
	S f = a[0], t = a[5];
	Bytes x = c.bytes(a[2]);
	size_t i = num(a[3]), n = num(a[4]);
	if (f == "tohex") return "'" + IntegerTools::ToHex(x, i, n) + "'";
	if (f == "fromhex") return hex(IntegerTools::FromHex(t, t.size()));
	if (f == "inttohex") return width(num(a[1]), [&](auto v) { return "'" + IntegerTools::IntToHex(word<decltype(v)>(x)) + "'"; });
	if (f == "hextoint") { t = "7F" + t; return width(num(a[1]), [&](auto v) { return outw(IntegerTools::HexToInt<decltype(v)>(t, 2)); }); }
	if (f == "dec") return width(num(a[1]), [&](auto v) { return S(IntegerTools::ToString(word<decltype(v)>(x))); });
	if (f == "undec") { t = "12" + t; return width(num(a[1]), [&](auto v) { return outw(IntegerTools::FromString<decltype(v)>(t, 2, t.size() - 2)); }); }
	throw S("op " + f);
}
