// The digest parameter blocks.
#include "drv.h"
#include "SHA2Params.h"
#include "KeccakParams.h"
#include "BlakeParams.h"
#include "SkeinParams.h"
using namespace CEX::Digest;

// the fields, in a fixed order for each class
template <class P> static std::string shown(P &p)
{
	std::string s;
	auto add = [&](unsigned long long v) { s += (s.empty() ? "" : " ") + std::to_string(v); };
	if constexpr (std::is_same<P, SHA2Params>::value || std::is_same<P, KeccakParams>::value) { add(p.NodeOffset()); add(p.Version()); add(p.OutputSize()); add(p.LeafSize()); add(p.FanOut()); add(p.Reserved()); }
	else if constexpr (std::is_same<P, BlakeParams>::value) { add(p.OutputSize()); add(p.KeyLength()); add(p.FanOut()); add(p.MaxDepth()); add(p.LeafLength()); add(p.NodeOffset()); add(p.NodeDepth()); add(p.InnerLength()); add(p.Reserved()); }
	else { s = hex(p.Schema()); add(p.Version()); add(p.Reserved1()); add(p.OutputSize()); add(p.LeafSize()); add(p.FanOut()); add(p.Reserved2()); add(p.Reserved3()); }
	return s + " " + hex(p.DistributionCode()) + " " + hex(p.ToBytes());
}
// o class full|short field values
template <class P> static std::string make(Ctx &c, const std::vector<std::string> &a)
{
	auto v = [&](size_t i) { return unum(a[3 + i]); };
	bool full = a[2] == "full";
	P* p;
	if constexpr (std::is_same<P, SHA2Params>::value || std::is_same<P, KeccakParams>::value)
	{
		if (full) { Bytes d = c.bytes(a[9]); p = new P(static_cast<uint32_t>(v(0)), v(1), static_cast<uint16_t>(v(2)), static_cast<uint32_t>(v(3)), static_cast<uint8_t>(v(4)), static_cast<uint8_t>(v(5)), d); }
		else p = new P(v(0), static_cast<uint32_t>(v(1)), static_cast<uint8_t>(v(2)));
	}
	else if constexpr (std::is_same<P, BlakeParams>::value)
	{
		if (full) { Bytes d = c.bytes(a[11]); p = new P(static_cast<uint8_t>(v(0)), static_cast<uint8_t>(v(1)), static_cast<uint8_t>(v(2)), static_cast<uint8_t>(v(3)), static_cast<uint32_t>(v(4)), static_cast<uint8_t>(v(5)), static_cast<uint8_t>(v(6)), static_cast<uint8_t>(v(7)), d); }
		else p = new P(static_cast<uint8_t>(v(0)), static_cast<uint8_t>(v(1)), static_cast<uint8_t>(v(2)), static_cast<uint8_t>(v(3)), static_cast<uint8_t>(v(4)));
	}
	else
	{
		if (full) { Bytes s = c.bytes(a[3]), d = c.bytes(a[9]); p = new P(s, v(1), static_cast<uint16_t>(v(2)), static_cast<uint32_t>(v(3)), static_cast<uint8_t>(v(4)), static_cast<uint8_t>(v(5)), d); }
		else p = new P(v(0), static_cast<uint8_t>(v(1)), static_cast<uint8_t>(v(2)));
	}
	c.put<P>(a[0], p);
	return shown(*p);
}
template <class P> static std::string put(Ctx &c, const std::vector<std::string> &a)
{
	P &p = c.get<P>(a[0]);
	const std::string &f = a[2];
	auto v = [&]() { return unum(a[3]); };
	if (f == "dst") p.DistributionCode() = c.bytes(a[3]);
	else if (f == "fanout") p.FanOut() = static_cast<uint8_t>(v());
	else if constexpr (std::is_same<P, SHA2Params>::value || std::is_same<P, KeccakParams>::value)
	{
		if (f == "offset") p.NodeOffset() = static_cast<uint32_t>(v());
		else if (f == "version") p.Version() = static_cast<uint16_t>(v());
		else if (f == "leaf") p.LeafSize() = static_cast<uint32_t>(v());
		else if (f == "res") p.Reserved() = static_cast<uint32_t>(v());
		else throw std::string("no such field ") + f;
	}
	else if constexpr (std::is_same<P, BlakeParams>::value)
	{
		if (f == "leaf") p.LeafLength() = static_cast<uint32_t>(v());
		else (f == "key" ? p.KeyLength() : f == "max" ? p.MaxDepth() : f == "offset" ? p.NodeOffset() : f == "depth" ? p.NodeDepth() : f == "inner" ? p.InnerLength() : p.Reserved()) = static_cast<uint8_t>(v());
	}
	else
	{
		if (f == "schema") p.Schema() = c.bytes(a[3]);
		else if (f == "version") p.Version() = static_cast<uint16_t>(v());
		else if (f == "res1") p.Reserved1() = static_cast<uint16_t>(v());
		else if (f == "leaf") p.LeafSize() = static_cast<uint8_t>(v());
		else if (f == "res2") p.Reserved2() = static_cast<uint8_t>(v());
		else p.Reserved3() = static_cast<uint32_t>(v());
	}
	return shown(p);
}
template <class P> static std::string load(Ctx &c, const std::vector<std::string> &a) { P* p = new P(c.bytes(a[2])); c.put<P>(a[0], p); return shown(*p); }
template <class P> static std::string copy(Ctx &c, const std::vector<std::string> &a)
{
	P &q = c.get<P>(a[2]);
	P* p = a[3] == "deep" ? q.DeepCopy() : new P(q.Clone());
	c.put<P>(a[0], p);
	return shown(*p);
}
template <class P> static std::string equal(Ctx &c, const std::vector<std::string> &a) { P &p = c.get<P>(a[0]), &q = c.get<P>(a[2]); return std::to_string(p.Equals(q)) + " " + std::to_string(p.GetHashCode() == q.GetHashCode()); }
#define EACH(F) a[1] == "SHA2" ? F<SHA2Params>(c, a) : a[1] == "Keccak" ? F<KeccakParams>(c, a) : a[1] == "Blake" ? F<BlakeParams>(c, a) : F<SkeinParams>(c, a)
CMD("pm.make") { return EACH(make); }
CMD("pm.set") { return EACH(put); }
CMD("pm.load") { return EACH(load); }
CMD("pm.copy") { return EACH(copy); }
CMD("pm.eq") { return EACH(equal); }
