#include "drv.h"
#include "DigestFromName.h"
#include "Blake256.h"
#include "Blake512.h"
#include "SHA2256.h"
#include "SHA2512.h"
#include "SHA3256.h"
#include "SHA3512.h"
#include "Skein256.h"
#include "Skein512.h"
#include "Skein1024.h"
using namespace CEX;
using namespace CEX::Digest;
using CEX::Enumeration::Digests;

static IDigest* make(const std::string &n, bool par, int fan)
{
	if (fan)
	{
		uint8_t F = static_cast<uint8_t>(fan);
		if (n == "Blake256") { BlakeParams p(32, 2, F, 0, 32); return new Blake256(p); }
		if (n == "Blake512") { BlakeParams p(64, 2, F, 0, 64); return new Blake512(p); }
		if (n == "SHA2256") { SHA2Params p(32, 64, F); return new SHA2256(p); }
		if (n == "SHA2512") { SHA2Params p(64, 128, F); return new SHA2512(p); }
		if (n == "SHA3256") { KeccakParams p(32, 136, F); return new SHA3256(p); }
		if (n == "SHA3512") { KeccakParams p(64, 72, F); return new SHA3512(p); }
		if (n == "Skein256") { SkeinParams p(32, 32, F); return new Skein256(p); }
		if (n == "Skein512") { SkeinParams p(64, 64, F); return new Skein512(p); }
		if (n == "Skein1024") { SkeinParams p(128, 128, F); return new Skein1024(p); }
	}
	if (n == "Blake256") return new Blake256(par);
	if (n == "Blake512") return new Blake512(par);
	if (n == "SHA2256") return new SHA2256(par);
	if (n == "SHA2512") return new SHA2512(par);
	if (n == "SHA3256") return new SHA3256(par);
	if (n == "SHA3512") return new SHA3512(par);
	if (n == "Skein256") return new Skein256(par);
	if (n == "Skein512") return new Skein512(par);
	if (n == "Skein1024") return new Skein1024(par);
	throw std::string("bad digest ") + n;
}
// dg.new obj alg seq|tree|<fanout>
CMD("dg.new")
{
	IDigest* d = (a[2] == "seq" || a[2] == "tree") ? make(a[1], a[2] == "tree", 0) : make(a[1], true, static_cast<int>(num(a[2])));
	c.put<IDigest>(a[0], d);
	return d->Name() + " " + std::to_string(d->BlockSize()) + " " + std::to_string(d->DigestSize()) + " " + std::to_string(d->ParallelProfile().ParallelMaxDegree());
}
CMD("dg.factory") { IDigest* d = Helper::DigestFromName::GetInstance(static_cast<Digests>(num(a[1])), a[2] == "tree"); c.put<IDigest>(a[0], d); return d->Name() + " " + std::to_string(d->BlockSize()) + " " + std::to_string(d->DigestSize()); }
CMD("dg.upd") { Bytes in = c.bytes(a[1]); c.get<IDigest>(a[0]).Update(in, num(a[2]), num(a[3])); return "ok"; }
CMD("dg.int")
{
	IDigest &d = c.get<IDigest>(a[0]);
	unsigned long long v = unum(a[2]);
	if (a[1] == "8") d.Update(static_cast<uint8_t>(v)); else if (a[1] == "32") d.Update(static_cast<uint32_t>(v)); else d.Update(static_cast<uint64_t>(v));
	return "ok";
}
CMD("dg.fin") { Bytes out(num(a[1]), 0xA5); c.get<IDigest>(a[0]).Finalize(out, num(a[2])); return hex(out); }
CMD("dg.comp") { Bytes in = c.bytes(a[1]), out(num(a[2]), 0xA5); c.get<IDigest>(a[0]).Compute(in, out); return hex(out); }
CMD("dg.reset") { c.get<IDigest>(a[0]).Reset(); return "ok"; }
CMD("dg.degree") { c.get<IDigest>(a[0]).ParallelMaxDegree(num(a[1])); return std::to_string(c.get<IDigest>(a[0]).ParallelProfile().ParallelMaxDegree()); }
