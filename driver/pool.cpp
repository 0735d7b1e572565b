#include "drv.h"
#include <algorithm>
#include <cstring>
#include <mutex>
#include <stdexcept>
#include <thread>
#include "LockingAllocator.h"
#include "MemoryPool.h"
#include "SecureMemory.h"
#include "SecureVector.h"
using namespace CEX;
using CEX::Tools::MemoryPool;

struct Blk { size_t at, n; uint8_t tag; };
struct Arena
{
	Bytes mem; uint8_t* base; size_t size;
	Arena(size_t n) : mem(n + 64 + 256, 0x5A), size(n) { base = mem.data() + 128; while (reinterpret_cast<uintptr_t>(base) % 64) ++base; }
	bool edges() { for (uint8_t* p = mem.data(); p < mem.data() + mem.size(); ++p) if ((p < base || p >= base + size) && *p != 0x5A) return false; return true; }
};
static std::string tf(bool b) { return b ? "true" : "false"; }
static bool all(const uint8_t* p, size_t n, uint8_t v) { for (size_t i = 0; i < n; ++i) if (p[i] != v) return false; return true; }
// allocates, looks at the block and fills it; the event
static std::string take(MemoryPool &p, Arena &m, size_t n, uint8_t tag, bool strict, std::vector<Blk> &live, std::mutex* rec = nullptr)
{
	uint8_t* b = static_cast<uint8_t*>(p.Allocate(n));
	long long at = b ? b - m.base : -1;
	bool in = b && at >= 0 && static_cast<size_t>(at) + n <= m.size;
	bool z = in ? all(b, n, 0) : true;
	if (in) std::memset(b, tag, n);
	if (b) live.push_back(Blk{static_cast<size_t>(at), n, tag});
	return "{\"e\":\"a\",\"n\":" + std::to_string(n) + ",\"at\":" + std::to_string(at) + ",\"z\":" + tf(z) + ",\"s\":" + tf(strict) + "}";
}
static std::string fev(const Blk &b, bool ok, bool z) { return "{\"e\":\"f\",\"at\":" + std::to_string(b.at) + ",\"n\":" + std::to_string(b.n) + ",\"ok\":" + tf(ok) + ",\"z\":" + tf(z) + "}"; }
static std::string join(const std::vector<std::string> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i]; return s + "]"; }
static std::string give(MemoryPool &p, Arena &m, Blk b)
{
	bool z = all(m.base + b.at, b.n, b.tag);
	bool ok = p.Deallocate(m.base + b.at, b.n);
	return fev(b, ok, z);
}
// pool.run SIZE MIN MAX ALIGNBIT ops: aN allocate, fK free the K-th block by address, x foreign pointers, r reset
CMD("pool.run")
{
	Arena m(num(a[0]));
	MemoryPool p(m.base, m.size, 4096, num(a[1]), num(a[2]), static_cast<uint8_t>(num(a[3])));
	std::vector<Blk> live;
	std::vector<std::string> ev;
	uint8_t tag = 1;
	for (size_t i = 4; i < a.size(); ++i)
	{
		size_t k = a[i].size() > 1 ? num(a[i].substr(1)) : 0;
		if (a[i][0] == 'a') { ev.push_back(take(p, m, k, tag, true, live)); if (++tag == 0) tag = 1; }
		else if (a[i][0] == 'f' && live.size())
		{
			std::sort(live.begin(), live.end(), [](const Blk &x, const Blk &y) { return x.at < y.at; });
			k %= live.size();
			Blk b = live[k];
			live.erase(live.begin() + k);
			ev.push_back(give(p, m, b));
		}
		else if (a[i][0] == 'x')
		{
			bool o = p.Deallocate(m.base - 64, 32);
			o = p.Deallocate(m.base + m.size, 32) || o;
			o = p.Deallocate(m.base + m.size - 16, 32) || o;
			o = p.Deallocate(m.base - 16, 32) || o;
			ev.push_back("{\"e\":\"x\",\"ok\":" + tf(o) + "}");
		}
		else if (a[i][0] == 'r') { p.Reset(); live.clear(); ev.push_back("{\"e\":\"r\"}"); }
		else if (a[i][0] == 'z') { while (live.size()) { Blk b = live.back(); live.pop_back(); ev.push_back(give(p, m, b)); } }
	}
	ev.push_back("{\"e\":\"edge\",\"ok\":" + tf(m.edges()) + "}");
	return join(ev);
}
// pool.threads SIZE MIN MAX ALIGNBIT THREADS OPS SEED: a block is live from its allocation's return to its free's call
CMD("pool.threads")
{
	Arena m(num(a[0]));
	size_t mn = num(a[1]), mx = num(a[2]);
	MemoryPool p(m.base, m.size, 4096, mn, mx, static_cast<uint8_t>(num(a[3])));
	size_t nt = num(a[4]), ops = num(a[5]), seed = num(a[6]);
	std::mutex rec;
	std::vector<std::string> ev;
	std::vector<std::vector<Blk>> lives(nt);
	std::vector<std::thread> ts;
	for (size_t t = 0; t < nt; ++t) ts.emplace_back([&, t]()
	{
		uint64_t x = seed * 7919 + t * 104729 + 1;
		auto rnd = [&x](size_t n) { x = x * 6364136223846793005ull + 1442695040888963407ull; return static_cast<size_t>((x >> 33) % n); };
		std::vector<Blk> &live = lives[t];
		for (size_t k = 0; k < ops; ++k)
		{
			if (live.size() < 6 && rnd(2))
			{
				size_t n = mn + rnd(rnd(3) ? (4 * mn + 8) : m.size / 4);
				std::string e = take(p, m, n, static_cast<uint8_t>(t + 1), false, live);
				std::lock_guard<std::mutex> l(rec);
				ev.push_back(e);
			}
			else if (live.size())
			{
				size_t i = rnd(live.size());
				Blk b = live[i];
				live.erase(live.begin() + i);
				bool z = all(m.base + b.at, b.n, b.tag);
				size_t at;
				{ std::lock_guard<std::mutex> l(rec); at = ev.size(); ev.push_back(fev(b, true, z)); }
				if (!p.Deallocate(m.base + b.at, b.n)) { std::lock_guard<std::mutex> l(rec); ev[at] = fev(b, false, z); }
			}
		}
	});
	for (auto &t : ts) t.join();
	for (auto &l : lives) for (auto &b : l) ev.push_back(give(p, m, b));
	std::vector<Blk> live;
	ev.push_back(take(p, m, mx < m.size ? mx : m.size, 9, true, live));
	ev.push_back("{\"e\":\"edge\",\"ok\":" + tf(m.edges()) + "}");
	return join(ev);
}
CMD("pool.bad")
{
	Arena m(256);
	MemoryPool p(a[0] == "null" ? nullptr : m.base, 256, 4096, num(a[1]), num(a[2]), static_cast<uint8_t>(num(a[3])));
	return "ok";
}
// ---- secure containers ------------------------------------------------------------------------------------------
template <class T> struct Vec { bool sec; std::vector<T> p; SecureVector<T> s; };
template <class T, class V> static V fromb(const Bytes &b) { V v(b.size() / sizeof(T)); if (b.size()) std::memcpy(v.data(), b.data(), b.size()); return v; }
template <class T> static std::string show(Vec<T> &v) { return v.sec ? (v.s.size() ? hex(reinterpret_cast<uint8_t*>(v.s.data()), v.s.size() * sizeof(T)) : "-") : (v.p.size() ? hex(reinterpret_cast<uint8_t*>(v.p.data()), v.p.size() * sizeof(T)) : "-"); }
template <class T> static std::string sv(Ctx &c, Args &a)
{
	const std::string &op = a[1];
	auto put = [&](const std::string &n, bool s) -> Vec<T>& { c.put<Vec<T>>(n, new Vec<T>{s}); return c.get<Vec<T>>(n); };
	if (op == "new")            // NAME plain|sec EXPR
	{
		Bytes b = c.bytes(a[4]);
		Vec<T> &v = put(a[2], a[3] == "sec");
		if (v.sec) v.s = fromb<T, SecureVector<T>>(b); else v.p = fromb<T, std::vector<T>>(b);
		return show(v);
	}
	if (op == "drop") { c.objs.erase(a[2]); return "ok"; }
	Vec<T> &x = c.get<Vec<T>>(a[2]);
	if (op == "show") return show(x);
	if (op == "resize") { if (x.sec) x.s.resize(num(a[3])); else x.p.resize(num(a[3])); return show(x); }
	if (op == "push") { std::vector<T> e = fromb<T, std::vector<T>>(c.bytes(a[3])); for (T t : e) if (x.sec) x.s.push_back(t); else x.p.push_back(t); return show(x); }
	if (op == "clear") { SecureClear(x.s); return show(x); }
	if (op == "lock" || op == "lockclear") { Vec<T> &y = put(a[3], true); y.s = op == "lock" ? SecureLock(x.p) : SecureLockClear(x.p); return show(x) + " " + show(y); }
	if (op == "unlock" || op == "unlockclear") { Vec<T> &y = put(a[3], false); y.p = op == "unlock" ? SecureUnlock(x.s) : SecureUnlockClear(x.s); return show(x) + " " + show(y); }
	Vec<T> &y = c.get<Vec<T>>(a[3]);
	if (op == "insert") { if (x.sec) SecureInsert(x.s, y.s); else SecureInsert(x.p, y.s); }
	else if (op == "extract") { if (y.sec) SecureExtract(x.s, y.s); else SecureExtract(x.s, y.p); }
	else if (op == "insertr") { if (x.sec) SecureInsert(x.s, num(a[4]), y.s, num(a[5]), num(a[6])); else SecureInsert(x.p, num(a[4]), y.s, num(a[5]), num(a[6])); }
	else if (op == "extractr") { if (y.sec) SecureExtract(x.s, num(a[4]), y.s, num(a[5]), num(a[6])); else SecureExtract(x.s, num(a[4]), y.p, num(a[5]), num(a[6])); }
	else if (op == "copy") SecureCopy(x.s, num(a[4]), y.s, num(a[5]), num(a[6]));
	else if (op == "moveall") { if (!x.sec) SecureMove(x.p, y.s, num(a[4])); else if (y.sec) SecureMove(x.s, y.s, num(a[4])); else SecureMove(x.s, y.p, num(a[4])); }
	else if (op == "mover") { if (!x.sec) SecureMove(x.p, num(a[4]), y.s, num(a[5]), num(a[6])); else if (y.sec) SecureMove(x.s, num(a[4]), y.s, num(a[5]), num(a[6])); else SecureMove(x.s, num(a[4]), y.p, num(a[5]), num(a[6])); }
	else throw std::string("sv ") + op;
	return show(x) + " " + show(y);
}
CMD("sv")
{
	switch (num(a[0])) { case 1: return sv<uint8_t>(c, a); case 2: return sv<uint16_t>(c, a); case 4: return sv<uint32_t>(c, a); case 8: return sv<uint64_t>(c, a); }
	throw std::string("width");
}
CMD("sv.watch") { static Bytes b; watchfree(nullptr, 0); b = c.bytes(a[0]); watchfree(b.data(), b.size()); return "ok"; }
CMD("sv.freed") { bool s = freedseen(); watchfree(nullptr, 0); return s ? "seen" : "no"; }
