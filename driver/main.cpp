#include "drv.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <mutex>
#include <new>
#include <sstream>
#include "CryptoException.h"
#include "CryptoAsymmetricException.h"
#include "CryptoAuthenticationFailure.h"
#include "CryptoCipherModeException.h"
#include "CryptoDigestException.h"
#include "CryptoGeneratorException.h"
#include "CryptoKdfException.h"
#include "CryptoKmsException.h"
#include "CryptoMacException.h"
#include "CryptoNetworkingException.h"
#include "CryptoPaddingException.h"
#include "CryptoProcessingException.h"
#include "CryptoRandomException.h"
#include "CryptoSocketException.h"
#include "CryptoSymmetricException.h"

// ---- guarded allocation -------------------------------------------------------------------------------------
// [64-byte header: magic, size, neighbours | payload | 64-byte tail], header and tail are checked when the block is freed.
static std::atomic<int> g_heapbad(0);
static const uint64_t MAGIC = 0x6365785F67756172ULL;
static const size_t HDR = 64, TAIL = 64;
static std::atomic_flag g_listlock = ATOMIC_FLAG_INIT;
static uint8_t* g_live = nullptr;                 // list of the live blocks
static uint8_t g_needle[64]; static size_t g_needlen = 0; static std::atomic<int> g_needlefreed(0);
struct ListLock { ListLock() { while (g_listlock.test_and_set(std::memory_order_acquire)) {} } ~ListLock() { g_listlock.clear(std::memory_order_release); } };
static uint8_t*& next(uint8_t* p) { return *reinterpret_cast<uint8_t**>(p + 16); }
static uint8_t*& prev(uint8_t* p) { return *reinterpret_cast<uint8_t**>(p + 24); }
static bool holds(const uint8_t* p, size_t n, const uint8_t* w, size_t k)
{
	if (k == 0 || n < k) return false;
	for (const uint8_t* e = p + (n - k) + 1; p < e; ++p) { p = static_cast<const uint8_t*>(std::memchr(p, w[0], e - p)); if (!p) return false; if (std::memcmp(p, w, k) == 0) return true; }
	return false;
}
static void* galloc(size_t n, int fill)
{
	uint8_t* p = static_cast<uint8_t*>(std::malloc(HDR + n + TAIL));
	if (!p) return nullptr;
	for (size_t i = 0; i < HDR; i += 8) std::memcpy(p + i, &MAGIC, 8);
	uint64_t sz = n; std::memcpy(p + 8, &sz, 8);
	std::memset(p + HDR, fill, n);
	std::memset(p + HDR + n, 0xFD, TAIL);
	ListLock l;
	next(p) = g_live; prev(p) = nullptr;
	if (g_live) prev(g_live) = p;
	g_live = p;
	return p + HDR;
}
static bool gowned(void* q) { return std::memcmp(static_cast<uint8_t*>(q) - HDR, &MAGIC, 8) == 0; }
static void gfree(void* q)
{
	if (!q) return;
	uint8_t* p = static_cast<uint8_t*>(q) - HDR;
	uint64_t sz; std::memcpy(&sz, p + 8, 8);
	bool ok = std::memcmp(p, &MAGIC, 8) == 0;
	for (size_t i = 32; ok && i < HDR; i += 8) ok = std::memcmp(p + i, &MAGIC, 8) == 0;
	if (!ok) { g_heapbad = 1; return; }
	for (size_t i = 0; i < TAIL; ++i) if (p[HDR + sz + i] != 0xFD) { g_heapbad = 1; break; }
	{
		ListLock l;
		if (prev(p)) next(prev(p)) = next(p); else g_live = next(p);
		if (next(p)) prev(next(p)) = prev(p);
		if (g_needlen && holds(p + HDR, sz, g_needle, g_needlen)) g_needlefreed = 1;
	}
	std::memset(p, 0, 16);
	std::free(p);
}
// does any live block hold these bytes?  (the caller's own copy, at except, aside)
bool livemem(const uint8_t* w, size_t k, const void* except)
{
	ListLock l;
	for (uint8_t* p = g_live; p; p = next(p)) { uint64_t sz; std::memcpy(&sz, p + 8, 8); if (p + HDR != except && holds(p + HDR, sz, w, k)) return true; }
	return false;
}
void watchfree(const uint8_t* w, size_t k) { ListLock l; g_needlen = k < 64 ? k : 64; if (k) std::memcpy(g_needle, w, g_needlen); g_needlefreed = 0; }
bool freedseen() { return g_needlefreed != 0; }
void* operator new(size_t n) { void* p = galloc(n, 0xCD); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = galloc(n, 0xCD); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return galloc(n, 0xCD); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return galloc(n, 0xCD); }
void operator delete(void* p) noexcept { gfree(p); }
void operator delete[](void* p) noexcept { gfree(p); }
void operator delete(void* p, size_t) noexcept { gfree(p); }
void operator delete[](void* p, size_t) noexcept { gfree(p); }
extern "C" void* cexv_calloc(size_t a, size_t b) { return galloc(a * b, 0); }
extern "C" void* cexv_malloc(size_t a) { return galloc(a, 0xCD); }
extern "C" void cexv_free(void* p) { if (p) { if (gowned(p)) gfree(p); else std::free(p); } }

// ---- script -------------------------------------------------------------------------------------------------
static std::map<std::string, Handler>& table() { static std::map<std::string, Handler> t; return t; }
Reg::Reg(const char* name, Handler h) { table()[name] = h; }
static FILE* g_out;
static std::mutex g_outlock;
void rawline(const std::string &s) { std::lock_guard<std::mutex> l(g_outlock); std::fputs(s.c_str(), g_out); std::fputc('\n', g_out); }

std::string hex(const uint8_t* p, size_t n)
{
	static const char* H = "0123456789abcdef";
	if (n == 0) return "-";
	std::string s(2 * n, '0');
	for (size_t i = 0; i < n; ++i) { s[2 * i] = H[p[i] >> 4]; s[2 * i + 1] = H[p[i] & 15]; }
	return s;
}
static int hv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void prg(uint64_t seed, uint64_t off, uint64_t len, Bytes &out)
{
	out.reserve(out.size() + len);
	for (uint64_t i = off; i < off + len; )
	{
		uint64_t z = seed * 0xD1B54A32D192ED03ULL + (i / 8 + 1) * 0x9E3779B97F4A7C15ULL;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31;
		for (unsigned k = i % 8; k < 8 && i < off + len; ++k, ++i) out.push_back(static_cast<uint8_t>(z >> (8 * k)));
	}
}
Bytes Ctx::bytes(const std::string &tok)
{
	Bytes r;
	std::stringstream ss(tok);
	std::string t;
	while (std::getline(ss, t, '+'))
	{
		if (t == "-" || t.empty()) continue;
		if (t[0] == 'x') { for (size_t i = 1; i + 1 < t.size(); i += 2) r.push_back(static_cast<uint8_t>(hv(t[i]) * 16 + hv(t[i + 1]))); }
		else if (t[0] == 'z') { unsigned n, v = 0; std::sscanf(t.c_str(), "z%u:%u", &n, &v); r.insert(r.end(), n, static_cast<uint8_t>(v)); }
		else if (t[0] == '@') { unsigned long long s, o, l; std::sscanf(t.c_str(), "@%llu:%llu:%llu", &s, &o, &l); size_t st = r.size(); prg(s, o, l, r);
			size_t e = t.find('^');
			if (e != std::string::npos) { unsigned long long p; unsigned v; std::sscanf(t.c_str() + e, "^%llu.%x", &p, &v); if (st + p < r.size()) r[st + p] ^= static_cast<uint8_t>(v); } }
		else if (t[0] == '$')
		{
			size_t e = t.find_first_of("[^", 1);
			std::string n = t.substr(1, e == std::string::npos ? e : e - 1);
			if (!bufs.count(n)) throw std::string("no such buffer ") + n;
			Bytes b = bufs[n];
			while (e != std::string::npos)
			{
				if (t[e] == '[')
				{
					unsigned long long o, l; std::sscanf(t.c_str() + e, "[%llu:%llu]", &o, &l);
					if (o > b.size()) o = b.size();
					if (l > b.size() - o) l = b.size() - o;
					b = Bytes(b.begin() + o, b.begin() + o + l);
				}
				else
				{
					unsigned long long o; unsigned v; std::sscanf(t.c_str() + e, "^%llu.%x", &o, &v);
					if (o < b.size()) b[o] ^= static_cast<uint8_t>(v);
				}
				e = t.find_first_of("[^", e + 1);
			}
			r.insert(r.end(), b.begin(), b.end());
		}
		else throw std::string("bad bytes ") + t;
	}
	return r;
}

using namespace CEX::Exception;
#define CATCH(T, N) catch (T &ex) { res = std::string("X " N " ") + std::to_string(static_cast<int>(ex.ErrorCode())); }
static std::string guarded(Ctx &c, const std::string &cmd, Args &a)
{
	std::string res;
	try { res = "R " + table()[cmd](c, a); }
	CATCH(CryptoAuthenticationFailure, "Auth")
	CATCH(CryptoAsymmetricException, "Asymmetric")
	CATCH(CryptoCipherModeException, "CipherMode")
	CATCH(CryptoDigestException, "Digest")
	CATCH(CryptoGeneratorException, "Generator")
	CATCH(CryptoKdfException, "Kdf")
	CATCH(CryptoKmsException, "Kms")
	CATCH(CryptoMacException, "Mac")
	CATCH(CryptoNetworkingException, "Networking")
	CATCH(CryptoPaddingException, "Padding")
	CATCH(CryptoProcessingException, "Processing")
	CATCH(CryptoRandomException, "Random")
	CATCH(CryptoSocketException, "Socket")
	CATCH(CryptoSymmetricException, "Symmetric")
	CATCH(CryptoException, "Crypto")
	catch (std::bad_alloc &) { res = "X bad_alloc 0"; }
	catch (std::exception &ex) { res = std::string("X std 0 ") + ex.what(); }
	catch (std::string &s) { res = "E " + s; }
	return res;
}

CMD("buf") { c.bufs[a[0]] = c.bytes(a[1]); return "ok"; }
CMD("buf.get") { return hex(c.bytes(a[0])); }
static bool g_flush = false;
CMD("flush") { g_flush = a[0] == "on"; return "ok"; }
CMD("del") { c.objs.erase(a[0]); return "ok"; }

int main(int argc, char** argv)
{
	std::ifstream in(argv[1], std::ios::binary);
	g_out = std::fopen(argv[2], "wb");
	if (!g_out || !in) return 3;
	std::unique_ptr<Ctx> ctx(new Ctx());
	std::string line;
	while (std::getline(in, line))
	{
		if (!line.empty() && line.back() == '\r') line.pop_back();
		if (line.empty()) continue;
		std::stringstream ss(line);
		std::string cmd, t;
		ss >> cmd;
		Args a;
		while (ss >> t) a.push_back(t);
		if (cmd == "S")
		{
			// destroying the previous scenario's objects may reveal an overflow: it belongs to that scenario
			ctx.reset(new Ctx());
			if (g_heapbad.exchange(0)) rawline("H");
			rawline("S " + a[0]);
			std::fflush(g_out);
			continue;
		}
		std::string res;
		if (!table().count(cmd)) res = "E unknown command " + cmd;
		else res = guarded(*ctx, cmd, a);
		if (g_heapbad.exchange(0)) res += " !HEAP";
		rawline(res);
		if (g_flush) std::fflush(g_out);
	}
	ctx.reset();
	if (g_heapbad.exchange(0)) rawline("H");
	rawline("END");
	std::fclose(g_out);
	std::_Exit(0);
}
