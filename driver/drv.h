// Conformance driver: a script interpreter over the library's public API.
// Each script line is "command arg arg ..."; each produces one result line:
//   R <text>             the call returned; <text> is what was observed
//   X <kind> <code>      the call threw; kind is the exception class
// with " !HEAP" appended when a heap guard zone was found overwritten.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;
typedef std::vector<std::string> Args;

struct Ctx
{
	std::map<std::string, std::shared_ptr<void>> objs;   // live objects of the scenario
	std::map<std::string, Bytes> bufs;                    // named byte strings of the scenario
	template <class T> T& get(const std::string &n)
	{
		auto it = objs.find(n);
		if (it == objs.end()) throw std::string("no such object ") + n;
		return *static_cast<T*>(it->second.get());
	}
	template <class T> void put(const std::string &n, T* p) { objs[n] = std::shared_ptr<void>(static_cast<void*>(p), [](void* q) { delete static_cast<T*>(q); }); }
	template <class T> void putp(const std::string &n, std::shared_ptr<T> p) { objs[n] = p; }
	// byte-string expression: terms joined by '+': "-" empty, "xHEX", "@seed:off:len", "$name" with optional "[off:len]" and "^pos.hex"
	Bytes bytes(const std::string &tok);
};

typedef std::function<std::string(Ctx&, Args&)> Handler;
struct Reg { Reg(const char* name, Handler h); };
#define CMD2(a, b) a##b
#define CMD1(a, b) CMD2(a, b)
#define CMD(name) static std::string CMD1(hnd_, __LINE__)(Ctx &c, Args &a); static Reg CMD1(reg_, __LINE__)(name, CMD1(hnd_, __LINE__)); static std::string CMD1(hnd_, __LINE__)(Ctx &c, Args &a)

std::string hex(const uint8_t* p, size_t n);
template <class V> std::string hex(const V &v) { return v.size() ? hex(reinterpret_cast<const uint8_t*>(&v[0]), v.size()) : std::string("-"); }
inline long long num(const std::string &s) { return std::stoll(s, nullptr, 0); }
inline unsigned long long unum(const std::string &s) { return std::stoull(s, nullptr, 0); }
template <class S> S sec(const Bytes &b) { S s(b.size()); for (size_t i = 0; i < b.size(); ++i) s[i] = b[i]; return s; }
template <class S> Bytes plain(const S &s) { Bytes b(s.size()); for (size_t i = 0; i < b.size(); ++i) b[i] = s[i]; return b; }
bool livemem(const uint8_t* w, size_t k, const void* except);     // does a live heap block hold these bytes?
void watchfree(const uint8_t* w, size_t k);                       // watch for blocks freed while they hold these bytes
bool freedseen();
void rawline(const std::string &s);   // extra output line (events); thread safe
// the listed key, nonce and info sizes
template <class L> std::string legalsizes(const L &l) { std::string s; for (auto k : l) s += " " + std::to_string(k.KeySize()) + ":" + std::to_string(k.IVSize()) + ":" + std::to_string(k.InfoSize()); return s; }
