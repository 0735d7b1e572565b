// The permutations and compression functions, in every form the library has, and the one-shot helpers built on them.
#include "drv.h"
#include "Keccak.h"
#include "SHA2.h"
#include "Blake.h"
#include "Skein.h"
#include "Threefish.h"
#include "ChaCha.h"
#include "CMUL.h"
#include "UInt256.h"
#include "ULong256.h"
#include <cstring>
using namespace CEX;
using namespace CEX::Digest;
using CEX::Cipher::Stream::ChaCha;
using CEX::Cipher::Stream::Threefish;
using CEX::Numeric::CMUL;
using CEX::Numeric::UInt256;
using CEX::Numeric::ULong256;

template <class T, size_t N> static std::array<T, N> arr(const Bytes &b, size_t o) { std::array<T, N> r; std::memcpy(r.data(), b.data() + o, N * sizeof(T)); return r; }
template <class T, size_t N> static void back(const std::array<T, N> &a, Bytes &b, size_t o) { std::memcpy(b.data() + o, a.data(), N * sizeof(T)); }
// lanes <-> wide registers: word i of lane l is element m(l) of register i
template <class W, class T, size_t N> static std::array<W, N> wide(const Bytes &b, size_t o, size_t stride, bool rev)
{
	const size_t L = sizeof(W) / sizeof(T);
	std::array<W, N> r; T* p = reinterpret_cast<T*>(&r);
	for (size_t l = 0; l < L; ++l) for (size_t i = 0; i < N; ++i) std::memcpy(&p[i * L + (rev ? L - 1 - l : l)], b.data() + o + l * stride + i * sizeof(T), sizeof(T));
	return r;
}
template <class W, class T, size_t N> static void narrow(std::array<W, N> &r, Bytes &b, size_t o, size_t stride, bool rev)
{
	const size_t L = sizeof(W) / sizeof(T);
	T* p = reinterpret_cast<T*>(&r);
	for (size_t l = 0; l < L; ++l) for (size_t i = 0; i < N; ++i) std::memcpy(b.data() + o + l * stride + i * sizeof(T), &p[i * L + (rev ? L - 1 - l : l)], sizeof(T));
}
typedef std::array<ULong256, 25> K4;
typedef Keccak::PermutationRounds PR;

// form rounds state input shared offset: the lanes' states afterwards.  One lane for the scalar forms, all for the wide ones;
// input: each lane's message, one after another; shared: what all lanes have in common
CMD("perm.run")
{
	const std::string &f = a[0];
	size_t rounds = num(a[1]), off = num(a[5]);
	Bytes st = c.bytes(a[2]), in0 = c.bytes(a[3]), sh = c.bytes(a[4]);
	Bytes in(off, 0x5C); in.insert(in.end(), in0.begin(), in0.end()); in.insert(in.end(), 4, 0x77);
	Bytes out(off + 1024 + 8, 0xA5);
	size_t cut = 0;
	// keccak
	if (f == "keccak") { auto s = arr<uint64_t, 25>(st, 0); Keccak::Permute(s, static_cast<PR>(rounds)); back(s, st, 0); }
	else if (f == "keccak24U") { auto s = arr<uint64_t, 25>(st, 0); Keccak::PermuteR24P1600U(s); back(s, st, 0); }
	else if (f == "keccak48U") { auto s = arr<uint64_t, 25>(st, 0); Keccak::PermuteR48P1600U(s); back(s, st, 0); }
	else if (f == "keccak4x") { auto s = wide<ULong256, uint64_t, 25>(st, 0, 200, false); Keccak::PermuteR24P4x1600H(s, rounds); narrow<ULong256, uint64_t, 25>(s, st, 0, 200, false); }
	else if (f == "keccak48x4") { auto s = wide<ULong256, uint64_t, 25>(st, 0, 200, false); Keccak::PermuteR48P4x1600H(s); narrow<ULong256, uint64_t, 25>(s, st, 0, 200, false); }
	// sha2
	else if (f == "sha256C") { auto s = arr<uint32_t, 8>(st, 0); SHA2::PermuteR64P512C(in, off, s); back(s, st, 0); }
	else if (f == "sha256U") { auto s = arr<uint32_t, 8>(st, 0); SHA2::PermuteR64P512U(in, off, s); back(s, st, 0); }
	else if (f == "sha256V") { auto s = arr<uint32_t, 8>(st, 0); SHA2::PermuteR64P512V(in, off, s); back(s, st, 0); }
	else if (f == "sha256x8") { auto s = wide<UInt256, uint32_t, 8>(st, 0, 32, true); SHA2::PermuteR64P8x512H(in, off, s); narrow<UInt256, uint32_t, 8>(s, st, 0, 32, true); }
	else if (f == "sha512C") { auto s = arr<uint64_t, 8>(st, 0); SHA2::PermuteR80P1024C(in, off, s); back(s, st, 0); }
	else if (f == "sha512U") { auto s = arr<uint64_t, 8>(st, 0); SHA2::PermuteR80P1024U(in, off, s); back(s, st, 0); }
	else if (f == "sha512x4") { auto s = wide<ULong256, uint64_t, 8>(st, 0, 64, true); SHA2::PermuteR80P4x1024H(in, off, s); narrow<ULong256, uint64_t, 8>(s, st, 0, 64, true); }
	// blake: a lane's message is followed by its IV (constants, counter, flags)
	else if (f.compare(0, 7, "blake2s") == 0)
	{
		if (f == "blake2sx8")
		{
			auto s = wide<UInt256, uint32_t, 8>(st, 0, 32, false), v = wide<UInt256, uint32_t, 8>(in0, 64, 96, false);
			auto m = wide<UInt256, uint32_t, 16>(in0, 0, 96, false);
			Bytes mm(off, 0x5C); mm.resize(off + 512); std::memcpy(mm.data() + off, &m, 512);
			Blake::PermuteR10P8x512H(mm, off, s, v); narrow<UInt256, uint32_t, 8>(s, st, 0, 32, false);
		}
		else
		{
			auto s = arr<uint32_t, 8>(st, 0); const auto v = arr<uint32_t, 8>(in0, 64);
			if (f == "blake2sC") Blake::PermuteR10P512C(in, off, s, v); else if (f == "blake2sU") Blake::PermuteR10P512U(in, off, s, v); else Blake::PermuteR10P512V(in, off, s, v);
			back(s, st, 0);
		}
	}
	else if (f.compare(0, 7, "blake2b") == 0)
	{
		if (f == "blake2bx4")
		{
			auto s = wide<ULong256, uint64_t, 8>(st, 0, 64, false), v = wide<ULong256, uint64_t, 8>(in0, 128, 192, false);
			auto m = wide<ULong256, uint64_t, 16>(in0, 0, 192, false);
			Bytes mm(off, 0x5C); mm.resize(off + 512); std::memcpy(mm.data() + off, &m, 512);
			Blake::PermuteR12P4x1024H(mm, off, s, v); narrow<ULong256, uint64_t, 8>(s, st, 0, 64, false);
		}
		else
		{
			auto s = arr<uint64_t, 8>(st, 0); const auto v = arr<uint64_t, 8>(in0, 128);
			if (f == "blake2bC") Blake::PermuteR12P1024C(in, off, s, v); else if (f == "blake2bU") Blake::PermuteR12P1024U(in, off, s, v); else Blake::PermuteR12P1024V(in, off, s, v);
			back(s, st, 0);
		}
	}
	// chacha: shared state, a lane's input is its counter
	else if (f == "chachaC" || f == "chachaU")
	{
		auto s = arr<uint32_t, 14>(sh, 0); auto n = arr<uint32_t, 2>(in0, 0);
		if (f == "chachaC") ChaCha::PermuteP512C(out, off, n, s, rounds); else ChaCha::PermuteR20P512U(out, off, n, s);
		cut = 64;
	}
	else if (f == "chachax8")
	{
		auto s = arr<uint32_t, 14>(sh, 0); std::array<uint32_t, 16> n;
		for (size_t l = 0; l < 8; ++l) for (size_t i = 0; i < 2; ++i) std::memcpy(&n[i * 8 + l], in0.data() + l * 8 + i * 4, 4);
		ChaCha::PermuteP8x512H(out, off, n, s, rounds); cut = 512;
	}
	else if (f == "csxC") { auto s = arr<uint64_t, 14>(sh, 0); auto n = arr<uint64_t, 2>(in0, 0); ChaCha::PermuteP1024C(out, off, n, s, rounds); cut = 128; }
	else if (f == "csxx4")
	{
		auto s = arr<uint64_t, 14>(sh, 0); std::array<uint64_t, 8> n;
		for (size_t l = 0; l < 4; ++l) for (size_t i = 0; i < 2; ++i) std::memcpy(&n[i * 4 + l], in0.data() + l * 16 + i * 8, 8);
		ChaCha::PermuteP4x1024H(out, off, n, s, rounds); cut = 512;
	}
	// threefish: shared key and tweak, a lane's input is its counter
	else if (f.compare(0, 3, "tf4") == 0 || f.compare(0, 3, "tf8") == 0 || f.compare(0, 3, "tf1") == 0)
	{
		const size_t W = f[2] == '4' ? 4 : f[2] == '8' ? 8 : 16;
		const char v = f.back();
		const auto t = arr<uint64_t, 2>(sh, W * 8);
		std::array<uint64_t, 2> n1; std::array<uint64_t, 8> n4;
		if (v == 'x') { for (size_t l = 0; l < 4; ++l) for (size_t i = 0; i < 2; ++i) std::memcpy(&n4[i * 4 + l], in0.data() + l * 16 + i * 8, 8); } else n1 = arr<uint64_t, 2>(in0, 0);
		if (W == 4)
		{
			const auto k = arr<uint64_t, 4>(sh, 0);
			if (v == 'x') { std::array<uint64_t, 16> s; Threefish::PemuteP4x256H(k, n4, t, s, rounds); st.resize(128); back(s, st, 0); }
			else { std::array<uint64_t, 4> s; if (v == 'C') Threefish::PemuteP256C(k, n1, t, s, rounds); else Threefish::PemuteR72P256U(k, n1, t, s); st.resize(32); back(s, st, 0); }
		}
		else if (W == 8)
		{
			const auto k = arr<uint64_t, 8>(sh, 0);
			if (v == 'x') { std::array<uint64_t, 32> s; Threefish::PemuteP4x512H(k, n4, t, s, rounds); st.resize(256); back(s, st, 0); }
			else { std::array<uint64_t, 8> s; if (v == 'C') Threefish::PemuteP512C(k, n1, t, s, rounds); else Threefish::PemuteR96P512U(k, n1, t, s); st.resize(64); back(s, st, 0); }
		}
		else
		{
			const auto k = arr<uint64_t, 16>(sh, 0);
			if (v == 'x') { std::array<uint64_t, 64> s; Threefish::PemuteP4x1024H(k, n4, t, s, rounds); st.resize(512); back(s, st, 0); }
			else { std::array<uint64_t, 16> s; if (v == 'C') Threefish::PemuteP1024C(k, n1, t, s, rounds); else Threefish::PemuteR120P1024U(k, n1, t, s); st.resize(128); back(s, st, 0); }
		}
	}
	// skein: the state is the key, the input the block, shared the tweak
	else if (f.compare(0, 5, "skein") == 0)
	{
		const auto t = arr<uint64_t, 2>(sh, 0);
		const std::string v = f.substr(5);
		if (v[0] == '4') { auto s = arr<uint64_t, 4>(st, 0); const auto m = arr<uint64_t, 4>(in0, 0); if (v == "4C") Skein::PemuteP256C(m, t, s, rounds); else Skein::PemuteR72P256U(m, t, s); back(s, st, 0); }
		else if (v[0] == '8')
		{
			auto s = arr<uint64_t, 8>(st, 0); const auto m = arr<uint64_t, 8>(in0, 0);
			if (v == "8C") Skein::PemuteP512C(m, t, s, rounds); else if (v == "8V") Skein::PemuteR72P512V(m, t, s); else if (rounds == 72) Skein::PemuteR72P512U(m, t, s); else Skein::PemuteR96P512U(m, t, s);
			back(s, st, 0);
		}
		else
		{
			auto s = arr<uint64_t, 16>(st, 0); const auto m = arr<uint64_t, 16>(in0, 0);
			if (v == "1C") Skein::PemuteP1024C(m, t, s, rounds); else if (rounds == 80) Skein::PemuteR80P1024U(m, t, s); else Skein::PemuteR120P1024U(m, t, s);
			back(s, st, 0);
		}
	}
	// carry-less multiplication: the state is the product so far, shared the key
	else if (f.compare(0, 4, "cmul") == 0)
	{
		std::array<uint64_t, 2> h; auto y = arr<uint8_t, 16>(st, 0);
		for (size_t i = 0; i < 2; ++i) { h[i] = 0; for (size_t j = 0; j < 8; ++j) h[i] = (h[i] << 8) | sh[i * 8 + j]; }
		for (size_t j = 0; j < 16; ++j) y[j] ^= in0[j];
		if (f == "cmulU") CMUL::PermuteR128P128U(h, y); else if (f == "cmulC") CMUL::PermuteR128P128C(h, y); else CMUL::PermuteR128P128V(h, y);
		back(y, st, 0);
	}
	else throw std::string("no such form ") + f;
	if (cut != 0)
	{
		for (size_t i = 0; i < out.size(); ++i) if ((i < off || i >= off + cut) && out[i] != 0xA5) return "wrote at " + std::to_string(i);
		st.assign(out.begin() + off, out.begin() + off + cut);
	}
	return hex(st);
}

// -- one-shot helpers: name rate-or-0 rounds message extra extra2 inoffset outoffset length -> the whole output buffer
CMD("perm.shot")
{
	const std::string &f = a[0];
	size_t rate = num(a[1]), io = num(a[6]), oo = num(a[7]), n = num(a[8]);
	PR r = static_cast<PR>(num(a[2]));
	Bytes m0 = c.bytes(a[3]), x = c.bytes(a[4]), y = c.bytes(a[5]);
	Bytes m(io, 0x5C); m.insert(m.end(), m0.begin(), m0.end()); m.insert(m.end(), 3, 0x77);
	Bytes o(oo + n + 3, 0xA5);
	if (f == "compute") Keccak::Compute(m, io, m0.size(), o, oo, rate, r);
	else if (f == "xof") Keccak::XOFP1600(m, io, m0.size(), o, oo, n, rate, r);
	else if (f == "xof48") Keccak::XOFR48P1600(m, io, m0.size(), o, oo, n, rate);
	else if (f == "cxof") Keccak::CXOFP1600(m0, x, y, o, oo, n, rate, r);
	else if (f == "mac") { Bytes t(n); Keccak::MACP1600(x, y, m, io, m0.size(), t, rate, r); std::copy(t.begin(), t.end(), o.begin() + oo); }
	else if (f == "sha256") SHA2::Compute256(m, io, m0.size(), o, oo);
	else if (f == "sha384") SHA2::Compute384(m, io, m0.size(), o, oo);
	else if (f == "sha512") SHA2::Compute512(m, io, m0.size(), o, oo);
	else if (f == "hmac256") SHA2::MACR64P512(x, m, io, m0.size(), o, oo);
	else if (f == "hmac512") SHA2::MACR80P1024(x, m, io, m0.size(), o, oo);
	else throw std::string("no such helper ") + f;
	return hex(o);
}
// value offset -> left and right encodings
CMD("perm.enc")
{
	unsigned long long v = unum(a[0]); size_t o = num(a[1]);
	Bytes l(o + 12, 0xA5), r(o + 12, 0xA5);
	auto i = Keccak::LeftEncode(l, o, v), j = Keccak::RightEncode(r, o, v);
	return std::to_string(i) + " " + hex(l) + " " + std::to_string(j) + " " + hex(r);
}
static Bytes ArrayBytes(const std::array<uint64_t, 25> &s) { Bytes b(200); std::memcpy(b.data(), s.data(), 200); return b; }
struct Sponge { std::array<uint64_t, 25> s; size_t pos; };
struct Sponge4 { std::array<uint64_t, 100> s; };
CMD("sp.new") { auto* p = new Sponge; p->s.fill(0); p->pos = 0; c.put<Sponge>(a[0], p); return ""; }
// s rate rounds domain final inoff data: incremental absorption -> position
CMD("sp.inc")
{
	Sponge &s = c.get<Sponge>(a[0]);
	Bytes d = c.bytes(a[6]), in(num(a[5]), 0x5C); in.insert(in.end(), d.begin(), d.end()); in.insert(in.end(), 9, 0x77);
	s.pos = Keccak::Incremental(in, num(a[5]), d.size(), s.pos, num(a[1]), static_cast<uint8_t>(num(a[3])), s.s, a[4] == "1", static_cast<PR>(num(a[2])));
	return std::to_string(s.pos) + " " + hex(ArrayBytes(s.s));
}
// s rate rounds domain inoff data
CMD("sp.abs")
{
	Sponge &s = c.get<Sponge>(a[0]);
	Bytes d = c.bytes(a[5]), in(num(a[4]), 0x5C); in.insert(in.end(), d.begin(), d.end()); in.insert(in.end(), 9, 0x77);
	Keccak::Absorb(in, num(a[4]), d.size(), num(a[1]), static_cast<uint8_t>(num(a[3])), s.s, static_cast<PR>(num(a[2])));
	return hex(ArrayBytes(s.s));
}
CMD("sp.cust") { Sponge &s = c.get<Sponge>(a[0]); Keccak::Customize(c.bytes(a[3]), c.bytes(a[4]), num(a[1]), s.s, static_cast<PR>(num(a[2]))); return hex(ArrayBytes(s.s)); }
// s rate rounds blocks outoff
CMD("sp.sq") { Sponge &s = c.get<Sponge>(a[0]); Bytes o(num(a[4]) + num(a[1]) * num(a[3]) + 5, 0xA5); Keccak::Squeeze(s.s, o, num(a[4]), num(a[3]), num(a[1]), static_cast<PR>(num(a[2]))); return hex(o); }
CMD("sp.part") { Sponge &s = c.get<Sponge>(a[0]); Bytes o(num(a[4]) + num(a[3]) + 5, 0xA5); Keccak::SqueezePartial(s.s, o, num(a[4]), num(a[3]), static_cast<uint32_t>(num(a[1])), static_cast<PR>(num(a[2]))); return hex(o); }
// s rate rounds domain length outoff
CMD("sp.fin") { Sponge &s = c.get<Sponge>(a[0]); Bytes o(num(a[5]) + num(a[4]) + 5, 0xA5); Keccak::Finalize(o, num(a[5]), num(a[4]), num(a[1]), static_cast<uint8_t>(num(a[3])), s.s, static_cast<PR>(num(a[2]))); return hex(o); }
// four sponges at once: s rate domain length d0 d1 d2 d3
CMD("sp4.new") { auto* p = new Sponge4; std::memset(&p->s, 0, sizeof(p->s)); c.put<Sponge4>(a[0], p); return ""; }
CMD("sp4.abs")
{
	Sponge4 &s = c.get<Sponge4>(a[0]); Bytes d[4];
	size_t n = num(a[3]);
	for (int i = 0; i < 4; ++i) { d[i] = c.bytes(a[4 + i]); d[i].insert(d[i].end(), 9, 0x77); }
	std::array<__m256i, 25> w; std::memcpy(&w, &s.s, sizeof(w));
	Keccak::AbsorbR24x1600H(w, num(a[1]), d[0], d[1], d[2], d[3], n, static_cast<uint8_t>(num(a[2])));
	std::memcpy(&s.s, &w, sizeof(w));
	std::array<ULong256, 25> t; std::memcpy(&t, &s.s, sizeof(t));
	Bytes st(800); narrow<ULong256, uint64_t, 25>(t, st, 0, 200, false);
	return hex(st);
}
CMD("sp4.sq")
{
	Sponge4 &s = c.get<Sponge4>(a[0]);
	Bytes o[4]; size_t n = num(a[1]) * num(a[2]);
	for (auto &b : o) b.assign(n + 5, 0xA5);
	std::array<__m256i, 25> w; std::memcpy(&w, &s.s, sizeof(w));
	Keccak::SqueezeBlocksR24x1600H(w, num(a[1]), o[0], o[1], o[2], o[3], num(a[2]));
	std::memcpy(&s.s, &w, sizeof(w));
	return hex(o[0]) + " " + hex(o[1]) + " " + hex(o[2]) + " " + hex(o[3]);
}
