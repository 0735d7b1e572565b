/* Independent references of the lattice schemes: arithmetic by definition (evaluation at the roots, no fast transforms). */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t s64;
void keccak_f(u64 *A, int rounds);

/* ---- an extendable output that is read on and on ---- */
typedef struct { u64 A[25]; int rate, at; } Xof;
static void xof_init(Xof *x, int rate) { memset(x, 0, sizeof *x); x->rate = rate; }
static void xof_put(Xof *x, const u8 *p, u64 n) { for (u64 i = 0; i < n; ++i) { ((u8 *)x->A)[x->at++] ^= p[i]; if (x->at == x->rate) { keccak_f(x->A, 24); x->at = 0; } } }
static void xof_end(Xof *x, u8 dom) { ((u8 *)x->A)[x->at] ^= dom; ((u8 *)x->A)[x->rate - 1] ^= 0x80; x->at = x->rate; }
static u8 xof_byte(Xof *x) { if (x->at == x->rate) { keccak_f(x->A, 24); x->at = 0; } return ((u8 *)x->A)[x->at++]; }
static void xof_get(Xof *x, u8 *o, u64 n) { for (u64 i = 0; i < n; ++i) o[i] = xof_byte(x); }
static void shake(int rate, const u8 *a, u64 n, const u8 *b, u64 m, u8 *o, u64 k) { Xof x; xof_init(&x, rate); xof_put(&x, a, n); xof_put(&x, b, m); xof_end(&x, 0x1f); xof_get(&x, o, k); }
static void sha3(int rate, const u8 *a, u64 n, const u8 *b, u64 m, u8 *o, u64 k) { Xof x; xof_init(&x, rate); xof_put(&x, a, n); xof_put(&x, b, m); xof_end(&x, 0x06); xof_get(&x, o, k); }
static int brv(int x, int n) { int r = 0; while (n--) { r = r << 1 | (x & 1); x >>= 1; } return r; }

/* ---- Dilithium (round 3) ---- */
#define DQ 8380417
typedef struct { int k, l, eta, tau, beta, g1, g2, om; } Dp;
static const Dp DP[4] = {{0}, {4, 4, 2, 39, 78, 1 << 17, (DQ - 1) / 88, 80}, {6, 5, 4, 49, 196, 1 << 19, (DQ - 1) / 32, 55}, {8, 7, 2, 60, 120, 1 << 19, (DQ - 1) / 32, 75}};
typedef s64 P[256];
static s64 dmod(s64 a) { a %= DQ; return a < 0 ? a + DQ : a; }
static s64 dcen(s64 a) { a = dmod(a); return a > DQ / 2 ? a - DQ : a; }
static s64 dpow[512]; static int dready;
static void dinit(void) { if (dready) return; dpow[0] = 1; for (int i = 1; i < 512; ++i) dpow[i] = dpow[i - 1] * 1753 % DQ; dready = 1; }
static void dhat(const s64 *a, s64 *h) { for (int i = 0; i < 256; ++i) { int e = 2 * brv(i, 8) + 1; u64 s = 0; for (int j = 0; j < 256; ++j) s += (u64)(dmod(a[j]) * dpow[e * j & 511]); h[i] = (s64)(s % DQ); } }
static void dinv(const s64 *h, s64 *a) { for (int j = 0; j < 256; ++j) { u64 s = 0; for (int i = 0; i < 256; ++i) { int e = 2 * brv(i, 8) + 1; s += (u64)(dmod(h[i]) * dpow[(512 - (e * j & 511)) & 511]); } a[j] = (s64)(s % DQ * 8347681 % DQ); } }   /* 256^-1 */
static void put(u8 *o, int at, int bits, u32 v) { for (int i = 0; i < bits; ++i) { int b = at * bits + i; o[b >> 3] |= (u8)(((v >> i) & 1) << (b & 7)); } }
static u32 get(const u8 *p, int at, int bits) { u32 v = 0; for (int i = 0; i < bits; ++i) { int b = at * bits + i; v |= (u32)((p[b >> 3] >> (b & 7)) & 1) << i; } return v; }
static int etabits(const Dp *d) { return d->eta == 2 ? 3 : 4; }
static int zbits(const Dp *d) { return d->g1 == 1 << 17 ? 18 : 20; }
static int wbits(const Dp *d) { return d->g2 == (DQ - 1) / 88 ? 6 : 4; }
static void dmat(const u8 *rho, int i, int j, s64 *a)
{
	Xof x; u8 n[2] = {(u8)j, (u8)i}; xof_init(&x, 168); xof_put(&x, rho, 32); xof_put(&x, n, 2); xof_end(&x, 0x1f);
	for (int c = 0; c < 256;) { u32 v = xof_byte(&x); v |= (u32)xof_byte(&x) << 8; v |= (u32)(xof_byte(&x) & 0x7f) << 16; if (v < DQ) a[c++] = v; }
}
static void dshort(const Dp *d, const u8 *seed, int nonce, s64 *a)
{
	Xof x; u8 n[2] = {(u8)nonce, (u8)(nonce >> 8)}; xof_init(&x, 168); xof_put(&x, seed, 32); xof_put(&x, n, 2); xof_end(&x, 0x1f);
	for (int c = 0; c < 256;) { u8 b = xof_byte(&x); for (int h = 0; h < 2 && c < 256; ++h) { int t = h ? b >> 4 : b & 15; if (d->eta == 2) { if (t < 15) a[c++] = 2 - t % 5; } else if (t < 9) a[c++] = 4 - t; } }
}
static void dround(s64 a, s64 *hi, s64 *lo) { a = dmod(a); s64 r = a % 8192; if (r > 4096) r -= 8192; *lo = r; *hi = (a - r) / 8192; }
static void ddec(const Dp *d, s64 a, s64 *hi, s64 *lo) { a = dmod(a); s64 m = 2 * d->g2, r = a % m; if (r > d->g2) r -= m; if (a - r == DQ - 1) { *hi = 0; *lo = r - 1; } else { *hi = (a - r) / m; *lo = r; } }
static s64 dhints(const Dp *d) { return (DQ - 1) / (2 * d->g2); }
static int dnorm(const s64 *a, s64 b) { for (int i = 0; i < 256; ++i) { s64 v = dcen(a[i]); if (v < 0) v = -v; if (v >= b) return 1; } return 0; }
static void dball(const Dp *d, const u8 *c, s64 *a)
{
	Xof x; xof_init(&x, 136); xof_put(&x, c, 32); xof_end(&x, 0x1f); u64 s = 0; for (int i = 0; i < 8; ++i) s |= (u64)xof_byte(&x) << 8 * i;
	memset(a, 0, sizeof(P)); for (int i = 256 - d->tau; i < 256; ++i) { int b; do b = xof_byte(&x); while (b > i); a[i] = a[b]; a[b] = 1 - 2 * (s64)(s & 1); s >>= 1; }
}
void dil_keys(int p, const u8 *seed, u8 *pk, u8 *sk)
{
	dinit(); const Dp *d = &DP[p]; u8 e[96]; static P s1[8], s2[8], h1[8]; P a, t, hi, lo; shake(136, seed, 32, 0, 0, e, 96); int eb = etabits(d);
	memcpy(pk, e, 32); memset(pk + 32, 0, 320 * d->k); memcpy(sk, e, 32); memcpy(sk + 32, e + 64, 32); u8 *q = sk + 112; memset(q, 0, 32 * eb * (d->k + d->l) + 416 * d->k);
	for (int i = 0; i < d->l; ++i) { dshort(d, e + 32, i, s1[i]); dhat(s1[i], h1[i]); for (int j = 0; j < 256; ++j) put(q, j, eb, (u32)(d->eta - s1[i][j])); q += 32 * eb; }
	for (int i = 0; i < d->k; ++i) { dshort(d, e + 32, d->l + i, s2[i]); for (int j = 0; j < 256; ++j) put(q, j, eb, (u32)(d->eta - s2[i][j])); q += 32 * eb; }
	for (int i = 0; i < d->k; ++i)
	{
		P acc = {0}; for (int j = 0; j < d->l; ++j) { dmat(e, i, j, a); for (int n = 0; n < 256; ++n) acc[n] = (acc[n] + a[n] * h1[j][n]) % DQ; }
		dinv(acc, t); for (int n = 0; n < 256; ++n) { dround(t[n] + s2[i][n], &hi[n], &lo[n]); put(pk + 32 + 320 * i, n, 10, (u32)hi[n]); put(q, n, 13, (u32)(4096 - lo[n])); } q += 416;
	}
	shake(136, pk, 32 + 320 * (u64)d->k, 0, 0, sk + 64, 48);
}
/* how: 0 a signer; 1 one whose z is not short enough, and who does not care (returns 0 if there was none in `tries') */
int dil_sign(int p, const u8 *sk, const u8 *msg, u64 n, int how, int tries, u8 *sig)
{
	dinit(); const Dp *d = &DP[p]; int eb = etabits(d), zb = zbits(d), wb = wbits(d); static P s1[8], s2[8], t0[8], y[8], hy[8], z[8], w[8], w1[8], A[64], hint[8]; P c, hc, t; u8 mu[48], rp[48]; const u8 *q = sk + 112;
	for (int i = 0; i < d->l; ++i, q += 32 * eb) { for (int j = 0; j < 256; ++j) t[j] = d->eta - (s64)get(q, j, eb); dhat(t, s1[i]); }
	for (int i = 0; i < d->k; ++i, q += 32 * eb) { for (int j = 0; j < 256; ++j) t[j] = d->eta - (s64)get(q, j, eb); dhat(t, s2[i]); }
	for (int i = 0; i < d->k; ++i, q += 416) { for (int j = 0; j < 256; ++j) t[j] = 4096 - (s64)get(q, j, 13); dhat(t, t0[i]); }
	shake(136, sk + 64, 48, msg, n, mu, 48); shake(136, sk + 32, 32, mu, 48, rp, 48);
	for (int i = 0; i < d->k; ++i) for (int j = 0; j < d->l; ++j) dmat(sk, i, j, A[i * 8 + j]);
	for (int nonce = 0, at = 0; at < tries; ++at)
	{
		u8 *buf = calloc(1, 32 * wb * d->k); int bad = 0, count = 0, longz = 0;
		for (int i = 0; i < d->l; ++i, ++nonce) { u8 b[640]; u8 no[2] = {(u8)nonce, (u8)(nonce >> 8)}; shake(136, rp, 48, no, 2, b, 32 * zb); for (int j = 0; j < 256; ++j) y[i][j] = d->g1 - (s64)get(b, j, zb); dhat(y[i], hy[i]); }
		for (int i = 0; i < d->k; ++i) { P acc = {0}; for (int j = 0; j < d->l; ++j) for (int m = 0; m < 256; ++m) acc[m] = (acc[m] + A[i * 8 + j][m] * hy[j][m]) % DQ; dinv(acc, w[i]); for (int m = 0; m < 256; ++m) { s64 lo; ddec(d, w[i][m], &w1[i][m], &lo); put(buf + 32 * wb * i, m, wb, (u32)w1[i][m]); } }
		shake(136, mu, 48, buf, 32 * wb * (u64)d->k, sig, 32); free(buf); dball(d, sig, c); dhat(c, hc);
		for (int i = 0; i < d->l; ++i) { P h; for (int m = 0; m < 256; ++m) h[m] = hc[m] * s1[i][m] % DQ; dinv(h, t); for (int m = 0; m < 256; ++m) z[i][m] = dcen(t[m] + y[i][m]); if (dnorm(z[i], d->g1 - d->beta)) longz = 1; for (int m = 0; m < 256; ++m) if (z[i][m] <= -d->g1 || z[i][m] > d->g1) bad = 1; }
		if (longz != (how == 1) || bad) continue;
		for (int i = 0; i < d->k && !bad; ++i)
		{
			P h, r, ct; for (int m = 0; m < 256; ++m) h[m] = hc[m] * s2[i][m] % DQ; dinv(h, t); for (int m = 0; m < 256; ++m) { s64 hi, lo; r[m] = dmod(w[i][m] - t[m]); ddec(d, r[m], &hi, &lo); if (lo >= d->g2 - d->beta || -lo >= d->g2 - d->beta || hi != w1[i][m]) bad = 1; }
			for (int m = 0; m < 256; ++m) h[m] = hc[m] * t0[i][m] % DQ; dinv(h, ct); if (dnorm(ct, d->g2)) bad = 1;
			for (int m = 0; m < 256; ++m) { s64 hi, lo; ddec(d, r[m] + ct[m], &hi, &lo); hint[i][m] = hi != w1[i][m]; count += (int)hint[i][m]; }
		}
		if (bad || count > d->om) continue;
		u8 *o = sig + 32; memset(o, 0, 32 * zb * d->l + d->om + d->k); for (int i = 0; i < d->l; ++i, o += 32 * zb) for (int m = 0; m < 256; ++m) put(o, m, zb, (u32)(d->g1 - z[i][m]));
		int pos = 0; for (int i = 0; i < d->k; ++i) { for (int m = 0; m < 256; ++m) if (hint[i][m]) o[pos++] = (u8)m; o[d->om + i] = (u8)pos; }
		return at + 1;
	}
	return 0;
}
/* checks: 1 length of z, 2 the form of the hints; the verdict of the whole is with checks = 3 */
int dil_verify(int p, const u8 *pk, const u8 *msg, u64 n, const u8 *sig, int checks)
{
	dinit(); const Dp *d = &DP[p]; int zb = zbits(d), wb = wbits(d); static P z[8]; P c, hc, t; u8 tr[48], mu[48], ch[32]; u8 *buf = calloc(1, 32 * wb * d->k); const u8 *hp = sig + 32 + 32 * zb * d->l; static u8 hint[8][256]; int k = 0, ok = 1;
	memset(hint, 0, sizeof hint);
	for (int i = 0; i < d->k; ++i) { int e = hp[d->om + i]; if (e < k || e > d->om) { free(buf); return 0; } for (int j = k; j < e; ++j) { if (j > k && hp[j] <= hp[j - 1] && (checks & 2)) ok = 0; hint[i][hp[j]] = 1; } k = e; }
	for (int j = k; j < d->om; ++j) if (hp[j] && (checks & 2)) ok = 0;
	shake(136, pk, 32 + 320 * (u64)d->k, 0, 0, tr, 48); shake(136, tr, 48, msg, n, mu, 48); dball(d, sig, c); dhat(c, hc);
	for (int i = 0; i < d->l; ++i) { for (int m = 0; m < 256; ++m) t[m] = d->g1 - (s64)get(sig + 32 + 32 * zb * i, m, zb); if (dnorm(t, d->g1 - d->beta) && (checks & 1)) ok = 0; dhat(t, z[i]); }
	for (int i = 0; i < d->k; ++i)
	{
		P acc = {0}, a, h; for (int j = 0; j < d->l; ++j) { dmat(pk, i, j, a); for (int m = 0; m < 256; ++m) acc[m] = (acc[m] + a[m] * z[j][m]) % DQ; }
		for (int m = 0; m < 256; ++m) t[m] = (s64)get(pk + 32 + 320 * i, m, 10) << 13; dhat(t, h); for (int m = 0; m < 256; ++m) acc[m] = dmod(acc[m] - hc[m] * h[m]); dinv(acc, t);
		for (int m = 0; m < 256; ++m) { s64 hi, lo, M = dhints(d); ddec(d, t[m], &hi, &lo); if (hint[i][m]) hi = lo > 0 ? (hi + 1) % M : (hi + M - 1) % M; put(buf + 32 * wb * i, m, wb, (u32)hi); }
	}
	shake(136, mu, 48, buf, 32 * wb * (u64)d->k, ch, 32); free(buf); return ok && !memcmp(ch, sig, 32);
}

/* ---- Kyber (round 3) ---- */
#define KQ 3329
typedef struct { int k, e1, du, dv; } Kp;
static const Kp KP[4] = {{2, 3, 10, 4}, {3, 2, 10, 4}, {4, 2, 11, 5}, {5, 2, 11, 5}};
static s64 kmod(s64 a) { a %= KQ; return a < 0 ? a + KQ : a; }
static s64 kpw(int e) { s64 r = 1; for (e &= 255; e; --e) r = r * 17 % KQ; return r; }
static s64 kz[256]; static void kinit(void) { if (!kz[0]) for (int i = 0; i < 256; ++i) kz[i] = kpw(i); }
/* the residues modulo X^2 - z^(2 brv(i) + 1) */
static void khat(const s64 *a, s64 *h) { for (int i = 0; i < 128; ++i) { int e = 2 * brv(i, 7) + 1; for (int o = 0; o < 2; ++o) { s64 s = 0; for (int j = 0; j < 128; ++j) s += kmod(a[2 * j + o]) * kz[e * j & 255]; h[2 * i + o] = s % KQ; } } }
static void kinv(const s64 *h, s64 *a) { for (int j = 0; j < 128; ++j) for (int o = 0; o < 2; ++o) { s64 s = 0; for (int i = 0; i < 128; ++i) { int e = 2 * brv(i, 7) + 1; s += kmod(h[2 * i + o]) * kz[(256 - (e * j & 255)) & 255]; } a[2 * j + o] = s % KQ * 3303 % KQ; } }
static void kmac_(const s64 *a, const s64 *b, s64 *c) { for (int i = 0; i < 128; ++i) { s64 z = kz[2 * brv(i, 7) + 1]; c[2 * i] = (c[2 * i] + a[2 * i] * b[2 * i] + a[2 * i + 1] * b[2 * i + 1] % KQ * z) % KQ; c[2 * i + 1] = (c[2 * i + 1] + a[2 * i] * b[2 * i + 1] + a[2 * i + 1] * b[2 * i]) % KQ; } }
static void kmat(const u8 *rho, int x, int y, s64 *a)
{
	Xof f; u8 n[2] = {(u8)x, (u8)y}; xof_init(&f, 168); xof_put(&f, rho, 32); xof_put(&f, n, 2); xof_end(&f, 0x1f);
	for (int c = 0; c < 256;) { int b0 = xof_byte(&f), b1 = xof_byte(&f), b2 = xof_byte(&f), v = b0 | (b1 & 15) << 8, w = b1 >> 4 | b2 << 4; if (v < KQ) a[c++] = v; if (w < KQ && c < 256) a[c++] = w; }
}
static void knoise(const u8 *seed, int nonce, int eta, s64 *a)
{
	u8 b[192], n = (u8)nonce; shake(136, seed, 32, &n, 1, b, 64 * eta);
	for (int i = 0; i < 256; ++i) { a[i] = 0; for (int j = 0; j < eta; ++j) { int p = 2 * i * eta + j, q = p + eta; a[i] += ((b[p >> 3] >> (p & 7)) & 1) - ((b[q >> 3] >> (q & 7)) & 1); } }
}
static u32 kcomp(s64 v, int d) { return (u32)(((2 * (kmod(v) << d) + KQ) / (2 * KQ)) & ((1 << d) - 1)); }
static s64 kdecomp(u32 v, int d) { return ((s64)v * KQ + (1 << (d - 1))) >> d; }
void kyb_keys(int p, const u8 *d, const u8 *z, u8 *pk, u8 *sk)
{
	kinit(); const Kp *q = &KP[p - 9]; int k = q->k; u8 g[64]; static P s[5]; P e, a, t; sha3(72, d, 32, 0, 0, g, 64); memset(pk, 0, 384 * k); memset(sk, 0, 384 * k);
	for (int i = 0; i < k; ++i) { knoise(g + 32, i, q->e1, t); khat(t, s[i]); for (int j = 0; j < 256; ++j) put(sk + 384 * i, j, 12, (u32)s[i][j]); }
	for (int i = 0; i < k; ++i) { P c = {0}; for (int j = 0; j < k; ++j) { kmat(g, j, i, a); kmac_(a, s[j], c); } knoise(g + 32, k + i, q->e1, t); khat(t, e); for (int j = 0; j < 256; ++j) put(pk + 384 * i, j, 12, (u32)kmod(c[j] + e[j])); }
	memcpy(pk + 384 * k, g, 32); int pl = 384 * k + 32; memcpy(sk + 384 * k, pk, pl); sha3(136, pk, pl, 0, 0, sk + 384 * k + pl, 32); memcpy(sk + 384 * k + pl + 32, z, 32);
}
static void kenc(const Kp *q, const u8 *pk, const u8 *m, const u8 *coins, u8 *ct)
{
	int k = q->k; static P r[5]; P a, t, e, u; memset(ct, 0, 32 * (q->du * k + q->dv));
	for (int i = 0; i < k; ++i) { knoise(coins, i, q->e1, t); khat(t, r[i]); }
	for (int i = 0; i < k; ++i) { P c = {0}; for (int j = 0; j < k; ++j) { kmat(pk + 384 * k, i, j, a); kmac_(a, r[j], c); } kinv(c, u); knoise(coins, k + i, 2, e); for (int j = 0; j < 256; ++j) put(ct + 32 * q->du * i, j, q->du, kcomp(u[j] + e[j], q->du)); }
	P c = {0}; for (int j = 0; j < k; ++j) { for (int n = 0; n < 256; ++n) t[n] = get(pk + 384 * j, n, 12) % KQ; kmac_(t, r[j], c); } kinv(c, u); knoise(coins, 2 * k, 2, e);
	for (int j = 0; j < 256; ++j) put(ct + 32 * q->du * k, j, q->dv, kcomp(u[j] + e[j] + (((m[j >> 3] >> (j & 7)) & 1) ? (KQ + 1) / 2 : 0), q->dv));
}
static void kcoins(const u8 *m, const u8 *h, u8 *kr) { sha3(72, m, 32, h, 32, kr, 64); }
void kyb_enc(int p, const u8 *pk, const u8 *rnd, int n, u8 *ct, u8 *ss)
{
	kinit(); const Kp *q = &KP[p - 9]; int pl = 384 * q->k + 32, cl = 32 * (q->du * q->k + q->dv); u8 m[32], h[32], kr[64]; sha3(136, rnd, 32, 0, 0, m, 32); sha3(136, pk, pl, 0, 0, h, 32); kcoins(m, h, kr); kenc(q, pk, m, kr + 32, ct);
	sha3(136, ct, cl, 0, 0, h, 32); shake(136, kr, 32, h, 32, ss, n);
}
int kyb_dec(int p, const u8 *sk, const u8 *ct, int n, u8 *ss)
{
	kinit(); const Kp *q = &KP[p - 9]; int k = q->k, pl = 384 * k + 32, cl = 32 * (q->du * k + q->dv); P u, h, s, t, w; u8 m[32] = {0}, kr[64], hh[32]; u8 *cmp = malloc(cl); P c = {0};
	for (int i = 0; i < k; ++i) { for (int j = 0; j < 256; ++j) { u[j] = kdecomp(get(ct + 32 * q->du * i, j, q->du), q->du); s[j] = get(sk + 384 * i, j, 12); } khat(u, h); kmac_(s, h, c); }
	kinv(c, w); for (int j = 0; j < 256; ++j) { t[j] = kmod(kdecomp(get(ct + 32 * q->du * k, j, q->dv), q->dv) - w[j]); m[j >> 3] |= (u8)(kcomp(t[j], 1) << (j & 7)); }
	const u8 *pk = sk + 384 * k; kcoins(m, pk + pl, kr); kenc(q, pk, m, kr + 32, cmp); int ok = !memcmp(cmp, ct, cl); free(cmp); sha3(136, ct, cl, 0, 0, hh, 32); shake(136, ok ? kr : pk + pl + 32, 32, hh, 32, ss, n); return ok;
}
void kyb_raw(int p, const u8 *pk, const u8 *m, const u8 *coins, u8 *ct) { kinit(); kenc(&KP[p - 9], pk, m, coins, ct); }
