/* Independent reference implementations used to evaluate the specification's terms.  Built with gcc by ref.py. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;

/* ---- deterministic bytes, as in driver/main.cpp ---- */
void prg(u64 seed, u64 off, u64 len, u8 *o)
{
    for (u64 i = off; i < off + len;) {
        u64 z = seed * 0xD1B54A32D192ED03ULL + (i / 8 + 1) * 0x9E3779B97F4A7C15ULL;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31;
        for (unsigned k = i % 8; k < 8 && i < off + len; ++k, ++i) *o++ = (u8)(z >> (8 * k));
    }
}

/* ---- Keccak-f[1600] with 24 or more rounds; the round constants come from the LFSR of FIPS 202 ---- */
static int lfsr(u8 *s) { int r = *s & 1; if (*s & 0x80) *s = (u8)((*s << 1) ^ 0x71); else *s <<= 1; return r; }
#define ROL(a, n) ((n) ? (((a) << (n)) | ((a) >> (64 - (n)))) : (a))
void keccak_f(u64 *A, int rounds)
{
    u8 L = 1;
    for (int r = 0; r < rounds; ++r) {
        u64 C[5], D;
        for (int x = 0; x < 5; ++x) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
        for (int x = 0; x < 5; ++x) { D = C[(x + 4) % 5] ^ ROL(C[(x + 1) % 5], 1); for (int y = 0; y < 5; ++y) A[x + 5 * y] ^= D; }
        int x = 1, y = 0; u64 cur = A[1];
        for (int t = 0; t < 24; ++t) { int rr = ((t + 1) * (t + 2) / 2) % 64; int Y = (2 * x + 3 * y) % 5; x = y; y = Y; u64 tmp = A[x + 5 * y]; A[x + 5 * y] = ROL(cur, rr); cur = tmp; }
        for (int yy = 0; yy < 5; ++yy) { u64 T[5]; for (int xx = 0; xx < 5; ++xx) T[xx] = A[xx + 5 * yy]; for (int xx = 0; xx < 5; ++xx) A[xx + 5 * yy] = T[xx] ^ ((~T[(xx + 1) % 5]) & T[(xx + 2) % 5]); }
        for (int j = 0; j < 7; ++j) if (lfsr(&L)) A[0] ^= 1ULL << ((1u << j) - 1);
    }
}
void keccak_rc(int rounds, u64 *rc) { u8 L = 1; for (int r = 0; r < rounds; ++r) { rc[r] = 0; for (int j = 0; j < 7; ++j) if (lfsr(&L)) rc[r] ^= 1ULL << ((1u << j) - 1); } }
/* sponge over an explicit list: state given (200 bytes) and returned, so that trees and odd paddings can be composed */
void sponge_absorb_blocks(u8 *st, int rounds, int rate, const u8 *in, u64 nblocks)
{
    u64 A[25]; memcpy(A, st, 200);
    for (u64 b = 0; b < nblocks; ++b) { for (int i = 0; i < rate; ++i) ((u8*)A)[i] ^= in[b * rate + i]; keccak_f(A, rounds); }
    memcpy(st, A, 200);
}
void sponge(int rounds, int rate, int domain, const u8 *in, u64 n, u8 *out, u64 m, const u8 *init)
{
    u64 A[25]; if (init) memcpy(A, init, 200); else memset(A, 0, 200);
    u8 *s = (u8*)A;
    while (n >= (u64)rate) { for (int i = 0; i < rate; ++i) s[i] ^= in[i]; keccak_f(A, rounds); in += rate; n -= rate; }
    for (u64 i = 0; i < n; ++i) s[i] ^= in[i];
    s[n] ^= (u8)domain; s[rate - 1] ^= 0x80;
    keccak_f(A, rounds);
    while (m) { u64 k = m < (u64)rate ? m : (u64)rate; memcpy(out, s, k); out += k; m -= k; if (m) keccak_f(A, rounds); }
}

/* ---- SHA-2 with explicit chaining value (for the tree construction) ---- */
static const u32 K256[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static u32 rr32(u32 x, int n) { return (x >> n) | (x << (32 - n)); }
static u64 rr64(u64 x, int n) { return (x >> n) | (x << (64 - n)); }
void sha256_block(u32 *h, const u8 *p)
{
    u32 w[64], s[8];
    for (int i = 0; i < 16; ++i) w[i] = (u32)p[4*i] << 24 | (u32)p[4*i+1] << 16 | (u32)p[4*i+2] << 8 | p[4*i+3];
    for (int i = 16; i < 64; ++i) w[i] = w[i-16] + (rr32(w[i-15],7)^rr32(w[i-15],18)^(w[i-15]>>3)) + w[i-7] + (rr32(w[i-2],17)^rr32(w[i-2],19)^(w[i-2]>>10));
    memcpy(s, h, 32);
    for (int i = 0; i < 64; ++i) {
        u32 t1 = s[7] + (rr32(s[4],6)^rr32(s[4],11)^rr32(s[4],25)) + ((s[4]&s[5])^(~s[4]&s[6])) + K256[i] + w[i];
        u32 t2 = (rr32(s[0],2)^rr32(s[0],13)^rr32(s[0],22)) + ((s[0]&s[1])^(s[0]&s[2])^(s[1]&s[2]));
        memmove(s + 1, s, 28); s[4] += t1; s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) h[i] += s[i];
}
static const u64 K512[80] = {
0x428a2f98d728ae22ULL,0x7137449123ef65cdULL,0xb5c0fbcfec4d3b2fULL,0xe9b5dba58189dbbcULL,0x3956c25bf348b538ULL,0x59f111f1b605d019ULL,0x923f82a4af194f9bULL,0xab1c5ed5da6d8118ULL,0xd807aa98a3030242ULL,0x12835b0145706fbeULL,0x243185be4ee4b28cULL,0x550c7dc3d5ffb4e2ULL,0x72be5d74f27b896fULL,0x80deb1fe3b1696b1ULL,0x9bdc06a725c71235ULL,0xc19bf174cf692694ULL,
0xe49b69c19ef14ad2ULL,0xefbe4786384f25e3ULL,0x0fc19dc68b8cd5b5ULL,0x240ca1cc77ac9c65ULL,0x2de92c6f592b0275ULL,0x4a7484aa6ea6e483ULL,0x5cb0a9dcbd41fbd4ULL,0x76f988da831153b5ULL,0x983e5152ee66dfabULL,0xa831c66d2db43210ULL,0xb00327c898fb213fULL,0xbf597fc7beef0ee4ULL,0xc6e00bf33da88fc2ULL,0xd5a79147930aa725ULL,0x06ca6351e003826fULL,0x142929670a0e6e70ULL,
0x27b70a8546d22ffcULL,0x2e1b21385c26c926ULL,0x4d2c6dfc5ac42aedULL,0x53380d139d95b3dfULL,0x650a73548baf63deULL,0x766a0abb3c77b2a8ULL,0x81c2c92e47edaee6ULL,0x92722c851482353bULL,0xa2bfe8a14cf10364ULL,0xa81a664bbc423001ULL,0xc24b8b70d0f89791ULL,0xc76c51a30654be30ULL,0xd192e819d6ef5218ULL,0xd69906245565a910ULL,0xf40e35855771202aULL,0x106aa07032bbd1b8ULL,
0x19a4c116b8d2d0c8ULL,0x1e376c085141ab53ULL,0x2748774cdf8eeb99ULL,0x34b0bcb5e19b48a8ULL,0x391c0cb3c5c95a63ULL,0x4ed8aa4ae3418acbULL,0x5b9cca4f7763e373ULL,0x682e6ff3d6b2b8a3ULL,0x748f82ee5defb2fcULL,0x78a5636f43172f60ULL,0x84c87814a1f0ab72ULL,0x8cc702081a6439ecULL,0x90befffa23631e28ULL,0xa4506cebde82bde9ULL,0xbef9a3f7b2c67915ULL,0xc67178f2e372532bULL,
0xca273eceea26619cULL,0xd186b8c721c0c207ULL,0xeada7dd6cde0eb1eULL,0xf57d4f7fee6ed178ULL,0x06f067aa72176fbaULL,0x0a637dc5a2c898a6ULL,0x113f9804bef90daeULL,0x1b710b35131c471bULL,0x28db77f523047d84ULL,0x32caab7b40c72493ULL,0x3c9ebe0a15c9bebcULL,0x431d67c49c100d4cULL,0x4cc5d4becb3e42b6ULL,0x597f299cfc657e2aULL,0x5fcb6fab3ad6faecULL,0x6c44198c4a475817ULL};
void sha512_block(u64 *h, const u8 *p)
{
    u64 w[80], s[8];
    for (int i = 0; i < 16; ++i) { w[i] = 0; for (int j = 0; j < 8; ++j) w[i] = w[i] << 8 | p[8*i+j]; }
    for (int i = 16; i < 80; ++i) w[i] = w[i-16] + (rr64(w[i-15],1)^rr64(w[i-15],8)^(w[i-15]>>7)) + w[i-7] + (rr64(w[i-2],19)^rr64(w[i-2],61)^(w[i-2]>>6));
    memcpy(s, h, 64);
    for (int i = 0; i < 80; ++i) {
        u64 t1 = s[7] + (rr64(s[4],14)^rr64(s[4],18)^rr64(s[4],41)) + ((s[4]&s[5])^(~s[4]&s[6])) + K512[i] + w[i];
        u64 t2 = (rr64(s[0],28)^rr64(s[0],34)^rr64(s[0],39)) + ((s[0]&s[1])^(s[0]&s[2])^(s[1]&s[2]));
        memmove(s + 1, s, 56); s[4] += t1; s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) h[i] += s[i];
}

/* ---- Threefish / Skein ---- */
static const int R4[8][2] = {{14,16},{52,57},{23,40},{5,37},{25,33},{46,12},{58,22},{32,32}};
static const int R8[8][4] = {{46,36,19,37},{33,27,14,42},{17,49,36,39},{44,9,54,56},{39,30,34,24},{13,50,10,17},{25,29,39,43},{8,35,56,22}};
static const int R16[8][8] = {{24,13,8,47,8,17,22,37},{38,19,10,55,49,18,23,52},{33,4,51,13,34,41,59,17},{5,20,48,41,47,28,16,25},{41,9,37,31,12,47,44,30},{16,34,56,51,4,53,42,41},{31,44,47,46,19,42,44,25},{9,48,35,52,23,31,37,20}};
static const int P4[4] = {0,3,2,1}, P8[8] = {2,1,4,7,6,5,0,3}, P16[16] = {0,9,2,13,6,11,4,15,10,7,12,3,14,5,8,1};
void threefish(int nw, int rounds, const u64 *key, const u64 *tweak, const u64 *in, u64 *out)
{
    u64 k[17], t[3], v[16], f[16];
    k[nw] = 0x1BD11BDAA9FC1A22ULL;
    for (int i = 0; i < nw; ++i) { k[i] = key[i]; k[nw] ^= key[i]; v[i] = in[i]; }
    t[0] = tweak[0]; t[1] = tweak[1]; t[2] = t[0] ^ t[1];
    for (int d = 0; d <= rounds; ++d) {
        if (d % 4 == 0) {
            int s = d / 4, add = s;
            /* the library's longer variants end with the subkey of the standard round count */
            if (d == rounds) s = nw == 16 ? 20 : 18;
            for (int i = 0; i < nw; ++i) {
                u64 ks = k[(s + i) % (nw + 1)];
                if (i == nw - 3) ks += t[s % 3]; else if (i == nw - 2) ks += t[(s + 1) % 3]; else if (i == nw - 1) ks += (u64)add;
                v[i] += ks;
            }
            if (d == rounds) break;
        }
        for (int j = 0; j < nw / 2; ++j) {
            int r = nw == 4 ? R4[d % 8][j] : nw == 8 ? R8[d % 8][j] : R16[d % 8][j];
            u64 a = v[2*j], b = v[2*j+1];
            a += b; b = ROL(b, r) ^ a; f[2*j] = a; f[2*j+1] = b;
        }
        for (int i = 0; i < nw; ++i) v[i] = f[nw == 4 ? P4[i] : nw == 8 ? P8[i] : P16[i]];
    }
    memcpy(out, v, nw * 8);
}

/* ---- Rijndael with a 128-bit or 256-bit block, given round keys; S-box from the definition ---- */
static u8 SB[256], IS[256]; static int sb_ready;
static u8 xt(u8 x) { return (u8)((x << 1) ^ ((x >> 7) * 0x1b)); }
static u8 gm(u8 a, u8 b) { u8 r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
static u8 M9[256], Mb[256], Md[256], Me[256], M2[256], M3[256];
static void sb_init(void)
{
    if (sb_ready) return;
    for (int i = 0; i < 256; ++i) {
        u8 inv = 0;
        if (i) for (int j = 1; j < 256; ++j) if (gm((u8)i, (u8)j) == 1) { inv = (u8)j; break; }
        u8 r = 0x63, t = inv;
        for (int k = 0; k < 5; ++k) { r ^= t; t = (u8)((t << 1) | (t >> 7)); }
        SB[i] = r; IS[r] = (u8)i;
    }
    for (int i = 0; i < 256; ++i) { M2[i] = gm(i, 2); M3[i] = gm(i, 3); M9[i] = gm(i, 9); Mb[i] = gm(i, 11); Md[i] = gm(i, 13); Me[i] = gm(i, 14); }
    sb_ready = 1;
}
static const int SH4[4] = {0, 1, 2, 3}, SH8[4] = {0, 1, 3, 4}, SH16[4] = {1, 2, 4, 8};
static void rij_enc1(const u8 *rk, int rounds, int nb, const u8 *in, u8 *out)
{
    const int *sh = nb == 4 ? SH4 : nb == 8 ? SH8 : SH16; u8 s[64], t[64]; int n = nb * 4;
    for (int i = 0; i < n; ++i) s[i] = in[i] ^ rk[i];
    for (int r = 1; r <= rounds; ++r) {
        for (int c = 0; c < nb; ++c) for (int k = 0; k < 4; ++k) t[4 * c + k] = SB[s[4 * ((c + sh[k]) % nb) + k]];
        if (r < rounds) for (int c = 0; c < nb; ++c) {
            u8 *p = t + 4 * c, a = p[0], b = p[1], d = p[2], e = p[3];
            p[0] = M2[a] ^ M3[b] ^ d ^ e; p[1] = a ^ M2[b] ^ M3[d] ^ e; p[2] = a ^ b ^ M2[d] ^ M3[e]; p[3] = M3[a] ^ b ^ d ^ M2[e];
        }
        for (int i = 0; i < n; ++i) s[i] = t[i] ^ rk[r * n + i];
    }
    memcpy(out, s, n);
}
static void rij_dec1(const u8 *rk, int rounds, int nb, const u8 *in, u8 *out)
{
    const int *sh = nb == 4 ? SH4 : SH8; u8 s[32], t[32]; int n = nb * 4;
    for (int i = 0; i < n; ++i) s[i] = in[i] ^ rk[rounds * n + i];
    for (int r = rounds - 1; r >= 0; --r) {
        for (int c = 0; c < nb; ++c) for (int k = 0; k < 4; ++k) t[4 * ((c + sh[k]) % nb) + k] = IS[s[4 * c + k]];
        for (int i = 0; i < n; ++i) t[i] ^= rk[r * n + i];
        if (r) for (int c = 0; c < nb; ++c) {
            u8 *p = t + 4 * c, a = p[0], b = p[1], d = p[2], e = p[3];
            p[0] = Me[a] ^ Mb[b] ^ Md[d] ^ M9[e]; p[1] = M9[a] ^ Me[b] ^ Mb[d] ^ Md[e]; p[2] = Md[a] ^ M9[b] ^ Me[d] ^ Mb[e]; p[3] = Mb[a] ^ Md[b] ^ M9[d] ^ Me[e];
        }
        memcpy(s, t, n);
    }
    memcpy(out, s, n);
}
void rijndael(const u8 *rk, int rounds, int nb, int dec, const u8 *in, u8 *out, u64 blocks)
{
    sb_init();
    for (u64 b = 0; b < blocks; ++b) (dec ? rij_dec1 : rij_enc1)(rk, rounds, nb, in + b * nb * 4, out + b * nb * 4);
}
int aes_expand(const u8 *key, int klen, u8 *rk)
{
    sb_init(); int nk = klen / 4, rounds = nk + 6, n = 4 * (rounds + 1); u8 rc = 1;
    memcpy(rk, key, klen);
    for (int i = nk; i < n; ++i) {
        u8 t[4]; memcpy(t, rk + 4 * (i - 1), 4);
        if (i % nk == 0) { u8 x = t[0]; t[0] = SB[t[1]] ^ rc; t[1] = SB[t[2]]; t[2] = SB[t[3]]; t[3] = SB[x]; rc = xt(rc); }
        else if (nk > 6 && i % nk == 4) for (int k = 0; k < 4; ++k) t[k] = SB[t[k]];
        for (int k = 0; k < 4; ++k) rk[4 * i + k] = rk[4 * (i - nk) + k] ^ t[k];
    }
    return rounds;
}
/* ---- Serpent on 32-bit words with the S-boxes as tables ---- */
static const u8 SS[8][16] = {
 {3,8,15,1,10,6,5,11,14,13,4,2,7,0,9,12},{15,12,2,7,9,0,5,10,1,11,14,8,6,13,3,4},{8,6,7,9,3,12,10,15,13,1,14,4,0,11,5,2},{0,15,11,8,12,9,6,3,13,1,2,4,10,7,5,14},
 {1,15,8,3,12,0,11,6,2,5,4,10,9,14,7,13},{15,5,2,11,4,10,9,12,0,3,14,8,13,6,7,1},{7,2,12,5,8,4,6,11,14,9,1,15,13,3,10,0},{1,13,15,0,14,8,2,11,7,4,12,10,9,3,5,6}};
static void sbox(const u8 *t, u32 *x) { u32 y[4] = {0, 0, 0, 0}; for (int i = 0; i < 32; ++i) { int v = ((x[0] >> i) & 1) | ((x[1] >> i) & 1) << 1 | ((x[2] >> i) & 1) << 2 | ((x[3] >> i) & 1) << 3; v = t[v]; for (int k = 0; k < 4; ++k) y[k] |= (u32)((v >> k) & 1) << i; } memcpy(x, y, 16); }
#define RL(x, n) (((x) << (n)) | ((x) >> (32 - (n))))
#define RR(x, n) (((x) >> (n)) | ((x) << (32 - (n))))
static void lt(u32 *x) { x[0] = RL(x[0], 13); x[2] = RL(x[2], 3); x[1] ^= x[0] ^ x[2]; x[3] ^= x[2] ^ (x[0] << 3); x[1] = RL(x[1], 1); x[3] = RL(x[3], 7); x[0] ^= x[1] ^ x[3]; x[2] ^= x[3] ^ (x[1] << 7); x[0] = RL(x[0], 5); x[2] = RL(x[2], 22); }
static void ilt(u32 *x) { x[2] = RR(x[2], 22); x[0] = RR(x[0], 5); x[2] ^= x[3] ^ (x[1] << 7); x[0] ^= x[1] ^ x[3]; x[3] = RR(x[3], 7); x[1] = RR(x[1], 1); x[3] ^= x[2] ^ (x[0] << 3); x[1] ^= x[0] ^ x[2]; x[2] = RR(x[2], 3); x[0] = RR(x[0], 13); }
void serpent(const u32 *rk, int rounds, int dec, const u8 *in, u8 *out, u64 blocks)
{
    u8 inv[8][16]; for (int b = 0; b < 8; ++b) for (int i = 0; i < 16; ++i) inv[b][SS[b][i]] = (u8)i;
    for (u64 q = 0; q < blocks; ++q) {
        u32 x[4]; memcpy(x, in + 16 * q, 16);
        if (!dec) {
            for (int r = 0; r < rounds; ++r) { for (int k = 0; k < 4; ++k) x[k] ^= rk[4 * r + k]; sbox(SS[r % 8], x); if (r < rounds - 1) lt(x); }
            for (int k = 0; k < 4; ++k) x[k] ^= rk[4 * rounds + k];
        } else {
            for (int k = 0; k < 4; ++k) x[k] ^= rk[4 * rounds + k];
            for (int r = rounds - 1; r >= 0; --r) { if (r < rounds - 1) ilt(x); sbox(inv[r % 8], x); for (int k = 0; k < 4; ++k) x[k] ^= rk[4 * r + k]; }
        }
        memcpy(out + 16 * q, x, 16);
    }
}
int serpent_expand(const u8 *key, int klen, u32 *rk)
{   /* key words are big-endian and taken from the end; 64-byte keys use the library's 16-word recurrence and 40 rounds */
    int rounds = klen == 64 ? 40 : 32, n = 4 * (rounds + 1), w = klen == 64 ? 16 : 8; u32 W[200];
    memset(W, 0, sizeof W);
    for (int i = 0; i < klen / 4; ++i) { const u8 *p = key + klen - 4 * (i + 1); W[i] = (u32)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
    if (klen / 4 < 8) W[klen / 4] = 1;
    for (int i = 0; i < n; ++i) {
        u32 *p = W + w + i, v;
        if (w == 8) v = p[-8] ^ p[-5] ^ p[-3] ^ p[-1];
        else v = p[-16] ^ p[-13] ^ p[-11] ^ p[-10] ^ p[-8] ^ p[-5] ^ p[-3] ^ p[-1];
        v ^= 0x9e3779b9u ^ (u32)i; *p = RL(v, 11);
    }
    memcpy(rk, W + w, n * 4);
    for (int g = 0; g <= rounds; ++g) sbox(SS[(3 - g % 8 + 8) % 8], rk + 4 * g);
    return rounds;
}
/* ---- stream cipher cores: n keystream blocks from a counter that steps once per block ---- */
static u32 rl32(u32 x, int n) { return (x << n) | (x >> (32 - n)); }
void chacha(int rounds, const u32 *st14, const u32 *ctr, u32 *out)
{
    u32 s[16], x[16]; memcpy(s, st14, 48); s[12] = ctr[0]; s[13] = ctr[1]; s[14] = st14[12]; s[15] = st14[13]; memcpy(x, s, 64);
#define QR(a,b,c,d) x[a]+=x[b];x[d]=rl32(x[d]^x[a],16);x[c]+=x[d];x[b]=rl32(x[b]^x[c],12);x[a]+=x[b];x[d]=rl32(x[d]^x[a],8);x[c]+=x[d];x[b]=rl32(x[b]^x[c],7);
    for (int r = 0; r < rounds / 2; ++r) { QR(0,4,8,12) QR(1,5,9,13) QR(2,6,10,14) QR(3,7,11,15) QR(0,5,10,15) QR(1,6,11,12) QR(2,7,8,13) QR(3,4,9,14) }
    for (int i = 0; i < 16; ++i) out[i] = x[i] + s[i];
}
static const u8 B2S[10][16] = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
    {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
    {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
static const u8 B2I[8][4] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
/* BLAKE2 compression with the second half of the work vector given */
void blake2s(u32 *h, const u32 *m, const u32 *iv)
{
    u32 v[16]; memcpy(v, h, 32); memcpy(v + 8, iv, 32);
    for (int r = 0; r < 10; ++r) for (int q = 0; q < 8; ++q) {
        u32 *a = v + B2I[q][0], *b = v + B2I[q][1], *c = v + B2I[q][2], *d = v + B2I[q][3];
        *a += *b + m[B2S[r][2 * q]]; *d = rl32(*d ^ *a, 16); *c += *d; *b = rl32(*b ^ *c, 20);
        *a += *b + m[B2S[r][2 * q + 1]]; *d = rl32(*d ^ *a, 24); *c += *d; *b = rl32(*b ^ *c, 25);
    }
    for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[i + 8];
}
void blake2b(u64 *h, const u64 *m, const u64 *iv)
{
    u64 v[16]; memcpy(v, h, 64); memcpy(v + 8, iv, 64);
    for (int r = 0; r < 12; ++r) for (int q = 0; q < 8; ++q) {
        u64 *a = v + B2I[q][0], *b = v + B2I[q][1], *c = v + B2I[q][2], *d = v + B2I[q][3];
        *a += *b + m[B2S[r % 10][2 * q]]; *d = ROL(*d ^ *a, 32); *c += *d; *b = ROL(*b ^ *c, 40);
        *a += *b + m[B2S[r % 10][2 * q + 1]]; *d = ROL(*d ^ *a, 48); *c += *d; *b = ROL(*b ^ *c, 1);
    }
    for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[i + 8];
}
void chacha20(const u8 *custom, const u8 *key, const u8 *iv, u64 ctr, u64 n, u8 *out)
{
    u32 s[16]; memcpy(s, custom, 16); memcpy(s + 4, key, 32); memcpy(s + 14, iv, 8);
    for (u64 b = 0; b < n; ++b, ++ctr, out += 64) {
        u32 x[16]; s[12] = (u32)ctr; s[13] = (u32)(ctr >> 32); memcpy(x, s, 64);
#define Q(a,b,c,d) x[a]+=x[b];x[d]=rl32(x[d]^x[a],16);x[c]+=x[d];x[b]=rl32(x[b]^x[c],12);x[a]+=x[b];x[d]=rl32(x[d]^x[a],8);x[c]+=x[d];x[b]=rl32(x[b]^x[c],7);
        for (int r = 0; r < 10; ++r) { Q(0,4,8,12) Q(1,5,9,13) Q(2,6,10,14) Q(3,7,11,15) Q(0,5,10,15) Q(1,6,11,12) Q(2,7,8,13) Q(3,4,9,14) }
        for (int i = 0; i < 16; ++i) x[i] += s[i];
        memcpy(out, x, 64);
    }
}
void csx512(const u8 *state, u64 c0, u64 c1, int rounds, u64 n, u8 *out)
{
    static const int R[8][4] = {{38,19,10,55},{33,4,51,13},{16,34,56,51},{4,53,42,41},{34,41,59,17},{23,31,37,20},{31,44,47,46},{12,47,44,30}};
    static const int I[8][4] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
    u64 s[16]; memcpy(s, state, 96); memcpy(s + 14, state + 96, 16);
    for (u64 b = 0; b < n; ++b, out += 128) {
        u64 x[16]; s[12] = c0; s[13] = c1; memcpy(x, s, 128);
        for (int r = 0; r < rounds / 2; ++r) for (int q = 0; q < 8; ++q) {
            u64 *A = x + I[q][0], *B = x + I[q][1], *C = x + I[q][2], *D = x + I[q][3];
            *A += *B; *D = ROL(*D ^ *A, R[q][0]); *C += *D; *B = ROL(*B ^ *C, R[q][1]);
            *A += *B; *D = ROL(*D ^ *A, R[q][2]); *C += *D; *B = ROL(*B ^ *C, R[q][3]);
        }
        for (int i = 0; i < 16; ++i) x[i] += s[i];
        memcpy(out, x, 128);
        if (++c0 == 0) ++c1;
    }
}
void tsx(int nw, int rounds, const u64 *key, const u64 *tweak, u64 c0, u64 c1, u64 n, u8 *out)
{
    u64 in[16], o[16];
    for (u64 b = 0; b < n; ++b, out += nw * 8) {
        for (int i = 2; i < nw; ++i) in[i] = ~0ULL;
        in[0] = c0; in[1] = c1;
        threefish(nw, rounds, key, tweak, in, o);
        memcpy(out, o, nw * 8);
        if (++c0 == 0) ++c1;
    }
}
void rijctr(const u8 *rk, int rounds, int nb, const u8 *nonce, u64 first, u64 n, u8 *out)
{
    u8 c[64]; sb_init(); memcpy(c, nonce, nb * 4);
    unsigned __int128 v; memcpy(&v, nonce, 16); v += first;
    for (u64 b = 0; b < n; ++b, ++v, out += nb * 4) { memcpy(c, &v, 16); rij_enc1(rk, rounds, nb, c, out); }
}
