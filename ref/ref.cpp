#include "ref.h"
#include <cstring>
#include <cmath>
namespace ref {
static inline uint32_t rotl(uint32_t x, int n) { return n ? (x << n) | (x >> (32 - n)) : x; }
static inline uint32_t rotr(uint32_t x, int n) { return rotl(x, (32 - n) & 31); }
static inline uint32_t le32(const uint8_t *p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static inline uint32_t be32(const uint8_t *p) { return (uint32_t)p[3] | (uint32_t)p[2] << 8 | (uint32_t)p[1] << 16 | (uint32_t)p[0] << 24; }
static inline void put_le32(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static inline void put_be32(uint8_t *p, uint32_t v) { p[3] = v; p[2] = v >> 8; p[1] = v >> 16; p[0] = v >> 24; }

std::string hex(const uint8_t *p, size_t n) {
  static const char *d = "0123456789abcdef"; std::string s;
  for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
  return s;
}
static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
bytes unhex(const char *s) {
  bytes r; int hi = -1;
  for (; *s; s++) { int v = hv(*s); if (v < 0) continue; if (hi < 0) hi = v; else { r.push_back(hi << 4 | v); hi = -1; } }
  return r;
}

// ------------------------------------------------------------------ AES
static uint8_t gmul8(uint8_t a, uint8_t b, unsigned poly) {
  unsigned r = 0, x = a;
  for (int i = 0; i < 8; i++) { if (b >> i & 1) r ^= x; x <<= 1; if (x & 0x100) x ^= poly; }
  return r;
}
struct aes_tables {
  uint8_t S[256]; uint32_t T[4][256];
  aes_tables() {
    for (int a = 0; a < 256; a++) {
      uint8_t inv = 0;
      for (int b = 1; b < 256 && a; b++) if (gmul8(a, b, 0x11b) == 1) { inv = b; break; }
      uint8_t s = 0;
      for (int i = 0; i < 8; i++)
        s |= ((inv >> i ^ inv >> ((i + 4) & 7) ^ inv >> ((i + 5) & 7) ^ inv >> ((i + 6) & 7) ^ inv >> ((i + 7) & 7) ^ 0x63 >> i) & 1) << i;
      S[a] = s;
    }
    for (int a = 0; a < 256; a++) {
      uint8_t s = S[a];
      uint32_t col = (uint32_t)gmul8(s, 2, 0x11b) | (uint32_t)s << 8 | (uint32_t)s << 16 | (uint32_t)gmul8(s, 3, 0x11b) << 24;
      for (int i = 0; i < 4; i++) T[i][a] = rotl(col, 8 * i);
    }
  }
};
static const aes_tables &AT() { static const aes_tables t; return t; }

static inline void round_t(const aes_tables &t, const uint32_t a[4], const uint32_t *rk, uint32_t o[4]) {
  for (int c = 0; c < 4; c++)
    o[c] = t.T[0][a[c] & 255] ^ t.T[1][a[(c + 1) & 3] >> 8 & 255] ^ t.T[2][a[(c + 2) & 3] >> 16 & 255] ^ t.T[3][a[(c + 3) & 3] >> 24] ^ rk[c];
}
aes128::aes128(const uint8_t key[16], int r) : rounds(r) {
  const aes_tables &t = AT();
  for (int i = 0; i < 4; i++) rk[i] = le32(key + 4 * i);
  uint8_t rc = 1;
  for (int i = 4; i < 44; i++) {
    uint32_t v = rk[i - 1];
    if (i % 4 == 0) {
      v = rotr(v, 8);
      v = (uint32_t)t.S[v & 255] | (uint32_t)t.S[v >> 8 & 255] << 8 | (uint32_t)t.S[v >> 16 & 255] << 16 | (uint32_t)t.S[v >> 24] << 24;
      v ^= rc; rc = gmul8(rc, 2, 0x11b);
    }
    rk[i] = rk[i - 4] ^ v;
  }
}
void aes128::encrypt(const uint8_t in[16], uint8_t out[16]) const {
  const aes_tables &t = AT();
  uint32_t a[4], b[4];
  for (int i = 0; i < 4; i++) a[i] = le32(in + 4 * i) ^ rk[i];
  for (int r = 11 - rounds; r < 10; r++) { round_t(t, a, rk + 4 * r, b); memcpy(a, b, 16); }
  for (int c = 0; c < 4; c++) {
    uint32_t v = (uint32_t)t.S[a[c] & 255] | (uint32_t)t.S[a[(c + 1) & 3] >> 8 & 255] << 8 | (uint32_t)t.S[a[(c + 2) & 3] >> 16 & 255] << 16 |
                 (uint32_t)t.S[a[(c + 3) & 3] >> 24] << 24;
    put_le32(out + 4 * c, v ^ rk[40 + c]);
  }
}
void aes_round(const uint8_t in[16], const uint8_t k[16], uint8_t out[16]) {
  uint32_t a[4], b[4], rk[4];
  for (int i = 0; i < 4; i++) { a[i] = le32(in + 4 * i); rk[i] = le32(k + 4 * i); }
  round_t(AT(), a, rk, b);
  for (int i = 0; i < 4; i++) put_le32(out + 4 * i, b[i]);
}
// second, byte-wise formulation used only by the self test to validate the first
void aes_encrypt_slow(const uint8_t key[16], const uint8_t in[16], uint8_t out[16]) {
  const aes_tables &t = AT();
  uint8_t w[176]; memcpy(w, key, 16); uint8_t rc = 1;
  for (int i = 16; i < 176; i += 4) {
    uint8_t v[4]; memcpy(v, w + i - 4, 4);
    if (i % 16 == 0) { uint8_t x = v[0]; v[0] = t.S[v[1]] ^ rc; v[1] = t.S[v[2]]; v[2] = t.S[v[3]]; v[3] = t.S[x]; rc = gmul8(rc, 2, 0x11b); }
    for (int j = 0; j < 4; j++) w[i + j] = w[i - 16 + j] ^ v[j];
  }
  uint8_t s[16], u[16];
  for (int i = 0; i < 16; i++) s[i] = in[i] ^ w[i];
  for (int r = 1; r <= 10; r++) {
    for (int c = 0; c < 4; c++) for (int j = 0; j < 4; j++) u[4 * c + j] = t.S[s[4 * ((c + j) & 3) + j]];
    if (r < 10)
      for (int c = 0; c < 4; c++) for (int j = 0; j < 4; j++)
        s[4 * c + j] = gmul8(u[4 * c + j], 2, 0x11b) ^ gmul8(u[4 * c + ((j + 1) & 3)], 3, 0x11b) ^ u[4 * c + ((j + 2) & 3)] ^ u[4 * c + ((j + 3) & 3)];
    else memcpy(s, u, 16);
    for (int i = 0; i < 16; i++) s[i] ^= w[16 * r + i];
  }
  memcpy(out, s, 16);
}
aes_ctr::aes_ctr(const uint8_t key[16], const uint8_t n[12], int rounds) : k(key, rounds), ctr(1) { memcpy(nonce, n, 12); }
void aes_ctr::keystream_at(uint32_t c, uint8_t ks[16]) const {
  uint8_t b[16]; memcpy(b, nonce, 12); put_be32(b + 12, c); k.encrypt(b, ks);
}
void aes_ctr::packet(const uint8_t *in, uint8_t *out, size_t n) {
  uint8_t ks[16];
  for (size_t i = 0; i < n; i++) { if (i % 16 == 0) keystream_at(ctr++, ks); out[i] = in[i] ^ ks[i % 16]; }
}

// ------------------------------------------------------------------ AEGIS-128
struct aegis { uint8_t s[5][16];
  void upd(const uint8_t m[16]) {
    uint8_t n[5][16], k[16];
    for (int i = 0; i < 5; i++) {
      memcpy(k, s[i], 16);
      if (i == 0) for (int j = 0; j < 16; j++) k[j] ^= m[j];
      aes_round(s[(i + 4) % 5], k, n[i]);
    }
    memcpy(s, n, sizeof s);
  } };
void aegis128_encrypt(const uint8_t key[16], const uint8_t iv[16], const uint8_t *ad, size_t adlen, const uint8_t *pt, size_t n, uint8_t *ct, uint8_t tag[16]) {
  uint8_t cst[32]; // Fibonacci sequence modulo 256
  { unsigned a = 0, b = 1; for (int i = 0; i < 32; i++) { cst[i] = a; unsigned t = (a + b) & 255; a = b; b = t; } }
  aegis g; uint8_t ki[16];
  for (int j = 0; j < 16; j++) { ki[j] = key[j] ^ iv[j]; g.s[0][j] = ki[j]; g.s[1][j] = cst[16 + j]; g.s[2][j] = cst[j]; g.s[3][j] = key[j] ^ cst[j]; g.s[4][j] = key[j] ^ cst[16 + j]; }
  for (int i = 0; i < 10; i++) g.upd(i % 2 ? ki : key);
  for (size_t i = 0; i < adlen; i += 16) { uint8_t b[16] = {0}; memcpy(b, ad + i, adlen - i < 16 ? adlen - i : 16); g.upd(b); }
  for (size_t i = 0; i < n; i += 16) {
    uint8_t b[16] = {0}; size_t l = n - i < 16 ? n - i : 16; memcpy(b, pt + i, l);
    for (size_t j = 0; j < l; j++) ct[i + j] = b[j] ^ g.s[1][j] ^ g.s[4][j] ^ (g.s[2][j] & g.s[3][j]);
    g.upd(b);
  }
  uint8_t t[16]; uint64_t la = (uint64_t)adlen * 8, lm = (uint64_t)n * 8;
  for (int j = 0; j < 8; j++) { t[j] = g.s[3][j] ^ (uint8_t)(la >> 8 * j); t[8 + j] = g.s[3][8 + j] ^ (uint8_t)(lm >> 8 * j); }
  for (int i = 0; i < 7; i++) g.upd(t);
  for (int j = 0; j < 16; j++) tag[j] = g.s[0][j] ^ g.s[1][j] ^ g.s[2][j] ^ g.s[3][j] ^ g.s[4][j];
}

// ------------------------------------------------------------------ ChaCha
static inline void qr(uint32_t &a, uint32_t &b, uint32_t &c, uint32_t &d) {
  a += b; d = rotl(d ^ a, 16); c += d; b = rotl(b ^ c, 12); a += b; d = rotl(d ^ a, 8); c += d; b = rotl(b ^ c, 7);
}
void chacha_block(const uint8_t key[32], uint32_t counter, const uint8_t nonce[12], int rounds, uint8_t out[64]) {
  uint32_t s[16], x[16];
  const char *sigma = "expand 32-byte k";
  for (int i = 0; i < 4; i++) s[i] = le32((const uint8_t *)sigma + 4 * i);
  for (int i = 0; i < 8; i++) s[4 + i] = le32(key + 4 * i);
  s[12] = counter; for (int i = 0; i < 3; i++) s[13 + i] = le32(nonce + 4 * i);
  memcpy(x, s, 64);
  for (int r = 0; r < rounds; r++) {
    int o = r & 1; // even: columns, odd: diagonals
    for (int c = 0; c < 4; c++) qr(x[c], x[4 + ((c + o) & 3)], x[8 + ((c + 2 * o) & 3)], x[12 + ((c + 3 * o) & 3)]);
  }
  for (int i = 0; i < 16; i++) put_le32(out + 4 * i, x[i] + s[i]);
}
void chacha_xor(const uint8_t key[32], const uint8_t nonce[12], uint32_t c, int rounds, const uint8_t *in, uint8_t *out, size_t n) {
  uint8_t ks[64];
  for (size_t i = 0; i < n; i++) { if (i % 64 == 0) chacha_block(key, c++, nonce, rounds, ks); out[i] = in[i] ^ ks[i % 64]; }
}

// ------------------------------------------------------------------ HC-128
hc128::hc128(const uint8_t key[16], const uint8_t iv[16]) {
  static thread_local uint32_t W[1280];
  for (int i = 0; i < 8; i++) { W[i] = le32(key + 4 * (i & 3)); W[8 + i] = le32(iv + 4 * (i & 3)); }
  for (uint32_t i = 16; i < 1280; i++) {
    uint32_t a = W[i - 2], b = W[i - 15];
    W[i] = (rotr(a, 17) ^ rotr(a, 19) ^ a >> 10) + W[i - 7] + (rotr(b, 7) ^ rotr(b, 18) ^ b >> 3) + W[i - 16] + i;
  }
  for (int i = 0; i < 512; i++) { P[i] = W[256 + i]; Q[i] = W[768 + i]; }
  cnt = 0;
  for (int i = 0; i < 512; i++) P[i] = next();
  for (int i = 0; i < 512; i++) Q[i] = next();
  cnt = 0;
}
uint32_t hc128::next() {
  uint32_t j = cnt & 511; bool p = (cnt & 1023) < 512; cnt = (cnt + 1) & 1023;
  uint32_t *A = p ? P : Q, *B = p ? Q : P;
  uint32_t x = A[(j + 509) & 511], y = A[(j + 502) & 511], z = A[(j + 1) & 511];
  if (p) A[j] += (rotr(x, 10) ^ rotr(z, 23)) + rotr(y, 8);
  else A[j] += (rotl(x, 10) ^ rotl(z, 23)) + rotl(y, 8);
  uint32_t w = A[(j + 500) & 511];
  return (B[w & 255] + B[256 + (w >> 16 & 255)]) ^ A[j];
}
void hc128::packet(const uint8_t *in, uint8_t *out, size_t n) {
  uint8_t ks[4];
  for (size_t i = 0; i < n; i++) { if (i % 4 == 0) put_le32(ks, next()); out[i] = in[i] ^ ks[i % 4]; }
}

// ------------------------------------------------------------------ Rabbit
void rabbit::step() {
  static const uint32_t A[8] = {0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3};
  for (int j = 0; j < 8; j++) { uint64_t t = (uint64_t)C[j] + A[j] + b; b = t >> 32; C[j] = (uint32_t)t; }
  uint32_t G[8];
  for (int j = 0; j < 8; j++) { uint64_t u = (uint32_t)(X[j] + C[j]); u *= u; G[j] = (uint32_t)u ^ (uint32_t)(u >> 32); }
  for (int j = 0; j < 8; j++)
    X[j] = j % 2 ? G[j] + rotl(G[(j + 7) & 7], 8) + G[(j + 6) & 7] : G[j] + rotl(G[(j + 7) & 7], 16) + rotl(G[(j + 6) & 7], 16);
}
rabbit::rabbit(const uint8_t key[16]) {
  uint32_t K[8]; for (int i = 0; i < 8; i++) K[i] = key[2 * i] | key[2 * i + 1] << 8;
  for (int j = 0; j < 8; j++)
    if (j % 2 == 0) { X[j] = K[(j + 1) & 7] << 16 | K[j]; C[j] = K[(j + 4) & 7] << 16 | K[(j + 5) & 7]; }
    else { X[j] = K[(j + 5) & 7] << 16 | K[(j + 4) & 7]; C[j] = K[j] << 16 | K[(j + 1) & 7]; }
  b = 0;
  for (int i = 0; i < 4; i++) step();
  for (int j = 0; j < 8; j++) C[j] ^= X[(j + 4) & 7];
  memcpy(MX, X, 32); memcpy(MC, C, 32); Mb = b;
}
void rabbit::iv(const uint8_t v[8]) {
  uint32_t w[4]; for (int i = 0; i < 4; i++) w[i] = v[2 * i] | v[2 * i + 1] << 8;
  memcpy(X, MX, 32); b = Mb;
  uint32_t i0 = w[1] << 16 | w[0], i1 = w[3] << 16 | w[1], i2 = w[3] << 16 | w[2], i3 = w[2] << 16 | w[0];
  uint32_t x[4] = {i0, i1, i2, i3};
  for (int j = 0; j < 8; j++) C[j] = MC[j] ^ x[j & 3];
  for (int i = 0; i < 4; i++) step();
}
void rabbit::block(uint8_t o[16]) {
  step();
  for (int i = 0; i < 4; i++) { // bits 32i..32i+31
    uint32_t lo = (X[2 * i] & 0xffff) ^ X[(2 * i + 5) & 7] >> 16, hi = X[2 * i] >> 16 ^ (X[(2 * i + 3) & 7] & 0xffff);
    put_le32(o + 4 * i, lo | hi << 16);
  }
}
void rabbit::packet(const uint8_t *in, uint8_t *out, size_t n) {
  uint8_t ks[16];
  for (size_t i = 0; i < n; i++) { if (i % 16 == 0) block(ks); out[i] = in[i] ^ ks[i % 16]; }
}

// ------------------------------------------------------------------ Serpent / Sosemanuk
static const uint8_t SB[8][16] = {
    {3, 8, 15, 1, 10, 6, 5, 11, 14, 13, 4, 2, 7, 0, 9, 12}, {15, 12, 2, 7, 9, 0, 5, 10, 1, 11, 14, 8, 6, 13, 3, 4},
    {8, 6, 7, 9, 3, 12, 10, 15, 13, 1, 14, 4, 0, 11, 5, 2}, {0, 15, 11, 8, 12, 9, 6, 3, 13, 1, 2, 4, 10, 7, 5, 14},
    {1, 15, 8, 3, 12, 0, 11, 6, 2, 5, 4, 10, 9, 14, 7, 13}, {15, 5, 2, 11, 4, 10, 9, 12, 0, 3, 14, 8, 13, 6, 7, 1},
    {7, 2, 12, 5, 8, 4, 6, 11, 14, 9, 1, 15, 13, 3, 10, 0}, {1, 13, 15, 0, 14, 8, 2, 11, 7, 4, 12, 10, 9, 3, 5, 6}};
void serpent_sbox_bitslice(int box, uint32_t x[4]) {
  uint32_t y[4] = {0, 0, 0, 0};
  for (int i = 0; i < 32; i++) {
    int v = (x[0] >> i & 1) | (x[1] >> i & 1) << 1 | (x[2] >> i & 1) << 2 | (x[3] >> i & 1) << 3;
    int o = SB[box][v];
    for (int j = 0; j < 4; j++) y[j] |= (uint32_t)(o >> j & 1) << i;
  }
  memcpy(x, y, 16);
}
serpent::serpent(const uint8_t *key, size_t n) {
  uint8_t k[32] = {0}; if (n > 32) n = 32;
  memcpy(k, key, n); if (n < 32) k[n] = 1;
  uint32_t w[140]; for (int i = 0; i < 8; i++) w[i] = le32(k + 4 * i);
  for (uint32_t i = 8; i < 140; i++) w[i] = rotl(w[i - 8] ^ w[i - 5] ^ w[i - 3] ^ w[i - 1] ^ 0x9e3779b9u ^ (i - 8), 11);
  for (int r = 0; r < 33; r++) { for (int j = 0; j < 4; j++) rk[r][j] = w[8 + 4 * r + j]; serpent_sbox_bitslice((35 - r) % 8, rk[r]); }
}
static void slt(uint32_t x[4]) {
  x[0] = rotl(x[0], 13); x[2] = rotl(x[2], 3); x[1] ^= x[0] ^ x[2]; x[3] ^= x[2] ^ x[0] << 3;
  x[1] = rotl(x[1], 1); x[3] = rotl(x[3], 7); x[0] ^= x[1] ^ x[3]; x[2] ^= x[3] ^ x[1] << 7;
  x[0] = rotl(x[0], 5); x[2] = rotl(x[2], 22);
}
void sosemanuk::serpent24(const serpent &k, const uint8_t iv[16], uint32_t a[4], uint32_t b[4], uint32_t c[4]) {
  uint32_t x[4]; for (int i = 0; i < 4; i++) x[i] = le32(iv + 4 * i);
  for (int r = 0; r < 24; r++) {
    for (int j = 0; j < 4; j++) x[j] ^= k.rk[r][j];
    serpent_sbox_bitslice(r % 8, x); slt(x);
    if (r == 11) memcpy(a, x, 16);
    if (r == 17) memcpy(b, x, 16);
  }
  for (int j = 0; j < 4; j++) c[j] = x[j] ^ k.rk[24][j];
}
// beta: root of X^8+X^7+X^5+X^3+1 over GF(2)
static uint8_t beta_pow(unsigned e) { unsigned r = 1; e %= 255; while (e--) { r <<= 1; if (r & 0x100) r ^= 0x1a9; } return r; }
static uint32_t mul_alpha_top(uint8_t c) {
  static uint32_t T[256]; static bool init = ([] { for (int v = 0; v < 256; v++) {
    const unsigned e[4] = {239, 48, 245, 23}; uint32_t r = 0; // coefficients of 1, X, X^2, X^3
    for (int i = 0; i < 4; i++) r |= (uint32_t)gmul8(v, beta_pow(e[i]), 0x1a9) << 8 * i;
    T[v] = r; } }(), true); (void)init;
  return T[c];
}
static uint32_t mul_alpha(uint32_t x) { return x << 8 ^ mul_alpha_top(x >> 24); }
static uint32_t div_alpha(uint32_t x) {
  // y with alpha*y == x:  y = x>>8 ^ (c<<24 contribution); find c s.t. low byte matches
  static uint32_t T[256]; static bool init = ([] { for (int c = 0; c < 256; c++) { uint32_t t = mul_alpha_top(c); T[t & 255] = (uint32_t)c << 24 ^ t >> 8; } }(), true); (void)init;
  return x >> 8 ^ T[x & 255];
}
void sosemanuk::iv(const uint8_t v[16]) {
  uint32_t a[4], b[4], c[4]; serpent24(k, v, a, b, c);
  // s[0] = s_1 ... s[9] = s_10
  s[9] = a[0]; s[8] = a[1]; s[7] = a[2]; s[6] = a[3];
  s[5] = b[3]; s[4] = b[1]; r1 = b[0]; r2 = b[2];
  s[3] = c[0]; s[2] = c[1]; s[1] = c[2]; s[0] = c[3];
}
void sosemanuk::block(uint8_t o[16]) {
  uint32_t f[4], z[4];
  for (int i = 0; i < 4; i++) {
    uint32_t or1 = r1;
    r1 = r2 + (or1 & 1 ? s[1] ^ s[8] : s[1]);
    r2 = rotl(0x54655307u * or1, 7);
    f[i] = (s[9] + r1) ^ r2;
    z[i] = s[0];
    uint32_t n = s[9] ^ div_alpha(s[3]) ^ mul_alpha(s[0]);
    memmove(s, s + 1, 36); s[9] = n;
  }
  serpent_sbox_bitslice(2, f);
  for (int i = 0; i < 4; i++) put_le32(o + 4 * i, z[i] ^ f[i]);
}
void sosemanuk::packet(const uint8_t *in, uint8_t *out, size_t n) {
  uint8_t ks[16];
  for (size_t i = 0; i < n; i++) { if (i % 16 == 0) block(ks); out[i] = in[i] ^ ks[i % 16]; }
}

// ------------------------------------------------------------------ SHA-256
static uint32_t K256[64], H256[8];
static bool sha_init() {
  static bool done = ([] {
    int n = 0;
    for (int p = 2; n < 64; p++) {
      bool pr = true; for (int d = 2; d * d <= p; d++) if (p % d == 0) pr = false;
      if (!pr) continue;
      // floor(frac(root) * 2^32) by integer search: exact
      typedef unsigned __int128 u128;
      auto root = [&](int k) { // floor( p^(1/k) * 2^32 )
        uint64_t lo = 0, hi = (uint64_t)1 << 40;
        while (hi - lo > 1) { uint64_t m = lo + (hi - lo) / 2; bool le;
          if (k == 2) le = (u128)m * m <= ((u128)p << 64);
          else { // m^3 <= p << 96
            u128 q = (u128)m * m; u128 h = (q >> 64) * m, l = (u128)(uint64_t)q * m; h += l >> 64; // m^3 = h*2^64 + low64(l)
            u128 rh = (u128)p << 32; le = h < rh || (h == rh && (uint64_t)l == 0); }
          if (le) lo = m; else hi = m; }
        return (uint32_t)lo; };
      K256[n] = root(3); if (n < 8) H256[n] = root(2); n++;
    } }(), true);
  return done;
}
static void sha_block(uint32_t h[8], const uint8_t *p) {
  uint32_t w[64];
  for (int i = 0; i < 16; i++) w[i] = be32(p + 4 * i);
  for (int i = 16; i < 64; i++) { uint32_t a = w[i - 15], b = w[i - 2]; w[i] = w[i - 16] + (rotr(a, 7) ^ rotr(a, 18) ^ a >> 3) + w[i - 7] + (rotr(b, 17) ^ rotr(b, 19) ^ b >> 10); }
  uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], x = h[7];
  for (int i = 0; i < 64; i++) {
    uint32_t t1 = x + (rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25)) + ((e & f) ^ (~e & g)) + K256[i] + w[i];
    uint32_t t2 = (rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
    x = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += x;
}
sha256::sha256() : len(0) { sha_init(); memcpy(h, H256, 32); }
void sha256::update(const uint8_t *p, size_t n) {
  while (n) {
    size_t o = len & 63;
    if (o == 0 && n >= 64) { sha_block(h, p); p += 64; n -= 64; len += 64; continue; }
    size_t l = 64 - o < n ? 64 - o : n; memcpy(buf + o, p, l); p += l; n -= l; len += l;
    if ((len & 63) == 0) sha_block(h, buf);
  }
}
void sha256::final(uint8_t out[32]) {
  uint64_t bits = len * 8; uint8_t z = 0x80; update(&z, 1); z = 0; while ((len & 63) != 56) update(&z, 1);
  uint8_t l[8]; put_be32(l, bits >> 32); put_be32(l + 4, (uint32_t)bits); update(l, 8);
  for (int i = 0; i < 8; i++) put_be32(out + 4 * i, h[i]);
}
void sha256_once(const uint8_t *p, size_t n, uint8_t o[32]) { sha256 s; s.update(p, n); s.final(o); }
void hmac_sha256(const uint8_t *key, size_t kl, const uint8_t *p, size_t n, uint8_t out[32]) {
  uint8_t k[64] = {0}, x[64], in[32];
  if (kl > 64) sha256_once(key, kl, k); else if (kl) memcpy(k, key, kl);
  for (int i = 0; i < 64; i++) x[i] = k[i] ^ 0x36;
  sha256 a; a.update(x, 64); a.update(p, n); a.final(in);
  for (int i = 0; i < 64; i++) x[i] = k[i] ^ 0x5c;
  sha256 b; b.update(x, 64); b.update(in, 32); b.final(out);
}

// ------------------------------------------------------------------ MD5
static void md5_block(uint32_t h[4], const uint8_t *p) {
  static uint32_t T[64]; static bool init = ([] { for (int i = 0; i < 64; i++) T[i] = (uint32_t)(int64_t)std::floor(std::fabs(std::sin((double)(i + 1))) * 4294967296.0); }(), true); (void)init;
  static const int R[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  uint32_t x[16]; for (int i = 0; i < 16; i++) x[i] = le32(p + 4 * i);
  uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
  for (int i = 0; i < 64; i++) {
    uint32_t f; int g;
    switch (i / 16) {
      case 0: f = (b & c) | (~b & d); g = i; break;
      case 1: f = (d & b) | (~d & c); g = (5 * i + 1) & 15; break;
      case 2: f = b ^ c ^ d; g = (3 * i + 5) & 15; break;
      default: f = c ^ (b | ~d); g = (7 * i) & 15;
    }
    uint32_t t = d; d = c; c = b; b = b + rotl(a + f + T[i] + x[g], R[i / 16][i & 3]); a = t;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d;
}
md5::md5() : len(0) { h[0] = 0x67452301; h[1] = 0xefcdab89; h[2] = 0x98badcfe; h[3] = 0x10325476; }
void md5::update(const uint8_t *p, size_t n) {
  while (n) {
    size_t o = len & 63;
    if (o == 0 && n >= 64) { md5_block(h, p); p += 64; n -= 64; len += 64; continue; }
    size_t l = 64 - o < n ? 64 - o : n; memcpy(buf + o, p, l); p += l; n -= l; len += l;
    if ((len & 63) == 0) md5_block(h, buf);
  }
}
void md5::final(uint8_t out[16]) {
  uint64_t bits = len * 8; uint8_t z = 0x80; update(&z, 1); z = 0; while ((len & 63) != 56) update(&z, 1);
  uint8_t l[8]; for (int i = 0; i < 8; i++) l[i] = bits >> 8 * i;
  update(l, 8);
  for (int i = 0; i < 4; i++) put_le32(out + 4 * i, h[i]);
}

// ------------------------------------------------------------------ DES, straight from the FIPS 46-3 tables (1-based, MSB first)
static const uint8_t IPt[64] = {58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7};
static const uint8_t FPt[64] = {40,8,48,16,56,24,64,32,39,7,47,15,55,23,63,31,38,6,46,14,54,22,62,30,37,5,45,13,53,21,61,29,36,4,44,12,52,20,60,28,35,3,43,11,51,19,59,27,34,2,42,10,50,18,58,26,33,1,41,9,49,17,57,25};
static const uint8_t Et[48] = {32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1};
static const uint8_t Pt[32] = {16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25};
static const uint8_t PC1[56] = {57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4};
static const uint8_t PC2[48] = {14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32};
static const uint8_t DS[8][64] = {
 {14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13},
 {15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9},
 {10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12},
 {7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14},
 {2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3},
 {12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13},
 {4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12},
 {13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11}};
static uint64_t perm(uint64_t v, int inbits, const uint8_t *t, int n) { uint64_t r = 0; for (int i = 0; i < n; i++) r = r << 1 | (v >> (inbits - t[i]) & 1); return r; }
des::des(const uint8_t key[8]) {
  uint64_t k = 0; for (int i = 0; i < 8; i++) k = k << 8 | key[i];
  uint64_t cd = perm(k, 64, PC1, 56); uint32_t c = cd >> 28, d = cd & 0xfffffff;
  for (int r = 0; r < 16; r++) {
    int n = (r == 0 || r == 1 || r == 8 || r == 15) ? 1 : 2;
    c = (c << n | c >> (28 - n)) & 0xfffffff; d = (d << n | d >> (28 - n)) & 0xfffffff;
    sk[r] = perm((uint64_t)c << 28 | d, 56, PC2, 48);
  }
}
uint64_t des::crypt(uint64_t b, bool dec) const {
  b = perm(b, 64, IPt, 64); uint32_t L = b >> 32, R = (uint32_t)b;
  for (int r = 0; r < 16; r++) {
    uint64_t e = perm(R, 32, Et, 48) ^ sk[dec ? 15 - r : r]; uint32_t s = 0;
    for (int i = 0; i < 8; i++) { int v = e >> (42 - 6 * i) & 63; s = s << 4 | DS[i][((v >> 4 & 2) | (v & 1)) * 16 + (v >> 1 & 15)]; }
    uint32_t f = (uint32_t)perm(s, 32, Pt, 32), t = L ^ f; L = R; R = t;
  }
  return perm((uint64_t)R << 32 | L, 64, FPt, 64);
}

// ------------------------------------------------------------------ published vectors
#define CHK(name, got, n, want) do { if (hex(got, n) != hex(unhex(want).data(), unhex(want).size())) return std::string(name) + " got " + hex(got, n); } while (0)
std::string selftest() {
  uint8_t o[512], z[512] = {0}; bytes k, v, p;
  k = unhex("000102030405060708090a0b0c0d0e0f"); p = unhex("00112233445566778899aabbccddeeff");
  aes128(k.data()).encrypt(p.data(), o); CHK("FIPS197 C.1", o, 16, "69c4e0d86a7b0430d8cdb78070b4c55a");
  { uint32_t seed = 1; for (int i = 0; i < 200; i++) { uint8_t kk[16], in[16], a[16], b[16]; for (int j = 0; j < 16; j++) { seed = seed * 1664525 + 1013904223; kk[j] = seed >> 24; seed = seed * 1664525 + 1013904223; in[j] = seed >> 24; }
      aes128(kk).encrypt(in, a); aes_encrypt_slow(kk, in, b); if (memcmp(a, b, 16)) return "aes fast/slow"; } }
  // RFC 3686 vector 2 (nonce||iv as 12 bytes, counter from 1)
  k = unhex("7E24067817FAE0D743D6CE1F32539163"); v = unhex("006CB6DBC0543B59DA48D90B");
  { aes_ctr c(k.data(), v.data()); for (int i = 0; i < 32; i++) z[i] = i; c.packet(z, o, 32); CHK("RFC3686 #2", o, 32, "5104A106168A72D9790D41EE8EDAD388EB2E1EFC46DA57C8FCE630DF9141BE28"); memset(z, 0, 32); }
  { uint8_t t[16]; aegis128_encrypt(z, z, z, 0, z, 16, o, t); CHK("AEGIS-128 #1 ct", o, 16, "951b050fa72b1a2fc16d2e1f01b07d7e"); CHK("AEGIS-128 #1 tag", t, 16, "a7d2a99773249542f422217ee888d5f1");
    aegis128_encrypt(z, z, z, 16, z, 16, o, t); CHK("AEGIS-128 #2 ct", o, 16, "10b0dee65a97d751205c128a992473a1"); CHK("AEGIS-128 #2 tag", t, 16, "46dcb9ee93c46cf13731d41b9646c131"); }
  // RFC 7539 2.3.2 and 2.4.2
  for (int i = 0; i < 32; i++) z[i] = i;
  v = unhex("000000090000004a00000000"); chacha_block(z, 1, v.data(), 20, o);
  CHK("RFC7539 2.3.2", o, 64, "10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e");
  memset(z, 0, 64);
  chacha_block(z, 0, z, 8, o); CHK("ChaCha8 zero", o, 16, "3e00ef2f895f40d67f5bb8e81f09a5a1");
  chacha_block(z, 0, z, 12, o); CHK("ChaCha12 zero", o, 16, "9bf49a6a0755f953811fce125f2683d5");
  { hc128 h(z, z); h.packet(z, o, 32); CHK("HC-128 zero", o, 32, "82001573a003fd3b7fd72ffb0eaf63aac62f12deb629dca72785a66268ec758b"); }
  // RFC 4503 appendix A; each 16-byte block byte-reversed (the RFC prints I2OSP big-endian integers)
  { rabbit r(z); r.packet(z, o, 48); CHK("Rabbit key 0", o, 48, "02f74a1c26456bf5ecd6a536f05457b1a78ac689476c697b390c9cc515d8e88896d6731688d168da51d40c70c3a116f4");
    rabbit q(z); q.iv(z); q.packet(z, o, 48); CHK("Rabbit iv 0", o, 48, "edb70567375dcd7cd89554f85e27a7c68d4adc7032298f7bd4eff504aca6295f668fbf478adb2be51e6cde292b82de2a"); }
  { k = unhex("a7c083feb7"); v = unhex("00112233445566778899aabbccddeeff"); sosemanuk s(k.data(), k.size()); s.iv(v.data()); s.packet(z, o, 32); CHK("SOSEMANUK", o, 32, "fe81d2162c9a100d04895c454a77515bbe6a431a935cb90e2221ebb7ef502328"); }
  sha256_once((const uint8_t *)"abc", 3, o); CHK("SHA-256 abc", o, 32, "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
  hmac_sha256((const uint8_t *)"Jefe", 4, (const uint8_t *)"what do ya want for nothing?", 28, o); CHK("RFC4231 #2", o, 32, "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843");
  { md5 m; m.update((const uint8_t *)"message digest", 14); m.final(o); CHK("MD5", o, 16, "f96b697d7cb7938d525a2f31aaf161d0"); }
  { k = unhex("133457799BBCDFF1"); uint64_t c = des(k.data()).crypt(0x0123456789ABCDEFull, false); if (c != 0x85E813540F0AB405ull) return "DES"; if (des(k.data()).crypt(c, true) != 0x0123456789ABCDEFull) return "DES^-1"; }
  return "";
}
}
