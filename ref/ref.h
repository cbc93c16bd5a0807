// Independent reference models ("oracles").  Nothing here is taken from the
// code under test: every table is derived at start-up from its mathematical
// definition, every algorithm is written from its specification.  ref_selftest()
// compares them with published vectors before any of them is trusted.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>

namespace ref {
typedef std::vector<uint8_t> bytes;

// ---------------------------------------------------------------- AES (FIPS 197)
// rounds==10: AES-128.  rounds==6: the documented round-reduced variant: initial
// key addition, then round keys 5..9, then the final round with round key 10.
struct aes128 {
  uint32_t rk[44];
  int rounds;
  explicit aes128(const uint8_t key[16], int rounds_ = 10);
  void encrypt(const uint8_t in[16], uint8_t out[16]) const;
};
void aes_round(const uint8_t in[16], const uint8_t rk[16], uint8_t out[16]); // one full round (AEGIS)
void aes_encrypt_slow(const uint8_t key[16], const uint8_t in[16], uint8_t out[16]); // byte-wise FIPS 197 text

// CTR: 96-bit nonce, 32-bit big-endian counter starting at 1; a packet's unused
// keystream is discarded (every packet starts on a fresh counter block).
struct aes_ctr {
  aes128 k; uint8_t nonce[12]; uint32_t ctr;
  aes_ctr(const uint8_t key[16], const uint8_t n[12], int rounds = 10);
  void packet(const uint8_t *in, uint8_t *out, size_t n);
  void keystream_at(uint32_t c, uint8_t ks[16]) const;
};

// ---------------------------------------------------------------- AEGIS-128 (CAESAR v1.1)
void aegis128_encrypt(const uint8_t key[16], const uint8_t iv[16], const uint8_t *ad, size_t adlen,
                      const uint8_t *pt, size_t n, uint8_t *ct, uint8_t tag[16]);

// ---------------------------------------------------------------- ChaCha (RFC 7539)
void chacha_block(const uint8_t key[32], uint32_t counter, const uint8_t nonce[12], int rounds, uint8_t out[64]);
void chacha_xor(const uint8_t key[32], const uint8_t nonce[12], uint32_t counter0, int rounds,
                const uint8_t *in, uint8_t *out, size_t n);

// ---------------------------------------------------------------- HC-128
struct hc128 {
  uint32_t P[512], Q[512]; uint32_t cnt;
  hc128(const uint8_t key[16], const uint8_t iv[16]);
  uint32_t next();
  void packet(const uint8_t *in, uint8_t *out, size_t n); // word granular: rest of the last word is discarded
};

// ---------------------------------------------------------------- Rabbit (RFC 4503), little-endian byte strings
struct rabbit {
  uint32_t X[8], C[8], MX[8], MC[8]; uint32_t b, Mb;
  explicit rabbit(const uint8_t key[16]);
  void iv(const uint8_t iv[8]);
  void block(uint8_t out[16]);
  void packet(const uint8_t *in, uint8_t *out, size_t n); // block granular
  void step();
};

// ---------------------------------------------------------------- Serpent-24 / Sosemanuk
struct serpent {
  uint32_t rk[33][4];
  serpent(const uint8_t *key, size_t keylen);
};
struct sosemanuk {
  serpent k; uint32_t s[10], r1, r2;
  sosemanuk(const uint8_t *key, size_t keylen) : k(key, keylen), s(), r1(0), r2(0) {}
  void iv(const uint8_t iv[16]);
  void block(uint8_t out[16]);
  void packet(const uint8_t *in, uint8_t *out, size_t n); // block granular
  // output of Serpent rounds 12, 18 and 24 as 12 words
  static void serpent24(const serpent &k, const uint8_t iv[16], uint32_t r12[4], uint32_t r18[4], uint32_t r24[4]);
};
void serpent_sbox_bitslice(int box, uint32_t x[4]);

// ---------------------------------------------------------------- hashes
struct sha256 {
  uint32_t h[8]; uint8_t buf[64]; uint64_t len;
  sha256(); void update(const uint8_t *p, size_t n); void final(uint8_t out[32]);
};
void sha256_once(const uint8_t *p, size_t n, uint8_t out[32]);
void hmac_sha256(const uint8_t *key, size_t kl, const uint8_t *p, size_t n, uint8_t out[32]);
struct md5 {
  uint32_t h[4]; uint8_t buf[64]; uint64_t len;
  md5(); void update(const uint8_t *p, size_t n); void final(uint8_t out[16]);
};

// ---------------------------------------------------------------- DES (FIPS 46-3, bit-by-bit from the printed tables)
struct des {
  uint64_t sk[16];
  explicit des(const uint8_t key[8]);
  uint64_t crypt(uint64_t block, bool decrypt) const;
};

std::string hex(const uint8_t *p, size_t n);
bytes unhex(const char *s);

// published vectors; returns "" or the name of the failing one
std::string selftest();
}
