// Valid Joye-Libert keys built by the harness itself (independently of the library's key generator).
#pragma once
#include <gmp.h>
struct Z { mpz_t z; Z() { mpz_init(z); } Z(const Z &o) { mpz_init_set(z, o.z); } Z &operator=(const Z &o) { mpz_set(z, o.z); return *this; } ~Z() { mpz_clear(z); } operator mpz_ptr() { return z; } operator mpz_srcptr() const { return z; }
  bool operator==(const Z &o) const { return mpz_cmp(z, o.z) == 0; } std::string s() const { char *p = mpz_get_str(nullptr, 16, z); std::string t(p); void (*fr)(void *, size_t); mp_get_memory_functions(nullptr, nullptr, &fr); fr(p, t.size() + 1); return t; } };
static inline void z_bits(mpz_ptr z, H::Rng &r, unsigned bits) { std::vector<uint8_t> b((bits + 7) / 8); r.fill(b.data(), b.size()); mpz_import(z, b.size(), 1, 1, 0, 0, b.data()); mpz_fdiv_r_2exp(z, z, bits); }
static inline void z_msg(mpz_ptr z, H::Rng &r, unsigned k) { // edges of [0, 2^k) as well as random
  uint64_t kv; if (r.known(kv)) { if (kv <= k && r.below(2)) { z_bits(z, r, (unsigned)kv); if (r.below(2)) mpz_setbit(z, kv - 1); } else { mpz_set_ui(z, kv); if (r.below(2)) mpz_sub_ui(z, z, 1 + r.below(2)); else mpz_add_ui(z, z, r.below(3)); } mpz_fdiv_r_2exp(z, z, k); return; }
  switch (r.below(8)) { case 0: mpz_set_ui(z, r.below(3)); break; case 1: mpz_setbit(z, k); mpz_sub_ui(z, z, 1 + r.below(3)); break; case 2: mpz_set_ui(z, 0); mpz_setbit(z, r.below(k)); break; case 3: mpz_set_ui(z, r.below(1000)); break; default: z_bits(z, r, k); }
  mpz_fdiv_r_2exp(z, z, k); }
struct JLKey { unsigned k, bits; Z N, y, p, q; };
static inline JLKey *jl_make(H::Rng &r, unsigned k, unsigned bits) {
  JLKey *K = new JLKey; K->k = k; K->bits = bits; unsigned pb = bits / 2; if (pb < k + 8) pb = k + 8; Z t;
  // p = 2^k * c + 1; c of any parity
  do { z_bits(t, r, pb - k); mpz_setbit(t, pb - k - 1); mpz_mul_2exp(K->p, t, k); mpz_add_ui(K->p, K->p, 1); } while (!mpz_probab_prime_p(K->p, 20));
  do { z_bits(K->q, r, pb); mpz_setbit(K->q, pb - 1); mpz_setbit(K->q, 0); mpz_setbit(K->q, 1); } while (!mpz_probab_prime_p(K->q, 20) || mpz_cmp(K->p, K->q) == 0);
  mpz_mul(K->N, K->p, K->q);
  do { z_bits(K->y, r, 2 * pb + 8); mpz_mod(K->y, K->y, K->N); } while (mpz_sgn(K->y.z) == 0 || mpz_legendre(K->y, K->p) != -1 || mpz_legendre(K->y, K->q) != -1);
  return K;
}
// a small pool of keys per process, chosen by k
#include <map>
static inline JLKey *jl_pool(unsigned k, unsigned bits, unsigned which) {
  static thread_local std::map<uint64_t, JLKey *> pool; uint64_t id = ((uint64_t)k << 40) | ((uint64_t)bits << 16) | which; auto it = pool.find(id); if (it != pool.end()) return it->second;
  H::Rng r(H::mix(H::mix(id, 4711), H::opt.seed)); return pool[id] = jl_make(r, k, bits);
}
static inline void z_out(const char *what, mpz_srcptr z) { uint8_t b[1024]; size_t n = 0; memset(b, 0, sizeof b); if (mpz_sizeinbase(z, 2) <= 8 * sizeof b) mpz_export(b, &n, 1, 1, 0, 0, z); int sg = mpz_sgn(z); b[1000] = (uint8_t)sg; b[1001] = (uint8_t)n; b[1002] = (uint8_t)(n >> 8); H::output(what, b, sizeof b); }
struct RS { gmp_randstate_t s; RS(uint64_t seed) { gmp_randinit_mt(s); Z t; mpz_set_ui(t, seed & 0xffffffffffff); gmp_randseed(s, t); } ~RS() { gmp_randclear(s); } };
// comparisons of big integers with constants, in the builds that collect them (linked with --wrap)
extern "C" int __real___gmpz_cmp_ui(mpz_srcptr, unsigned long) __attribute__((weak));
extern "C" int __wrap___gmpz_cmp_ui(mpz_srcptr z, unsigned long v) { H::saw(v); return __real___gmpz_cmp_ui(z, v); }
