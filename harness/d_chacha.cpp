#include "stream.h"
#include "chacha.h"
#ifdef EIGHT_ROUNDS
#define RNDS 8
#elif defined(TWELVE_ROUNDS)
#define RNDS 12
#else
#define RNDS 20
#endif
struct Adp {
  typedef chacha_state S; static constexpr const char *name = "ChaCha"; static constexpr bool has_reiv = false, alias_dec = true;
  static size_t keylen(Rng &) { return 32; } static size_t ivlen() { return 12; } static size_t fit(size_t n) { return n; }
  struct Model { V k, iv; Model(const V &k_, const V &iv_) : k(k_), iv(iv_) {}
    void packet(const uint8_t *i, uint8_t *o, size_t n) { ref::chacha_xor(k.data(), iv.data(), 1, RNDS, i, o, n); }
    void piece(const uint8_t *i, uint8_t *o, size_t n, size_t off) { ref::chacha_xor(k.data(), iv.data(), (uint32_t)(1 + off / 64), RNDS, i, o, n); } void resync(const uint8_t *, const uint8_t *, size_t) {} };
  template <class P, class Q> static P kp(void (*)(S *, P, Q)); template <class P, class Q> static Q np(void (*)(S *, P, Q));
  static void load(S *s, const V &, uint8_t *k, uint8_t *iv) { chacha_initialize(s, (decltype(kp(chacha_initialize)))k, (decltype(np(chacha_initialize)))iv); }
  static void reiv(S *, uint8_t *) {}
  static void process(S *s, uint8_t *o, uint8_t *i, size_t n, bool) { chacha_process_packet(s, o, i, n); }
};
static std::vector<size_t> long_sizes(long idx) {
  switch (idx % 3) { case 0: return {64 * 254 + 3, 64 * 258 + 63, 1, (size_t)64 * 65540 + 17}; case 1: return {(12u << 20) + 13, 5, 0, 64}; default: return {((size_t)1 << 30) + 128 * 64 + 5, 77}; }
}
#define HAVE_EXTRA 1
static bool extra(const std::string &m, long idx, Rng &r) {
  if (m == "huge") { // beyond 2^31 bytes: positions are checked in windows (the cipher is seekable)
    size_t n = idx % 2 == 0 ? ((size_t)1 << 31) + 100 : ((size_t)1 << 32) + 77; V k = r.vec(32), iv = r.vec(12), ki = k, ii = iv;
    chacha_state *s = H::new_state<chacha_state>(); Adp::load(s, k, k.data(), iv.data());
    uint8_t *b = (uint8_t *)calloc(n + 64, 1); if (!b) H::harness_error("no memory for the huge packet");
    H::note("ChaCha packet(%zu) in place", n);
    chacha_process_packet(s, b, b, n);
    V w(1 << 16), z(1 << 16); std::vector<size_t> at = {0, ((size_t)1 << 31) - (1 << 15), (n - (1 << 16)) / 64 * 64};
    for (int i = 0; i < 40; i++) at.push_back(r.below(n - (1 << 16)) / 64 * 64);
    for (size_t p : at) { size_t q = n - p < w.size() ? n - p : w.size(); ref::chacha_xor(ki.data(), ii.data(), (uint32_t)(1 + p / 64), RNDS, z.data(), w.data(), q); H::same("model:huge", "window of a huge packet", b + p, w.data(), q); H::eval(p); H::count("bytes", q); }
    for (int i = 0; i < 64; i++) if (b[n + i]) { H::viol("wset:huge", "wrote past a %zu-byte packet", n); break; }
    H::sample("ChaCha packet of %zu bytes, %zu windows of 64 KiB compared", n, at.size());
    free(b); H::free_state(s); return true;
  }
  if (m == "block" || (!H::mon && r.chance(1, 5))) { // block function and byte swap helper
    V k = r.vec(32), iv = r.vec(12); uint32_t c; switch (r.below(6)) { case 0: c = (uint32_t)r.below(4); break; case 1: c = 0xffffffffu - (uint32_t)r.below(3); break; case 2: c = (1u << r.below(32)) - (uint32_t)r.below(2); break; default: c = (uint32_t)r.next(); }
    chacha_state *s = H::new_state<chacha_state>(); Mem mem(r, 1);
    uint8_t *kp = mem.in("key", k), *ip = mem.in("iv", iv); CALL(Adp::load(s, k, kp, ip));
    int reps = 1 + (int)r.below(3);
    { uint64_t kv; if (r.known(kv)) c = (uint32_t)(kv - r.below(3)); }
    H::note("ChaCha block counter=%u x%d", c, reps);
    for (int i = 0; i < reps; i++, c = i == 1 ? c + 1 : (uint32_t)r.next()) { // several blocks from one state
      uint32_t *o = (uint32_t *)mem.out("block", 64); CALL(chacha_block(s, c, o)); H::output("block", o, 64); mem.verify("wset");
      if (H::mon) { uint8_t w[64]; ref::chacha_block(k.data(), c, iv.data(), RNDS, w); H::same("model:block", "block", (uint8_t *)o, w, 64); H::eval(H::mix(H::hash(w, 64), c)); H::count("blocks"); }
    }
    { size_t n = r.below(100); V pt = r.vec(n); Mem m2(r); uint8_t *i = m2.in("in", pt), *o = m2.out("out", n); // a packet still starts at counter 1
      CALL(chacha_process_packet(s, o, i, n)); H::output("ciphertext", o, n); m2.verify("wset");
      if (H::mon) { V w(n); ref::chacha_xor(k.data(), iv.data(), 1, RNDS, pt.data(), w.data(), n); H::same("model:output", "packet after block calls", o, w.data(), n); } }
    { size_t nb = 4 * r.below(70); V d = r.vec(nb), w(nb); for (size_t q = 0; q < nb; q++) w[q] = d[q ^ 3];
      Mem m2(r); bool al = r.chance(1, 4); uint8_t *i = al ? m2.inout("inout", d.data(), nb) : m2.in("in", d), *o = al ? i : m2.out("out", nb);
      CALL(byte_swap(o, i, (int)nb)); H::output("swapped", o, nb); m2.verify("wset");
      if (H::mon) { H::same("model:byte-order", "byte-order helper output", o, w.data(), nb); H::eval(H::mix(H::hash(w.data(), nb), 3), nb > 0); } }
    H::free_state(s); return true;
  }
  return false;
}
#include "d_stream.inc"
int main(int c, char **v) { return H::main_loop(c, v, RNDS == 20 ? "ChaCha20" : RNDS == 12 ? "ChaCha12" : "ChaCha8"); }
