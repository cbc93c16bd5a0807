#include "stream.h"
#include "hc128.h"
struct Adp {
  typedef hc128_state S; static constexpr const char *name = "HC-128"; static constexpr bool has_reiv = false, alias_dec = true;
  static size_t keylen(Rng &) { return 16; } static size_t ivlen() { return 16; } static size_t fit(size_t n) { return n; }
  struct Model { ref::hc128 c; Model(const V &k, const V &iv) : c(k.data(), iv.data()) {}
    void packet(const uint8_t *i, uint8_t *o, size_t n) { c.packet(i, o, n); } void piece(const uint8_t *i, uint8_t *o, size_t n, size_t) { c.packet(i, o, n); } void resync(const uint8_t *, const uint8_t *, size_t) {} };
  static void load(S *s, const V &, uint8_t *k, uint8_t *iv) { hc128_initialize(s, k, iv); }
  static void reiv(S *, uint8_t *) {}
  static void process(S *s, uint8_t *o, uint8_t *i, size_t n, bool) { hc128_process_packet(s, o, i, n); }
};
static std::vector<size_t> long_sizes(long idx) {
  switch (idx % 4) {
    case 0: return {4 * 510, 4 * 3 + 1, 4 * 1023, 4 * 5, 4 * 2048 + 2, 7, 9000};
    case 1: { std::vector<size_t> v(700, 29); return v; }                 // many short packets across both tables
    case 2: return {(size_t)24 << 20, 13, (size_t)20 << 20};             // beyond any stack
    default: return {((size_t)1 << 31) + 4 * 700 + 1, 21};               // beyond 2^31 bytes
  }
}
#include "d_stream.inc"
int main(int c, char **v) { return H::main_loop(c, v, "HC-128"); }
