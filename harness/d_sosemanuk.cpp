#include "stream.h"
#include "sosemanuk.h"
struct Adp {
  typedef sosemanuk_state S; static constexpr const char *name = "Sosemanuk"; static constexpr bool has_reiv = true, alias_dec = true;
  static size_t keylen(Rng &r) { return r.chance(1, 3) ? 16 : r.chance(1, 3) ? 32 : r.range(1, 32); } static size_t ivlen() { return 16; } static size_t fit(size_t n) { return n; }
  struct Model { ref::sosemanuk c; Model(const V &k, const V &iv) : c(k.data(), k.size()) { c.iv(iv.data()); }
    void packet(const uint8_t *i, uint8_t *o, size_t n) { c.packet(i, o, n); } void piece(const uint8_t *i, uint8_t *o, size_t n, size_t) { c.packet(i, o, n); } void resync(const uint8_t *, const uint8_t *, size_t) {} };
  static void load(S *s, const V &key, uint8_t *k, uint8_t *iv) { sosemanuk_load_key(s, k, (int)key.size()); sosemanuk_load_iv(s, iv); }
  static void reiv(S *s, uint8_t *iv) { sosemanuk_load_iv(s, iv); }
  static void process(S *s, uint8_t *o, uint8_t *i, size_t n, bool) { sosemanuk_process_packet(s, o, i, n); }
};
static std::vector<size_t> long_sizes(long idx) {
  switch (idx % 3) { case 0: { std::vector<size_t> v(600, 16 * 3 + 5); return v; } case 1: return {(size_t)24 << 20, 13, (size_t)20 << 20}; default: return {((size_t)1 << 31) + 16 * 700 + 1, 21}; }
}
#include "d_stream.inc"
int main(int c, char **v) { return H::main_loop(c, v, "Sosemanuk"); }
