#include "stream.h"
#include "rabbit.h"
struct Adp {
  typedef rabbit_state S; static constexpr const char *name = "Rabbit"; static constexpr bool has_reiv = true, alias_dec = true;
  static size_t keylen(Rng &) { return 16; } static size_t ivlen() { return 8; } static size_t fit(size_t n) { return n; }
  struct Model { ref::rabbit c; Model(const V &k, const V &iv) : c(k.data()) { if (iv.size()) c.iv(iv.data()); }
    void packet(const uint8_t *i, uint8_t *o, size_t n) { c.packet(i, o, n); } void piece(const uint8_t *i, uint8_t *o, size_t n, size_t) { c.packet(i, o, n); } void resync(const uint8_t *, const uint8_t *, size_t) {} };
  static void load(S *s, const V &, uint8_t *k, uint8_t *iv) { rabbit_load_key(s, k); rabbit_load_iv(s, iv); }
  static void reiv(S *s, uint8_t *iv) { rabbit_load_iv(s, iv); }
  static void process(S *s, uint8_t *o, uint8_t *i, size_t n, bool) { rabbit_process_packet(s, o, i, n); }
};
static std::vector<size_t> long_sizes(long idx) {
  switch (idx % 3) { case 0: { std::vector<size_t> v(600, 16 * 3 + 5); return v; } case 1: return {(size_t)24 << 20, 13, (size_t)20 << 20}; default: return {((size_t)1 << 31) + 16 * 700 + 1, 21}; }
}
// Packets straight after key set-up (no IV), then IVs, in any order.
static void noiv(Rng &r) {
  V key = r.vec(16); ref::rabbit m(key.data()), fresh(key.data()); rabbit_state *s = H::new_state<rabbit_state>();
  { Mem mem(r); uint8_t *k = mem.in("key", key); CALL(rabbit_load_key(s, k)); mem.verify("wset"); }
  int ops = 2 + (int)r.below(8); H::note("Rabbit key only:");
  for (int i = 0; i < ops; i++) {
    if (r.chance(1, 4)) { V iv = r.vec(8); Mem mem(r); uint8_t *p = mem.in("iv", iv); H::note(" iv"); CALL(rabbit_load_iv(s, p)); mem.verify("wset"); m = fresh; m.iv(iv.data()); H::count("reivs"); }
    else { size_t n = r.len(600); V pt = r.vec(n), w(n); Mem mem(r); uint8_t *p = mem.in("in", pt), *o = mem.out("out", n); H::note(" packet(%zu)", n); CALL(rabbit_process_packet(s, o, p, n)); H::output("ciphertext", o, n); mem.verify("wset");
      m.packet(pt.data(), w.data(), n); if (H::mon) { H::same("model:output", "output", o, w.data(), n); H::eval(H::mix(H::hash(pt.data(), n), ops), n > 0); H::count("packets"); } }
  }
  H::free_state(s);
}
// Directed search for the carry boundary: pick a key, then choose IV words so that, in the first counter update
// after IV set-up, C[j] + A[j] + carry is exactly 2^32 (carry must be 1, sum 0), or 2^32-1 (no carry), or 2^32+1.
static void edge(Rng &r) {
  static const uint32_t AC[8] = {0x4D34D34Du, 0xD34D34D3u, 0x34D34D34u, 0x4D34D34Du, 0xD34D34D3u, 0x34D34D34u, 0x4D34D34Du, 0xD34D34D3u};
  for (int tries = 0; tries < 200; tries++) {
    V key; if (tries < 100) { key.resize(16); r.fill(key.data(), 16); } else key = r.vec(16);
    ref::rabbit mk(key.data());
    uint32_t carry = mk.Mb; unsigned j = (unsigned)r.below(8); int off = (int)r.below(3) - 1;
    // IV words: I0 -> C0,C4 ; I1 -> C1,C5 mixed; I2 -> C2,C6 ; I3 -> C3,C7 mixed (RFC 4503, 2.5)
    auto set = [&](uint8_t iv[8]) { r.fill(iv, 8); };
    uint8_t iv[8]; set(iv);
    // choose the word feeding C[j] so that the sum hits the boundary; needs the carry into j, which depends on lower words: iterate
    auto words = [&](uint32_t w[8]) { uint32_t lo, hi; memcpy(&lo, iv, 4); memcpy(&hi, iv + 4, 4);
      uint32_t i0 = lo, i2 = hi, i1 = (hi & 0xffff0000u) | (lo >> 16), i3 = (hi << 16) | (lo & 0xffff);
      uint32_t I[4] = {i0, i1, i2, i3}; for (int q = 0; q < 8; q++) w[q] = mk.MC[q] ^ I[q % 4]; };
    auto carry_into = [&](unsigned jj) { uint32_t w[8]; words(w); uint32_t b = carry; for (unsigned q = 0; q < jj; q++) b = (uint32_t)(((uint64_t)w[q] + AC[q] + b) >> 32); return b; };
    bool ok = false;
    for (int it = 0; it < 6 && !ok; it++) {
      uint32_t b = carry_into(j), want = (uint32_t)(0 - AC[j] - b + (uint32_t)off), x = want ^ mk.MC[j], lo, hi; memcpy(&lo, iv, 4); memcpy(&hi, iv + 4, 4);
      switch (j % 4) { case 0: lo = x; break; case 2: hi = x; break; case 1: hi = (hi & 0xffff) | (x & 0xffff0000u); lo = (lo & 0xffff) | (x << 16); break; default: hi = (hi & 0xffff0000u) | (x >> 16); lo = (lo & 0xffff0000u) | (x & 0xffff); }
      memcpy(iv, &lo, 4); memcpy(iv + 4, &hi, 4);
      uint32_t w[8]; words(w); ok = (uint32_t)(w[j] + AC[j] + carry_into(j)) == (uint32_t)off;
    }
    if (!ok) continue;
    H::note("Rabbit carry edge at C%u%+d, packets 200+1+40", j, off);
    rabbit_state *s = H::new_state<rabbit_state>(); V ivv(iv, iv + 8); ref::rabbit m = mk;
    { Mem mem(r); uint8_t *k = mem.in("key", key), *p = mem.in("iv", ivv); CALL(rabbit_load_key(s, k)); CALL(rabbit_load_iv(s, p)); } m.iv(iv);
    for (size_t n : {(size_t)200, (size_t)1, (size_t)40}) { V pt = r.vec(n), w(n); Mem mem(r); uint8_t *p = mem.in("in", pt), *o = mem.out("out", n); CALL(rabbit_process_packet(s, o, p, n)); m.packet(pt.data(), w.data(), n); H::same("model:carry-edge", "output", o, w.data(), n); }
    H::eval(H::mix(H::hash(key.data(), 16), H::hash(iv, 8))); H::count(off == 0 ? "carry-boundary-hits" : "carry-neighbour-hits");
    H::free_state(s); return;
  }
  H::count("edge-search-failed");
}
// the same boundary inside key set-up: its first counter update adds A to words taken from the key
static void keyedge(Rng &r) {
  static const uint32_t AC[8] = {0x4D34D34Du, 0xD34D34D3u, 0x34D34D34u, 0x4D34D34Du, 0xD34D34D3u, 0x34D34D34u, 0x4D34D34Du, 0xD34D34D3u};
  V key(16); r.fill(key.data(), 16); unsigned j = (unsigned)r.below(8); int off = (int)r.below(3) - 1;
  auto kw = [&](unsigned i) { return (uint32_t)(key[2 * (i & 7)] | key[2 * (i & 7) + 1] << 8); };
  auto setk = [&](unsigned i, uint32_t v) { key[2 * (i & 7)] = (uint8_t)v; key[2 * (i & 7) + 1] = (uint8_t)(v >> 8); };
  auto C = [&](unsigned q) { return q % 2 ? kw(q) << 16 | kw(q + 1) : kw(q + 4) << 16 | kw(q + 5); };
  auto cin = [&](unsigned jj) { uint32_t b = 0; for (unsigned q = 0; q < jj; q++) b = (uint32_t)(((uint64_t)C(q) + AC[q] + b) >> 32); return b; };
  bool ok = false;
  for (int it = 0; it < 8 && !ok; it++) { uint32_t x = (uint32_t)(0 - AC[j] - cin(j) + (uint32_t)off); if (j % 2) { setk(j, x >> 16); setk(j + 1, x & 0xffff); } else { setk(j + 4, x >> 16); setk(j + 5, x & 0xffff); } ok = (uint32_t)(C(j) + AC[j] + cin(j)) == (uint32_t)off; }
  if (!ok) { H::count("edge-search-failed"); return; }
  H::note("Rabbit key set-up carry edge at C%u%+d", j, off);
  rabbit_state *s = H::new_state<rabbit_state>(); ref::rabbit m(key.data());
  { Mem mem(r); uint8_t *k = mem.in("key", key); CALL(rabbit_load_key(s, k)); }
  for (size_t n : {(size_t)70, (size_t)1, (size_t)40}) { V pt = r.vec(n), w(n); Mem mem(r); uint8_t *p = mem.in("in", pt), *o = mem.out("out", n); CALL(rabbit_process_packet(s, o, p, n)); m.packet(pt.data(), w.data(), n); H::same("model:carry-edge", "output", o, w.data(), n); }
  H::eval(H::hash(key.data(), 16)); H::count(off == 0 ? "key-carry-boundary-hits" : "key-carry-neighbour-hits"); H::free_state(s);
}
#define HAVE_EXTRA 1
static bool extra(const std::string &m, long, Rng &r) {
  if (m == "edge") { edge(r); return true; }
  if (m == "keyedge") { keyedge(r); return true; }
  if (m == "noiv" || (!H::mon && r.chance(1, 4))) { noiv(r); return true; }
  return false;
}
#include "d_stream.inc"
int main(int c, char **v) { return H::main_loop(c, v, "Rabbit"); }
