#include "h.h"
#include "serpent.h"
using H::Rng; using H::Mem; typedef std::vector<uint8_t> V;
void run_case(long idx, Rng &r) {
  bool sweep = H::mode_is("sweep");
  std::vector<serpent_state *> s(sweep ? 1 : 1 + r.below(3)); std::vector<V> keys; H::note("Serpent: %zu states;", s.size());
  for (auto &p : s) { p = H::new_state<serpent_state>(); size_t kl = sweep ? 1 + idx % 32 : r.chance(1, 3) ? 32 : r.chance(1, 3) ? 16 : r.range(1, 32); keys.push_back(r.vec(kl)); Mem mem(r, 1); uint8_t *k = mem.in("key", keys.back()); H::note(" key(%zu)", kl); CALL(serpent_key_schedule(p, k, (int)kl)); mem.verify("wset"); }
  int ops = 1 + (int)r.below(6);
  for (int i = 0; i < ops; i++) {
    size_t w = r.below(s.size());
    if (r.chance(1, 8)) { size_t kl = r.range(1, 32); keys[w] = r.chance(1, 3) ? r.near(keys[w]) : r.vec(kl); kl = keys[w].size(); Mem mem(r, 1); uint8_t *k = mem.in("key", keys[w]); H::note(" %zu:rekey(%zu)", w, kl); CALL(serpent_key_schedule(s[w], k, (int)kl)); mem.verify("wset"); }
    V b = r.vec(16); Mem mem(r, 1); uint8_t *in = mem.in("block", b), *o = mem.out("words", 48); H::note(" %zu:block", w);
    CALL(serpent_process_packet(s[w], (uint32_t *)o, (uint32_t *)in, 16)); H::output("words", o, 48); mem.verify("wset");
    if (H::mon) {
      ref::serpent k(keys[w].data(), keys[w].size()); uint32_t a[4], c[4], d[4]; ref::sosemanuk::serpent24(k, b.data(), a, c, d); uint8_t e[48]; memcpy(e, a, 16);
      // words of round 18 are delivered as r2,r1,r3,r0 registers of that round = the four output words in order
      memcpy(e + 16, c, 16); memcpy(e + 32, d, 16);
      H::same("model:serpent", "round outputs", o, e, 48); H::eval(H::mix(H::hash(keys[w].data(), keys[w].size()), H::hash(b.data(), 16))); H::count("blocks"); char kb[30]; snprintf(kb, sizeof kb, "key-bytes-%zu", keys[w].size()); H::count(kb);
    }
#ifndef CORE_ONLY
    { uint32_t x[4]; r.fill((uint8_t *)x, 16); uint32_t y[4]; memcpy(y, x, 16); CALL(serpent1(&x[0], &x[1], &x[2], &x[3])); H::output("serpent1", x, 16); if (H::mon) { ref::serpent_sbox_bitslice(2, y); H::same("model:serpent1", "bitsliced S-box 2", (uint8_t *)x, (uint8_t *)y, 16); H::count("serpent1-calls"); } }
#endif
  }
  for (auto p : s) H::free_state(p);
  H::sample_case();
}
long default_cases() { return 200; }
int main(int c, char **v) { return H::main_loop(c, v, "Serpent"); }
