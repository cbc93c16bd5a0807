#define HUGE_SPARSE 1
#include "stream.h"
#include "des.h"
static uint64_t be64(const uint8_t *p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | p[i]; return v; }
static void pbe64(uint8_t *p, uint64_t v) { for (int i = 7; i >= 0; i--) { p[i] = (uint8_t)v; v >>= 8; } }
struct Adp { // CTR: a packet always starts at the nonce it is given
  struct S { des_state d; uint32_t nonce[3], copy[3]; }; static constexpr const char *name = "DES-CTR"; static constexpr bool has_reiv = true, alias_dec = true;
  static size_t keylen(Rng &) { return 8; } static size_t ivlen() { return 12; } static size_t fit(size_t n) { return n / 8 * 8; }
  struct Model { ref::des c; uint64_t n0; Model(const V &k, const V &iv) : c(k.data()), n0(be64(iv.data())) {}
    void piece(const uint8_t *i, uint8_t *o, size_t n, size_t off) { for (size_t b = 0; b < n; b += 8) { uint64_t ctr = (n0 & 0xffffffff00000000ull) | (uint32_t)((uint32_t)n0 + (uint32_t)((off + b) / 8)); uint8_t ks[8]; pbe64(ks, c.crypt(ctr, false)); for (size_t q = 0; q < 8 && b + q < n; q++) o[b + q] = i[b + q] ^ ks[q]; } }
    void spot(const uint8_t *i, uint8_t *o, size_t n, size_t off) { piece(i, o, n, off); } void skip(size_t) {}
    void packet(const uint8_t *i, uint8_t *o, size_t n) { piece(i, o, n, 0); } void resync(const uint8_t *, const uint8_t *, size_t) {} };
  static void load(S *s, const V &, uint8_t *k, uint8_t *iv) { des_key_schedule_encrypt(&s->d, k); reiv(s, iv); }
  static void reiv(S *s, uint8_t *iv) { memcpy(s->nonce, iv, 12); memcpy(s->copy, iv, 12); }
  static void process(S *s, uint8_t *o, uint8_t *i, size_t n, bool) {
    des_process_packet_ctr(&s->d, (u32 *)o, (u32 *)i, s->nonce, n);
    if (H::mon && memcmp(s->nonce, s->copy, 12)) { H::viol("wset:input-modified-nonce", "DES-CTR modified the nonce"); memcpy(s->nonce, s->copy, 12); }
  }
};
static std::vector<size_t> long_sizes(long idx) { switch (idx % 2) { case 0: return {8 * 70000, 16}; default: return {(size_t)12 << 20, 8}; } }
#define HAVE_EXTRA 1
static void ecb(Rng &r, size_t first = 0) {
  V key = r.vec(8); ref::des m(key.data()); des_state *e = H::new_state<des_state>(), *d = H::new_state<des_state>();
  if (r.chance(1, 3)) for (auto &b : key) b = (uint8_t)((b & 0xfe) | (__builtin_popcount(b & 0xfe) % 2 ? 0 : 1)), m = ref::des(key.data()); // odd parity
  { Mem mem(r); uint8_t *k = mem.in("key", key); CALL(des_key_schedule_encrypt(e, k)); mem.verify("wset"); }
  { Mem mem(r); uint8_t *k = mem.in("key", key); CALL(des_key_schedule_decrypt(d, k)); mem.verify("wset"); }
  int ops = 1 + (int)r.below(4); H::note("DES-ECB:");
  for (int i = 0; i < ops; i++) {
    size_t n = r.below(40) * 8; if (r.chance(1, 3)) n = 8; if (i == 0 && first) n = first; else if (H::mon && r.chance(1, 12)) n = r.plen(5000) / 8 * 8; V pt = r.vec(n), w(n); for (size_t b = 0; b < n; b += 8) pbe64(&w[b], m.crypt(be64(&pt[b]), false));
    H::note(" packet(%zu)", n);
    Mem mem(r); bool one = n == 8 && r.chance(1, 2); uint8_t *p = mem.in("in", pt), *o = mem.out("out", n), *q = mem.out("back", n);
    if (one) CALL(des_ecb_block(e, (u32 *)o, (u32 *)p)); else CALL(des_process_packet_ecb(e, (u32 *)o, (u32 *)p, n));
    H::output("ciphertext", o, n);
    if (H::mon) { H::same("model:ecb-encrypt", "ECB encryption", o, w.data(), n); H::count("blocks", n / 8); }
    V ct(o, o + n); uint8_t *c = mem.in("ct", w);
    if (one) CALL(des_ecb_block(d, (u32 *)q, (u32 *)c)); else CALL(des_process_packet_ecb(d, (u32 *)q, (u32 *)c, n));
    H::output("plaintext", q, n);
    if (H::mon) { H::same("model:ecb-decrypt", "ECB decryption of the standard ciphertext", q, pt.data(), n); H::eval(H::mix(H::hash(pt.data(), n), H::hash(key.data(), 8)), n > 0); }
    V rt(n); Mem m2(r); uint8_t *c2 = m2.in("ct", ct), *q2 = m2.out("back", n); CALL(des_process_packet_ecb(d, (u32 *)q2, (u32 *)c2, n)); m2.verify("wset");
    if (H::mon) H::same("trip:ecb", "decryption of the produced ciphertext", q2, pt.data(), n);
    mem.verify("wset");
    if (H::mon && r.chance(1, 3)) { // parity bits are ignored
      V k2 = key; k2[r.below(8)] ^= 1; Mem m3(r); uint8_t *k = m3.in("key", k2), *p3 = m3.in("in", pt), *o3 = m3.out("out", n); des_state *e2 = H::new_state<des_state>();
      CALL(des_key_schedule_encrypt(e2, k)); CALL(des_process_packet_ecb(e2, (u32 *)o3, (u32 *)p3, n)); H::same("model:parity", "encryption under a key differing in a parity bit", o3, w.data(), n); H::free_state(e2); }
  }
  H::free_state(e); H::free_state(d);
}
// nonces whose counter word wraps inside the packet
static void wrap(Rng &r) {
  Lane<Adp> l; l.s = H::new_state<Adp::S>(); lane_start<Adp>(l, r, true);
  uint32_t lowbe = 0u - (uint32_t)r.below(20) - (r.chance(1, 2) ? 0 : 0x10000 * (uint32_t)r.below(3)); V iv = r.vec(12); for (int i = 0; i < 4; i++) iv[4 + i] = (uint8_t)(lowbe >> (24 - 8 * i)); if (r.chance(1, 3)) { iv[4] = (uint8_t)r.next(); iv[5] = (uint8_t)r.next(); }
  l.iv = iv; Adp::reiv(l.s, iv.data()); l.m.reset(new Adp::Model(l.key, l.iv)); H::note("DES-CTR counter near wrap, low word %08x", lowbe);
  lane_packet<Adp>(l, r, 8 * (1 + r.below(60)), false, "model:ctr-wrap"); H::free_state(l.s);
}
static void early_ecb(Rng &r) { des_state *e = H::new_state<des_state>(); V key = r.vec(8); bool d = r.chance(1, 2); if (d) des_key_schedule_decrypt(e, key.data()); else des_key_schedule_encrypt(e, key.data()); size_t n = r.edge((size_t)1 << 42) / 8 * 8; H::note("DES-ECB packet(%zu) whose end is out of reach", n);
  { H::Cliff in(r, n), out(r, n); H::must_reach("model:stops-early", n, "ECB packet", [&] { des_process_packet_ecb(e, (u32 *)out.p, (u32 *)in.p, n); }); } H::free_state(e); H::sample_case(); }
static bool extra(const std::string &m, long idx, Rng &r) { if (m == "ecblens") { ecb(r, 8 * (size_t)idx); return true; } if (m == "early-ecb") { early_ecb(r); return true; } if (m == "ecb" || (!H::mon && r.chance(1, 3))) { ecb(r); return true; } if (m == "wrap") { wrap(r); return true; } return false; }
#include "d_stream.inc"
int main(int c, char **v) { return H::main_loop(c, v, "DES"); }
