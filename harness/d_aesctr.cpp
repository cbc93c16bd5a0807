#define HUGE_SPARSE 1
#define EARLY_MAX ((size_t)0x7fffffff)
#define HUGE_N(idx) ((size_t)0x7fffffff)   // the largest packet an int can describe
#define HUGE_REPS(idx) ((idx) ? 31 : 1)      // up to 31/32 of the counter range
#include "stream.h"
#include "aes_ctr.h"
#ifdef ROUND_REDUCED
#define RNDS 6
#else
#define RNDS 10
#endif
struct Adp {
  typedef aes_state S; static constexpr const char *name = "AES-CTR"; static constexpr bool has_reiv = true, alias_dec = true;
  static size_t keylen(Rng &) { return 16; } static size_t ivlen() { return 12; } static size_t fit(size_t n) { return n; }
  struct Model { ref::aes_ctr c; Model(const V &k, const V &iv) : c(k.data(), iv.data(), RNDS) {}
    void spot(const uint8_t *i, uint8_t *o, size_t n, size_t off) { uint8_t ks[16]; for (size_t b = 0; b < n; b++) { if (b % 16 == 0) c.keystream_at(c.ctr + (uint32_t)((off + b) / 16), ks); o[b] = i[b] ^ ks[b % 16]; } } void skip(size_t n) { c.ctr += (uint32_t)((n + 15) / 16); }
    void packet(const uint8_t *i, uint8_t *o, size_t n) { c.packet(i, o, n); } void piece(const uint8_t *i, uint8_t *o, size_t n, size_t) { c.packet(i, o, n); } void resync(const uint8_t *, const uint8_t *, size_t) {} };
  static void load(S *s, const V &, uint8_t *k, uint8_t *iv) { bool ivfirst = ((k[3] ^ iv[2]) & 3) == 0; if (ivfirst) aes_load_iv(s, (decltype(ivp(aes_load_iv)))iv); aes_load_key(s, k); if (!ivfirst) aes_load_iv(s, (decltype(ivp(aes_load_iv)))iv); }
  static void reiv(S *s, uint8_t *iv) { aes_load_iv(s, (decltype(ivp(aes_load_iv)))iv); }
  template <class P> static P ivp(void (*)(S *, P));
  static void process(S *s, uint8_t *o, uint8_t *i, size_t n, bool) { aes_ctr_process_packet(s, o, i, (int)n); }
};
// counter carries: 2^8, 2^16 and 2^24 blocks, reached in one packet, in many, and across packets
static std::vector<size_t> long_sizes(long idx) {
  switch (idx % 4) {
    case 0: return {16 * 254, 16 * 5 + 3, 16 * 70000 - 7, 16 * 1 + 1, 1, 0, 2, 5};
    case 1: return {(size_t)16 * 65533, 7, 48, 33, 16};
    case 2: { std::vector<size_t> v(1100, 17 * 16 - 5); return v; }
    default: return {(size_t)1 << 28, 16 * 3 + 9, 100, 1};   // 2^24 blocks
  }
}
// Block counts that no run reaches: find the counter inside the state object by watching it count (whatever the layout),
// check on a small value that writing it there moves the stream to that block, then go to the far ends of its range.
#define HAVE_EXTRA 1
static uint32_t rd(const uint8_t *p, bool be) { uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)p[i] << (be ? 24 - 8 * i : 8 * i); return v; }
static void wr(uint8_t *p, bool be, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = (uint8_t)(v >> (be ? 24 - 8 * i : 8 * i)); }
static void far_blocks(Rng &r) {
  Lane<Adp> l; l.s = H::new_state<Adp::S>(); lane_start<Adp>(l, r, true); H::note("AES-CTR at far blocks:"); uint8_t *b = (uint8_t *)l.s; const size_t n = sizeof(*l.s); V snap[3];
  for (auto &v : snap) { v.assign(b, b + n); uint8_t z[16] = {0}, o[16]; Adp::process(l.s, o, z, 16, false); l.m->c.ctr++; }
  long off = -1; bool be = true; uint32_t base = 0; int found = 0;
  for (size_t i = 0; i + 4 <= n; i += 4) for (int e = 0; e < 2; e++) { uint32_t v = rd(&snap[0][i], e); if (v <= 1 && rd(&snap[1][i], e) == v + 1 && rd(&snap[2][i], e) == v + 2) { found++; off = (long)i; be = e; base = v; } }
  if (found == 1) for (size_t i = 0; i < n; i++) if ((i < (size_t)off || i >= (size_t)off + 4) && (snap[0][i] != snap[1][i] || snap[1][i] != snap[2][i])) found = 0; // something else moves along
  auto go = [&](uint32_t c) { wr(b + off, be, c - 1 + base); l.m->c.ctr = c; };
  if (found == 1) { uint32_t c = 5 + (uint32_t)r.below(190); go(c); uint8_t z[48] = {0}, o[48], w[48]; Adp::process(l.s, o, z, 48, false); l.m->packet(z, w, 48); if (memcmp(o, w, 48)) found = 0; }
  if (found != 1) { H::count("far-blocks-unavailable"); H::free_state(l.s); H::sample_case(); return; }
  static const uint32_t B[] = {0x100, 0x10000, 0x1000000, 0x7fffffff, 0x80000000u, 0xff000000u, 0xffff0000u, 0xffffff00u, 0};
  for (int i = 0; i < 4; i++) { uint32_t c = r.chance(1, 4) ? (uint32_t)r.next() : B[r.below(9)] - (uint32_t)r.below(6); if (c == 0) c = 1; go(c); size_t k = r.plen(300); H::note(" block %u: packet(%zu) packet(33)", c, k); lane_packet<Adp>(l, r, k, false, "model:far-block"); lane_packet<Adp>(l, r, 33, false, "model:far-block"); H::count("far-blocks"); if (r.chance(1, 4)) { lane_start<Adp>(l, r, false); lane_packet<Adp>(l, r, 20, false, "model:far-block"); } }
  H::free_state(l.s); H::sample_case();
}
static bool extra(const std::string &m, long, Rng &r) { if (m == "far") { far_blocks(r); return true; } return false; }
#include "d_stream.inc"
int main(int c, char **v) { return H::main_loop(c, v, "AES-CTR"); }
