#include "h.h"
#include "bigmsg.h"
#include "md5.h"
using H::Rng; using H::Mem; typedef std::vector<uint8_t> V;
static void check(const char *key, const char *what, const uint8_t *d, const V &msg) {
  if (!H::mon) return;
  ref::md5 m; m.update(msg.data(), msg.size()); uint8_t w[16]; m.final(w); H::same(key, what, d, w, 16); H::eval(H::mix(H::hash(msg.data(), msg.size()), msg.size())); H::count("digests"); H::count("bytes", msg.size());
}
// one message through a context, cut at the given sizes
struct Inc { MD5_CTX *c; V msg; };
static void upd(Inc &x, Rng &r, size_t n) { V p = r.vec(n); Mem mem(r, false); uint8_t *i = mem.in("chunk", p); CALL(MD5Update(x.c, i, (u32)n)); mem.verify("wset"); x.msg.insert(x.msg.end(), p.begin(), p.end()); H::count("updates"); }
// finalisation leaves nothing of the message in the context
static void wiped(const MD5_CTX *c) { if (!H::mon) return; static const uint8_t z[sizeof(MD5_CTX)] = {0}; H::same("model:wiped", "context after finalisation", (const uint8_t *)c, z, sizeof *c); H::count("contexts seen wiped"); }
static void fin(Inc &x, Rng &r) { Mem mem(r, false); uint8_t *d = mem.out("digest", 16); CALL(MD5Final(d, x.c)); H::output("digest", d, 16); mem.verify("wset"); check("model:incremental", "digest of a message given in pieces", d, x.msg); wiped(x.c); x.msg.clear(); CALL(MD5Init(x.c)); }
static void oneshot(MD5_CTX *c, Rng &r, const V &m) { Mem mem(r, false); uint8_t *i = mem.in("message", m), *d = mem.out("digest", 16); CALL(MD5_process_packet(c, d, i, (u32)m.size())); H::output("digest", d, 16); mem.verify("wset"); char b[60]; snprintf(b, sizeof b, "one-shot digest of %zu bytes", m.size()); check("model:oneshot", b, d, m); wiped(c); }
void run_case(long idx, Rng &r) {
  const std::string &m = H::opt.mode;
  if (m == "sweep") { // every split of short messages: idx = total * (total+1)/2 + first part
    long t = 0, i = idx; while (i > t) { i -= t + 1; t++; } size_t a = i, b = t - i;
    H::note("MD5 update(%zu) update(%zu)", a, b); Inc x; x.c = H::new_state<MD5_CTX>(); CALL(MD5Init(x.c)); upd(x, r, a); upd(x, r, b); V msg = x.msg; fin(x, r); oneshot(x.c, r, msg); H::free_state(x.c); H::sample_case(); return; }
  if (m == "big") { // whole lengths with one update
    size_t n = (size_t)idx; H::note("MD5 of %zu bytes", n); MD5_CTX *c = H::new_state<MD5_CTX>(); oneshot(c, r, r.vec(n)); H::free_state(c); H::sample_case(); return; }
  if (m == "many") { Inc x; x.c = H::new_state<MD5_CTX>(); CALL(MD5Init(x.c)); H::note("MD5: 66000 or more updates of one message%s", idx & 1 ? ", 66000 messages" : ""); for (long i = 0; i < H::many_count() && !H::viols_so_far(); i++) { upd(x, r, r.below(9)); if (idx & 1) fin(x, r); } fin(x, r); H::free_state(x.c); H::sample_case(); return; }
  if (m == "early") { MD5_CTX *c = H::new_state<MD5_CTX>(); CALL(MD5Init(c)); V h = r.vec(r.below(130)); CALL(MD5Update(c, h.data(), (u32)h.size())); size_t n = r.edge(0xffffffffu); H::note("MD5 update(%zu) update(%zu) whose end is out of reach", h.size(), n); H::Cliff in(r, n); H::must_reach("model:stops-early", n, "update", [&] { MD5Update(c, in.p, (u32)n); }); H::free_state(c); H::sample_case(); return; }
  if (m == "huge") {
    // totals past 2^32 bits (512 MiB) and past 2^32 bytes; single calls near 4 GiB; every residue of the buffer
    static const std::vector<std::vector<uint64_t>> plan = {
      {(1ull << 29) + 5}, {3, (1ull << 29) - 3, 1, 70}, {0xffffffffull}, {17, 0xffffffe0ull, 40}, {0xffffffc0ull, 0xffffffffull, 9}, {(1ull << 31) + 1, (1ull << 31) - 2, 1}, {63, 0xfffffff8ull, 1}, {1ull << 28, 1ull << 28, 3}, {(1ull << 29) + 1, (1ull << 29) + 3, (1ull << 29) - 4, 7} };
    std::vector<uint64_t> p;
    if ((size_t)idx < plan.size()) p = plan[idx];
    else {
      // the boundary at 2^29 bytes is crossed by a short or long update, from any fill of the block buffer, once or twice
      uint64_t at = 0;
      for (uint64_t edge = 1ull << 29; edge <= (1 + r.below(2)) << 29; edge += 1ull << 29) {
        if (r.chance(1, 2)) { uint64_t n = r.chance(1, 2) ? 64 * (1 + r.below(1u << 20)) : 1 + r.below(1u << 26); p.push_back(n); at += n; }
        uint64_t before = r.chance(1, 3) ? 64 * r.below(4) : r.below(200); if (at + before > edge) continue;
        p.push_back(edge - before - at); at = edge - before;
        for (int i = 0; i < 12 && at <= edge + 64; i++) { uint64_t n = r.chance(1, 3) ? 64 * r.below(3) : r.chance(1, 3) ? edge - at + (at > edge ? 64 : 0) : r.below(150); if (n > 4096) n = 1; p.push_back(n); at += n; }
      }
    }
    uint64_t mx = 0, tot = 0; H::note("MD5"); for (auto n : p) { mx = n > mx ? n : mx; H::note(" update(%llu)", (unsigned long long)n); tot += n; }
    BigMsg bm(r, mx); MD5_CTX *c = H::new_state<MD5_CTX>(); CALL(MD5Init(c)); ref::md5 w;
    for (auto n : p) { CALL(MD5Update(c, bm.base, (u32)n)); for (uint64_t o = 0; o < n; o += BigMsg::W) w.update(bm.base + o, n - o < BigMsg::W ? n - o : BigMsg::W); }
    uint8_t d[16], e[16]; CALL(MD5Final(d, c)); w.final(e); H::same("model:huge-digest", "digest of a huge message", d, e, 16); H::eval(H::mix(tot, idx)); H::count("bytes", tot); H::free_state(c); H::sample_case(); return; }
  // interleaved contexts
  std::vector<Inc> L(1 + r.below(3)); H::note("MD5: %zu contexts;", L.size());
  for (auto &x : L) { x.c = H::new_state<MD5_CTX>(); CALL(MD5Init(x.c)); }
  int ops = 3 + (int)r.below(16);
  for (int i = 0; i < ops; i++) {
    size_t w = r.below(L.size()); unsigned c = (unsigned)r.below(12);
    if (c == 0) { H::note(" %zu:final", w); fin(L[w], r); }
    else if (c == 1) { size_t n = r.plen(3000); H::note(" oneshot(%zu)", n); MD5_CTX *k = H::new_state<MD5_CTX>(); oneshot(k, r, r.vec(n)); H::free_state(k); }
    else { size_t n; switch (r.below(4)) { case 0: n = r.below(4); break; case 1: { size_t have = L[w].msg.size() % 64; n = (64 - have) + r.below(3); n = n ? n - 1 : 0; break; } case 2: n = r.below(200); break; default: n = r.plen(4000); } H::note(" %zu:update(%zu)", w, n); upd(L[w], r, n); }
  }
  for (auto &x : L) { fin(x, r); H::free_state(x.c); }
  H::sample_case();
}
long default_cases() { return 200; }
int main(int c, char **v) { return H::main_loop(c, v, "MD5"); }
