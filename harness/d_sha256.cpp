#include "h.h"
#include "sha-256.h"
#include "bigmsg.h"
using H::Rng; using H::Mem; typedef std::vector<uint8_t> V;
static void one(Rng &r, const V &msg) {
  Mem mem(r, false); uint8_t *m = mem.in("message", msg), *d = mem.out("digest", 32);
  CALL(sha256_process_message(d, m, msg.size())); H::output("digest", d, 32); mem.verify("wset");
  if (H::mon) { uint8_t w[32]; ref::sha256_once(msg.data(), msg.size(), w); char b[60]; snprintf(b, sizeof b, "digest of %zu bytes", msg.size()); H::same("model:digest", b, d, w, 32); H::eval(H::mix(H::hash(msg.data(), msg.size()), msg.size())); H::count("bytes", msg.size()); }
}
void run_case(long idx, Rng &r) {
  const std::string &m = H::opt.mode;
  if (m == "sweep") { H::note("SHA-256 of %ld bytes", idx); V v = r.vec(idx); one(r, v); H::sample_case(); return; }
  if (m == "long") { size_t n = idx % 3 == 0 ? (12u << 20) + (size_t)r.below(64) : idx % 3 == 1 ? (3u << 20) + 55 + (size_t)r.below(10) : (20u << 20) + 63; H::note("SHA-256 of %zu bytes", n); V v(n); r.fill(v.data(), n); one(r, v); H::sample_case(); return; }
  if (m == "early") { size_t n = r.edge((size_t)1 << 42); H::note("SHA-256 of %zu bytes whose end is out of reach", n); H::Cliff in(r, n); uint8_t d[32]; H::must_reach("model:stops-early", n, "message", [&] { sha256_process_message(d, in.p, n); }); H::sample_case(); return; }
  if (m == "huge") { // the message is one 64 MiB file mapped over and over: length without memory
    const size_t W = 64u << 20; static const size_t sizes[] = {((size_t)1 << 29) + 3, ((size_t)1 << 31) + 7, ((size_t)1 << 32) + 63, ((size_t)1 << 32) + ((size_t)1 << 31) + 119};
    size_t n = sizes[idx % 4], total = (n + W - 1) / W * W; H::note("SHA-256 of %zu bytes", n);
    BigMsg bm(r, total); uint8_t *base = bm.base;
    uint8_t d[32], w[32]; CALL(sha256_process_message(d, base, n)); ref::sha256 s; for (size_t o = 0; o < n; o += W) s.update(base, n - o < W ? n - o : W); s.final(w);
    H::same("model:huge-digest", "digest of a huge message", d, w, 32); H::eval(n); H::count("bytes", n); H::sample_case(); return; }
  int ops = 1 + (int)r.below(6); H::note("SHA-256 of");
  for (int i = 0; i < ops; i++) { size_t n = r.chance(1, 2) ? r.below(200) : r.plen(8000); H::note(" %zu", n); V v = r.vec(n); one(r, v); }
  H::sample_case();
}
long default_cases() { return 200; }
int main(int c, char **v) { return H::main_loop(c, v, "SHA-256"); }
