// Generic monitored sessions for the XOR stream ciphers.
// An adapter A supplies:
//   typedef S;                      state type of the library
//   struct Model                    (key, iv) -> packet(in,out,n), the specification
//   static size_t keylen(Rng&), ivlen()
//   static bool has_reiv, has_state
//   static void load(S*, const bytes &key, uint8_t *key, uint8_t *iv)   full initialisation
//   static void reiv(S*, uint8_t *iv)
//   static void process(S*, out, in, n, bool decrypt)
//   static size_t fit(size_t n)     admissible length
//   static const char *name
#pragma once
#include "h.h"
#include "bigmsg.h"
#include <memory>
using H::Rng; using H::Mem; typedef std::vector<uint8_t> V;

template <class A> struct Lane {
  typename A::S *s; std::unique_ptr<typename A::Model> m; V key, iv; std::vector<std::pair<V, V>> log; // packets since the last (re)start
};
template <class A> void lane_start(Lane<A> &l, Rng &r, bool rekey, const Lane<A> *other = nullptr) {
  Mem mem(r); const Lane<A> *o = l.key.size() ? &l : other; // keys and IVs related to earlier ones
  if (rekey) l.key = o && o->key.size() && r.chance(1, 4) ? r.near(o->key) : r.vec(A::keylen(r));
  l.iv = o && o->iv.size() && r.chance(1, 4) ? r.near(o->iv) : r.vec(A::ivlen());
  uint8_t *iv = mem.in("iv", l.iv);
  if (rekey) { uint8_t *k = mem.in("key", l.key); CALL(A::load(l.s, l.key, k, iv)); }
  else CALL(A::reiv(l.s, iv));
  mem.verify("wset");
  if (H::mon) l.m.reset(new typename A::Model(l.key, l.iv));
  l.log.clear();
}
template <class A> void lane_packet(Lane<A> &l, Rng &r, size_t n, bool alias, const char *key) {
  V pt = r.vec(n), want(n);
  if (H::mon) l.m->packet(pt.data(), want.data(), n);
  Mem mem(r);
  uint8_t *o;
  if (alias) { o = mem.inout("inout", pt.data(), n); CALL(A::process(l.s, o, o, n, false)); }
  else { uint8_t *i = mem.in("in", pt); o = mem.out("out", n); V before; if (H::mon && n == 0) before.assign(o, o + n); CALL(A::process(l.s, o, i, n, false)); }
  H::output("ciphertext", o, n);
  mem.verify("wset");
  if (H::mon) {
    H::same(key, "output", o, want.data(), n);
    l.m->resync(pt.data(), o, n);
    H::eval(H::mix(H::hash(pt.data(), n), H::hash(l.iv.data(), l.iv.size())), n > 0);
    H::count("bytes", n);
  }
  l.log.push_back({pt, V(o, o + n)});
}
// decrypting the transcript with a fresh state gives the plaintext back
template <class A> void lane_roundtrip(Lane<A> &l, Rng &r, bool alias) {
  typename A::S *s = H::new_state<typename A::S>();
  { Mem mem(r); uint8_t *k = mem.in("key", l.key), *iv = mem.in("iv", l.iv); CALL(A::load(s, l.key, k, iv)); mem.verify("wset"); }
  for (auto &p : l.log) {
    size_t n = p.first.size(); Mem mem(r); uint8_t *o;
    if (alias && A::alias_dec) { o = mem.inout("inout", p.second.data(), n); CALL(A::process(s, o, o, n, true)); }
    else { uint8_t *i = mem.in("in", p.second); o = mem.out("out", n); CALL(A::process(s, o, i, n, true)); }
    H::output("plaintext", o, n); mem.verify("wset");
    if (H::mon) { H::same(alias ? "alias:roundtrip" : "trip:roundtrip", "decrypted packet", o, p.first.data(), n); H::eval(H::mix(H::hash(o, n), 17), n > 0); H::count("roundtrips"); }
  }
  H::free_state(s);
}
template <class A> void session(Rng &r, bool alias, size_t maxlen, int maxops) {
  const char *key = alias ? "alias:output" : "model:output";
  std::vector<Lane<A>> L(1 + r.below(3));
  for (auto &l : L) { l.s = H::new_state<typename A::S>(); lane_start<A>(l, r, true, &L[0]); }
  int ops = 2 + (int)r.below(maxops);
  H::note("%s: %zu states;", A::name, L.size());
  for (int i = 0; i < ops; i++) {
    size_t w = r.below(L.size()); auto &l = L[w];
    unsigned c = (unsigned)r.below(100);
    if (c < 6) { H::note(" %zu:rekey", w); lane_start<A>(l, r, true); H::count("rekeys"); }
    else if (c < 16 && A::has_reiv) { H::note(" %zu:reiv", w); lane_start<A>(l, r, false); H::count("reivs"); }
    else { size_t n = A::fit(r.plen(maxlen)); H::note(" %zu:packet(%zu)", w, n); lane_packet<A>(l, r, n, alias, key); H::count("packets"); }
  }
  for (auto &l : L) { if (r.chance(1, 2)) lane_roundtrip<A>(l, r, alias); H::free_state(l.s); }
  H::sample_case();
}
// every pair of lengths: a packet of n bytes straight after one of m bytes, then one more
template <class A> void sweep(long idx, Rng &r, bool alias, int N) {
  const char *key = alias ? "alias:output" : "model:output";
  size_t a = A::fit(idx % N), b = A::fit(idx / N % N);
  Lane<A> l; l.s = H::new_state<typename A::S>(); lane_start<A>(l, r, true);
  H::note("%s: packet(%zu) packet(%zu) packet(33)", A::name, a, b);
  lane_packet<A>(l, r, a, alias, key); lane_packet<A>(l, r, b, alias, key); lane_packet<A>(l, r, A::fit(33), alias, key);
  lane_roundtrip<A>(l, r, alias);
  H::free_state(l.s); H::sample_case();
}
// every length of a first packet, then a short one
template <class A> void lens(long idx, Rng &r, bool alias) {
  const char *key = alias ? "alias:output" : "model:output"; size_t a = A::fit(idx), b = A::fit(r.below(80));
  Lane<A> l; l.s = H::new_state<typename A::S>(); lane_start<A>(l, r, true); H::note("%s: packet(%zu) packet(%zu)", A::name, a, b);
  lane_packet<A>(l, r, a, alias, key); lane_packet<A>(l, r, b, alias, key); if (idx % 3 == 0) lane_roundtrip<A>(l, r, alias);
  H::free_state(l.s); H::sample_case();
}
// one state, more packets than any 16-bit count of them holds; idx odd: loaded with another IV (or key) all the time
template <class A> void many(long idx, Rng &r, long count) {
  Lane<A> l; l.s = H::new_state<typename A::S>(); lane_start<A>(l, r, true); H::note("%s: %ld packets%s", A::name, count, idx & 1 ? ", an IV before every other" : "");
  for (long i = 0; i < count && H::viols_so_far() == 0; i++) { if ((idx & 1) && i % 2) lane_start<A>(l, r, !A::has_reiv); lane_packet<A>(l, r, A::fit(i % 16 ? r.below(20) : r.below(200)), false, "model:output"); l.log.clear(); H::count("packets"); }
  H::free_state(l.s); H::sample_case();
}
// one long stream: packets of given size, compared in pieces
template <class A> void longrun(Rng &r, const std::vector<size_t> &sizes, bool alias = false) {
  Lane<A> l; l.s = H::new_state<typename A::S>(); lane_start<A>(l, r, true);
  size_t mx = 0; for (size_t n : sizes) mx = n > mx ? n : mx;
  std::vector<uint8_t> in(alias ? 0 : mx), out(mx), w(1 << 20), z(1 << 20);
  H::note("%s long run:", A::name);
  uint64_t total = 0;
  for (size_t n0 : sizes) {
    size_t n = A::fit(n0); H::note(" packet(%zu)", n);
    // sparse plaintext: zero except a marker byte per MiB
    if (alias) memset(out.data(), 0, n);
    for (size_t i = 0; i < n; i += 1 << 20) (alias ? out : in)[i] = (uint8_t)(i >> 20) ^ 0x5a;
    CALL(A::process(l.s, out.data(), alias ? out.data() : in.data(), n, false));
    if (n) { // the model runs in 1 MiB pieces (multiples of every granularity)
      typename A::Model &m = *l.m;
      bool ok = true;
      for (size_t i = 0; i < n; i += 1 << 20) {
        size_t k = n - i < (1u << 20) ? n - i : 1u << 20; z[0] = (uint8_t)(i >> 20) ^ 0x5a;
        m.piece(z.data(), w.data(), k, i);
        if (ok && memcmp(w.data(), out.data() + i, k)) { size_t j = 0; while (w[j] == out[i + j]) j++; H::viol(alias ? "alias:long" : "model:long", "packet of %zu bytes after %llu bytes of stream: wrong output from byte %zu on", n, (unsigned long long)total, i + j); ok = false; }
      }
    }
    H::trace(out.data(), n); total += n; H::eval(H::mix(total, n)); H::count("bytes", n);
    H::sample("%s: one %zu-byte packet at stream offset %llu", A::name, n, (unsigned long long)(total - n));
  }
  H::free_state(l.s);
}
// a packet beyond 2^32 bytes, over a 64 MiB window mapped again and again, and an ordinary one after it; what the window
// holds in the end is compared (every byte of it: the last write to each position)
template <class A> void hugerun(Rng &r, size_t n, int reps = 1) {
  Lane<A> l; l.s = H::new_state<typename A::S>(); lane_start<A>(l, r, true); n = A::fit(n); const size_t W = BigMsg::W;
  H::note("%s %d x packet(%zu) packet(37)", A::name, reps, n);
  for (int rep = 0; rep < reps; rep++) { BigMsg in(r, n), out(r, n); V w(W);
    CALL(A::process(l.s, out.base, in.base, n, false));
#ifdef HUGE_SPARSE
    for (int i = 0; i < 400 && H::mon; i++) { // a slow but seekable model: spans of the last full round of windows
      size_t o = i == 0 ? (n - 4096) / 64 * 64 : (n - W + r.below(W - 4096)) / 64 * 64, q = o % W; if (q + 4096 > W) continue;
      l.m->spot(in.base + q, w.data(), 4096, o); if (!H::same("model:huge", "span of a huge packet", out.base + q, w.data(), 4096)) break; H::eval(H::mix(o, n)); }
    l.m->skip(n);
#else
    for (size_t o = 0; o < n; o += W) { size_t k = n - o < W ? n - o : W; l.m->piece(in.base, w.data(), k, o); }
    H::same("model:huge", "end of a huge packet", out.base, w.data(), W); H::eval(H::mix(H::hash(w.data(), W), n));
#endif
    H::count("bytes", n); }
  lane_packet<A>(l, r, A::fit(37), false, "model:output"); H::free_state(l.s); H::sample_case();
}
