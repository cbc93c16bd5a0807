#include "h.h"
#include "bigmsg.h"
#include "hmac.h"
using H::Rng; using H::Mem; typedef std::vector<uint8_t> V;
struct Lane { hmac_state *s; V key; };
static void load(Lane &l, Rng &r, size_t kl) { l.key = l.key.size() && r.chance(1, 4) ? r.near(l.key) : r.vec(kl); kl = l.key.size(); Mem mem(r, false); uint8_t *k = mem.in("key", l.key); H::note(" key(%zu)", kl); CALL(hmac_load_key(l.s, k, (int)kl)); mem.verify("wset"); }
static V gen(Lane &l, Rng &r, const V &msg, int tl, const char *key = "model:tag") {
  Mem mem(r, false); uint8_t *m = mem.in("message", msg), *t = mem.out("tag", tl);
  CALL(hmac_tag_generation(l.s, t, m, msg.size(), tl)); H::output("tag", t, tl); mem.verify("wset");
  if (H::mon) { uint8_t w[32]; ref::hmac_sha256(l.key.data(), l.key.size(), msg.data(), msg.size(), w); char b[120]; snprintf(b, sizeof b, "%d-byte tag (key %zu bytes, message %zu bytes)", tl, l.key.size(), msg.size()); H::same(key, b, t, w, tl); H::eval(H::mix(H::hash(msg.data(), msg.size()), H::mix(H::hash(l.key.data(), l.key.size()), tl))); H::count("tags"); H::count("bytes", msg.size()); }
  return V(t, t + tl);
}
static void val(Lane &l, Rng &r, const V &msg, const V &tag, bool want, const char *what) {
  Mem mem(r, false); uint8_t *m = mem.in("message", msg), *t = mem.in("tag", tag); int v = 0;
  CALL(v = hmac_tag_validation(l.s, t, m, msg.size(), (int)tag.size())); uint8_t b = v != 0; H::output("verdict", &b, 1); mem.verify("wset");
  if (!H::mon) return;
  if (want && v != 1) H::viol("tamper:genuine-rejected", "genuine %zu-byte tag of a %zu-byte message rejected (%s)", tag.size(), msg.size(), what);
  if (!want && v != 0) { char key[90]; const char *sp = strchr(what, ' '); snprintf(key, sizeof key, "tamper:accepted-%.*s", sp ? (int)(sp - what) : (int)strlen(what), what); H::viol(key, "%zu-byte tag accepted for a %zu-byte message although %s", tag.size(), msg.size(), what); }
  H::eval(H::mix(H::hash(msg.data(), msg.size()), H::mix(H::hash(tag.data(), tag.size()), want))); H::count(want ? "validations-genuine" : "validations-forged");
}
static V truth(const Lane &l, const V &m, int tl) { uint8_t w[32]; ref::hmac_sha256(l.key.data(), l.key.size(), m.data(), m.size(), w); return V(w, w + tl); }
// alter; returns false if the alteration would be a no-op.  The verdict is decided by the reference, so an
// alteration that happens to give the same truncated tag is expected to be accepted.
static void forge(Lane &l, Rng &r, V m, V t) {
  char w[90] = ""; int tl = (int)t.size();
  switch (r.below(10)) {
    case 8: { size_t i = r.below(tl), j = r.below(tl); uint8_t d = (uint8_t)(1 + r.below(255)); t[i] += d; t[j] -= d; snprintf(w, sizeof w, "tag bytes %zu and %zu were changed by opposite amounts", i, j); break; }
    case 0: case 1: { size_t b = r.below(8 * tl); t[b / 8] ^= 1u << b % 8; snprintf(w, sizeof w, "tag bit %zu was flipped", b); break; }
    case 2: if (m.size()) { size_t b = 8 * r.pos(m.size()) + r.below(8); m[b / 8] ^= 1u << b % 8; snprintf(w, sizeof w, "message bit %zu was flipped", b); } break;
    case 3: if (m.size()) { m.resize(r.pos(m.size())); snprintf(w, sizeof w, "message was truncated"); } break;
    case 4: { size_t k = 1 + r.below(70); m.resize(m.size() + k, 0); snprintf(w, sizeof w, "message was zero-extended by %zu", k); break; }
    case 5: { size_t i = r.below(tl), j = r.below(tl); uint8_t d = (uint8_t)(1 + r.below(255)); t[i] ^= d; t[j] ^= d; snprintf(w, sizeof w, "tag bytes %zu and %zu were both xored", i, j); break; }
    case 6: { size_t i = r.below(tl), j = r.below(tl); std::swap(t[i], t[j]); snprintf(w, sizeof w, "tag bytes %zu and %zu were swapped", i, j); break; }
    case 7: for (auto &x : t) x = 0; snprintf(w, sizeof w, "zero tag"); break;
    default: r.fill(t.data(), t.size()); snprintf(w, sizeof w, "random tag");
  }
  if (!w[0]) return;
  val(l, r, m, t, truth(l, m, tl) == t, w);
}
void run_case(long idx, Rng &r) {
  const std::string &m = H::opt.mode; Lane a; 
  if (m == "sweep") { // every message length x key length class x tag length
    static const int kls[] = {0, 1, 16, 31, 32, 33, 55, 56, 63, 64, 65, 66, 119, 120, 127, 128, 129, 300}; size_t ml = idx % 260; a.s = H::new_state<hmac_state>(); H::note("HMAC"); load(a, r, kls[idx % 18]);
    V msg = r.vec(ml); int tl = 1 + (int)(idx % 32); H::note(" tag(%zu,%d)", ml, tl); V t = gen(a, r, msg, tl); val(a, r, msg, truth(a, msg, tl), true, "sweep"); t = gen(a, r, msg, 32); H::free_state(a.s); H::sample_case(); return; }
  if (m == "lens") { // every length of message or key
    size_t q = idx / 2, ml = idx & 1 ? r.below(100) : q; a.s = H::new_state<hmac_state>(); H::note("HMAC"); load(a, r, idx & 1 ? q : r.below(100)); V msg = r.vec(ml); int tl = 1 + (int)r.below(32); H::note(" tag(%zu,%d)", ml, tl); V t = gen(a, r, msg, tl); val(a, r, msg, truth(a, msg, tl), true, "lens"); H::free_state(a.s); H::sample_case(); return; }
  if (m == "many") { a.s = H::new_state<hmac_state>(); H::note("HMAC: 66000 or more tags and validations"); load(a, r, 64); for (long i = 0; i < H::many_count() && !H::viols_so_far(); i++) { if (idx & 1 && i % 2) load(a, r, r.below(100)); V msg = r.vec(r.below(40)); int tl = 1 + (int)r.below(32); if (i % 2) forge(a, r, msg, truth(a, msg, tl)); V t = gen(a, r, msg, tl); val(a, r, msg, t, true, "after many"); } H::free_state(a.s); H::sample_case(); return; }
  if (m == "grid") { // all single-bit changes of tag and message, all truncations
    a.s = H::new_state<hmac_state>(); H::note("HMAC single modifications;"); load(a, r, idx * 13 % 140); V msg = r.vec(idx * 3 % 67); int tl = 1 + (int)(idx * 7 % 32); V t = truth(a, msg, tl); char w[80]; H::note(" message %zu tag %d", msg.size(), tl);
    for (int b = 0; b < 8 * tl; b++) { V q = t; q[b / 8] ^= 1u << b % 8; snprintf(w, sizeof w, "tag bit %d was flipped", b); val(a, r, msg, q, false, w); }
    for (int b = 0; b < tl; b++) for (int d : {1, 0x55, 0xff}) { V q = t; q[b] += d; snprintf(w, sizeof w, "tag byte %d was changed", b); val(a, r, msg, q, false, w); }
    for (size_t b = 0; b < 8 * msg.size(); b++) { V q = msg; q[b / 8] ^= 1u << b % 8; snprintf(w, sizeof w, "message bit %zu was flipped", b); val(a, r, q, t, truth(a, q, tl) == t, w); }
    for (size_t k = 0; k < msg.size(); k++) { V q = msg; q.resize(k); snprintf(w, sizeof w, "message was truncated to %zu", k); val(a, r, q, t, truth(a, q, tl) == t, w); }
    for (size_t k = 1; k < 70; k++) { V q = msg; q.resize(q.size() + k, 0); snprintf(w, sizeof w, "message was zero-extended by %zu", k); val(a, r, q, t, truth(a, q, tl) == t, w); }
    for (size_t b = 0; b < 8 * a.key.size(); b += 1 + r.below(9)) { Lane o; o.s = H::new_state<hmac_state>(); o.key = a.key; o.key[b / 8] ^= 1u << b % 8; Mem mem(r, false); uint8_t *k = mem.in("key", o.key); CALL(hmac_load_key(o.s, k, (int)o.key.size())); snprintf(w, sizeof w, "key bit %zu differs", b); val(o, r, msg, t, truth(o, msg, tl) == t, w); H::free_state(o.s); }
    val(a, r, msg, t, true, "after the forgeries"); H::free_state(a.s); H::sample_case(); return; }
  if (m == "early") { a.s = H::new_state<hmac_state>(); H::note("HMAC"); load(a, r, 30); size_t n = r.edge((size_t)1 << 42); H::note(" of %zu bytes whose end is out of reach", n); H::Cliff in(r, n); V t = r.vec(32); bool g = r.chance(1, 2); H::must_reach("model:stops-early", n, "message", [&] { if (g) hmac_tag_generation(a.s, t.data(), in.p, n, 32); else hmac_tag_validation(a.s, t.data(), in.p, n, 32); }); H::free_state(a.s); H::sample_case(); return; }
  if (m == "long") { static const size_t sz[] = {(10u << 20) + 5, (1u << 29) + 11, ((size_t)1 << 31) + 3, ((size_t)1 << 32) + 9}; size_t n = sz[idx % 4]; a.s = H::new_state<hmac_state>(); H::note("HMAC"); load(a, r, 64); H::note(" tag(%zu)", n);
    BigMsg bm(r, n); uint8_t t[32], w[32], ik[64] = {0}, ok[64]; CALL(hmac_tag_generation(a.s, t, bm.base, n, 32));
    memcpy(ik, a.key.data(), 64); for (int i = 0; i < 64; i++) { ok[i] = ik[i] ^ 0x5c; ik[i] ^= 0x36; } ref::sha256 h; h.update(ik, 64); for (size_t o = 0; o < n; o += BigMsg::W) h.update(bm.base, n - o < BigMsg::W ? n - o : BigMsg::W); h.final(w); ref::sha256 g; g.update(ok, 64); g.update(w, 32); g.final(w);
    H::same("model:long-tag", "tag of a huge message", t, w, 32); H::eval(n); H::count("bytes", n); H::free_state(a.s); H::sample_case(); return; }
  std::vector<Lane> L(1 + r.below(3)); H::note("HMAC: %zu states;", L.size()); for (auto &l : L) { l.s = H::new_state<hmac_state>(); load(l, r, r.chance(1, 3) ? 64 : r.plen(300)); }
  int ops = 2 + (int)r.below(10);
  for (int i = 0; i < ops; i++) {
    size_t w = r.below(L.size()); Lane &l = L[w];
    if (r.chance(1, 12)) { load(l, r, r.plen(200)); continue; }
    size_t n = r.chance(1, 10) ? 0 : r.plen(2500); V msg = r.vec(n); int tl = r.chance(1, 3) ? 16 : 1 + (int)r.below(32);
    if (r.chance(1, 2)) { H::note(" %zu:tag(%zu,%d)", w, n, tl); gen(l, r, msg, tl); }
    V t = truth(l, msg, tl); H::note(" %zu:validate(%zu,%d)", w, n, tl);
    int k = (int)r.below(3); for (int q = 0; q < k; q++) forge(l, r, msg, t);
    val(l, r, msg, t, true, "session");
    if (L.size() > 1 && r.chance(1, 3)) { Lane &o = L[(w + 1) % L.size()]; val(o, r, msg, t, truth(o, msg, tl) == t, "foreign-key"); }
  }
  for (auto &l : L) H::free_state(l.s);
  H::sample_case();
}
long default_cases() { return 200; }
int main(int c, char **v) { return H::main_loop(c, v, "HMAC-SHA-256"); }
