#include "h.h"
#include "bigmsg.h"
#include <memory>
#include <algorithm>
#include "aes_cfb.h"
using H::Rng; using H::Mem; typedef std::vector<uint8_t> V;
#ifdef ROUND_REDUCED
#define RNDS 6
#else
#define RNDS 10
#endif
enum { ENC = ENCRYPT, DEC = DECRYPT };
struct Lane { aes_state *s; V key, iv; int dir; bool known; uint8_t reg[16]; std::unique_ptr<ref::aes128> k; std::vector<std::pair<V, V>> log; };
static void start(Lane &l, Rng &r) {
  l.key = l.key.size() && r.chance(1, 4) ? r.near(l.key) : r.vec(16); l.iv = l.iv.size() && r.chance(1, 4) ? r.near(l.iv) : r.vec(16); Mem mem(r); uint8_t *k = mem.in("key", l.key), *iv = mem.in("iv", l.iv);
  CALL(aes_cfb_initialize(l.s, k, iv)); mem.verify("wset");
  l.k.reset(new ref::aes128(l.key.data(), RNDS)); l.known = true; memcpy(l.reg, l.iv.data(), 16); l.log.clear();
}
// whole blocks: exact; tail: the mask bytes are distinct positions of E(register)
static void monitor(Lane &l, const V &in, const uint8_t *out, const char *key) {
  size_t n = in.size(); const uint8_t *ct = l.dir == ENC ? out : in.data();
  for (size_t b = 0; b < n; b += 16) {
    size_t t = n - b < 16 ? n - b : 16; uint8_t e[16];
    if (l.known) {
      l.k->encrypt(l.reg, e);
      if (t == 16) {
        uint8_t w[16]; for (int i = 0; i < 16; i++) w[i] = in[b + i] ^ e[i];
        char what[80]; snprintf(what, sizeof what, "whole block %zu of a %zu-byte packet", b / 16, n);
        if (!H::same(key, what, out + b, w, 16)) { l.known = false; }
        H::count("blocks-checked");
      } else {
        std::vector<uint8_t> pool(e, e + 16); bool ok = true;
        for (size_t i = 0; i < t && ok; i++) { auto it = std::find(pool.begin(), pool.end(), (uint8_t)(in[b + i] ^ out[b + i])); if (it == pool.end()) ok = false; else pool.erase(it); }
        V m(t); for (size_t i = 0; i < t; i++) m[i] = in[b + i] ^ out[b + i];
        if (!ok) H::viol("model:tail-mask", "tail of %zu bytes: its mask %s is not a selection of distinct bytes of E(register) = %s", t, ref::hex(m.data(), t).c_str(), ref::hex(e, 16).c_str());
        H::count("tails-checked");
      }
    } else H::count("units-after-partial");
    if (t == 16) { memcpy(l.reg, ct + b, 16); l.known = true; } else l.known = false;
  }
}
static void packet(Lane &l, Rng &r, size_t n, bool alias) {
  V in = r.vec(n); Mem mem(r); uint8_t *o;
  if (alias && l.dir == ENC) { o = mem.inout("inout", in.data(), n); CALL(aes_cfb_process_packet(l.s, o, o, (int)n, l.dir)); }
  else { uint8_t *i = mem.in("in", in); o = mem.out("out", n); CALL(aes_cfb_process_packet(l.s, o, i, (int)n, l.dir)); }
  H::output("out", o, n); mem.verify("wset");
  if (H::mon) { monitor(l, in, o, alias && l.dir == ENC ? "alias:block" : "model:block"); H::eval(H::mix(H::hash(in.data(), n), H::hash(l.iv.data(), 16)), n > 0); H::count("bytes", n); }
  l.log.push_back({in, V(o, o + n)});
}
static void roundtrip(Lane &l, Rng &r, const char *key) {
  aes_state *s = H::new_state<aes_state>(); { Mem mem(r); uint8_t *k = mem.in("key", l.key), *iv = mem.in("iv", l.iv); CALL(aes_cfb_initialize(s, k, iv)); }
  for (auto &p : l.log) { size_t n = p.first.size(); Mem mem(r); uint8_t *i = mem.in("in", p.second), *o = mem.out("out", n); CALL(aes_cfb_process_packet(s, o, i, (int)n, l.dir == ENC ? DEC : ENC));
    H::output("out", o, n); mem.verify("wset"); if (H::mon) { H::same(key, l.dir == ENC ? "decrypted packet" : "re-encrypted packet", o, p.first.data(), n); H::eval(H::mix(H::hash(o, n), 5), n > 0); H::count("roundtrips"); } }
  H::free_state(s);
}
static void session(Rng &r, bool alias) {
  std::vector<Lane> L(1 + r.below(3)); H::note("AES-CFB: %zu states;", L.size());
  for (auto &l : L) { l.s = H::new_state<aes_state>(); l.dir = !alias && r.chance(1, 3) ? DEC : ENC; start(l, r); }
  int ops = 2 + (int)r.below(10);
  for (int i = 0; i < ops; i++) {
    size_t w = r.below(L.size()); Lane &l = L[w];
    if (r.chance(1, 12)) { H::note(" %zu:init", w); start(l, r); }
    else { size_t n = r.chance(1, 2) ? r.below(36) : r.plen(3000); H::note(" %zu:%s(%zu)", w, l.dir == ENC ? "enc" : "dec", n); packet(l, r, n, alias); H::count("packets"); }
  }
  for (auto &l : L) { roundtrip(l, r, alias ? "alias:roundtrip" : "trip:roundtrip"); H::free_state(l.s); }
  H::sample_case();
}
static void sweep(long idx, Rng &r, bool alias) {
  size_t a = idx % 51, b = idx / 51 % 51; Lane l; l.s = H::new_state<aes_state>(); l.dir = ENC; start(l, r);
  H::note("AES-CFB enc(%zu) enc(%zu) enc(35)", a, b); packet(l, r, a, alias); packet(l, r, b, alias); packet(l, r, 35, alias); roundtrip(l, r, alias ? "alias:roundtrip" : "trip:roundtrip"); H::free_state(l.s); H::sample_case();
}
static void lens(long idx, Rng &r, bool alias) {
  size_t a = idx, b = r.below(80); Lane l; l.s = H::new_state<aes_state>(); l.dir = alias || r.chance(1, 2) ? ENC : DEC; start(l, r); H::note("AES-CFB %s(%zu) (%zu)", l.dir == ENC ? "enc" : "dec", a, b);
  packet(l, r, a, alias); packet(l, r, b, alias); roundtrip(l, r, alias ? "alias:roundtrip" : "trip:roundtrip"); H::free_state(l.s); H::sample_case();
}
// ---- self-synchronisation (twin receivers)
struct Unit { size_t pkt, off, len, pos; }; // pos: stream position of its first byte
static void sync(Rng &r) {
  V key = r.vec(16), iv = r.vec(16); std::vector<size_t> len; size_t np = 3 + r.below(10);
  for (size_t i = 0; i < np; i++) len.push_back(r.chance(2, 3) ? 1 + r.below(r.chance(1, 2) ? 16 : 40) : r.chance(1, 20) ? r.plen(5000) % 20000 + 1 : 1 + r.below(100));
  for (int i = 0; i < 4; i++) len.push_back(12 + r.below(24));
  np = len.size();
  auto mk = [&](const V &k, const V &v) { aes_state *s = H::new_state<aes_state>(); Mem mem(r); uint8_t *kk = mem.in("key", k), *vv = mem.in("iv", v); CALL(aes_cfb_initialize(s, kk, vv)); return s; };
  std::vector<V> pt(np), ct(np); std::vector<Unit> U; size_t pos = 0;
  aes_state *e = mk(key, iv); H::note("AES-CFB sync: packets");
  for (size_t i = 0; i < np; i++) { pt[i] = r.vec(len[i]); Mem mem(r); uint8_t *a = mem.in("in", pt[i]), *o = mem.out("out", len[i]); CALL(aes_cfb_process_packet(e, o, a, (int)len[i], ENC)); ct[i].assign(o, o + len[i]); H::note(" %zu", len[i]);
    for (size_t b = 0; b < len[i]; b += 16) { size_t t = len[i] - b < 16 ? len[i] - b : 16; U.push_back({i, b, t, pos}); pos += t; } }
  H::free_state(e);
  auto recv = [&](const V &k, const V &v, const std::vector<V> &c, size_t skip) { std::vector<V> o(np); aes_state *d = mk(k, v); for (size_t i = 0; i < np; i++) { if (i == skip) continue; Mem mem(r); uint8_t *a = mem.in("in", c[i]), *b = mem.out("out", len[i]); CALL(aes_cfb_process_packet(d, b, a, (int)len[i], DEC)); o[i].assign(b, b + len[i]); } H::free_state(d); return o; };
  const size_t none = ~(size_t)0;
  auto differs = [&](const std::vector<V> &g, const std::vector<V> &x, const Unit &u) { return memcmp(&g[u.pkt][u.off], &x[u.pkt][u.off], u.len) != 0; };
  std::vector<V> good = recv(key, iv, ct, none);
  for (size_t i = 0; i < np; i++) H::same("trip:roundtrip", "decrypted packet", good[i].data(), pt[i].data(), len[i]);
  // corruptions
  for (int rep = 0; rep < 6; rep++) {
    size_t ui = r.below(U.size()); Unit u = U[ui]; size_t o = r.below(u.len); uint8_t d = (uint8_t)(r.chance(1, 2) ? 1u << r.below(8) : 1 + r.below(255));
    std::vector<V> bad = ct; bad[u.pkt][u.off + o] ^= d; std::vector<V> x = recv(key, iv, bad, none);
    size_t cpos = u.pos + o; char w[120]; snprintf(w, sizeof w, "ciphertext byte %zu of the stream (packet %zu byte %zu) xor %02x", cpos, u.pkt, u.off + o, d);
    for (size_t j = 0; j < U.size(); j++) {
      const Unit &v = U[j];
      if (j < ui) { if (differs(good, x, v)) H::viol("sync:earlier-plaintext", "%s changed earlier plaintext (packet %zu offset %zu)", w, v.pkt, v.off); continue; }
      if (j == ui) { V want(good[v.pkt].begin() + v.off, good[v.pkt].begin() + v.off + v.len); want[o] ^= d; if (memcmp(want.data(), &x[v.pkt][v.off], v.len)) H::viol("sync:own-block", "%s: plaintext of its own block did not change in exactly that byte by that mask", w); continue; }
      size_t follow = v.pos - (u.pos + u.len), back = v.pos - cpos; // back: it is the back-th most recent byte
      bool df = differs(good, x, v);
      if (follow >= 16 && df) H::viol("sync:late-error", "%s still corrupts packet %zu offset %zu, %zu ciphertext bytes after its block", w, v.pkt, v.off, follow);
      else if (back >= 20 && df) H::viol("sync:late-error", "%s still corrupts packet %zu offset %zu although it is %zu bytes back", w, v.pkt, v.off, back);
      else if (back <= 12 && v.len >= 8 && !df) H::viol("sync:not-fed-back", "%s does not influence packet %zu offset %zu although it is only %zu bytes back", w, v.pkt, v.off, back);
      H::count(df ? "units-hit-by-error" : "units-unaffected");
    }
    H::eval(H::mix(H::hash(bad[u.pkt].data(), len[u.pkt]), cpos * 256 + d)); H::count("corruptions");
  }
  { // wrong IV
    V iv2 = iv; size_t q = r.below(16); iv2[q] ^= (uint8_t)(1 + r.below(255)); std::vector<V> x = recv(key, iv2, ct, none);
    for (auto &v : U) { bool df = differs(good, x, v); if (v.pos >= 16 && df) H::viol("sync:iv-lingers", "a wrong IV byte %zu still corrupts plaintext %zu bytes into the stream", q, v.pos); if (v.pos == 0 && v.len >= 8 && !df) H::viol("sync:iv-ignored", "IV byte %zu has no influence on the first block", q); }
    H::eval(H::hash(iv2.data(), 16)); H::count("wrong-ivs"); }
  { // wrong key
    V k2 = key; size_t q = r.below(16); k2[q] ^= (uint8_t)(1 + r.below(255)); std::vector<V> x = recv(k2, iv, ct, none);
    for (auto &v : U) if (v.len >= 8 && !differs(good, x, v)) H::viol("sync:key-ignored", "key byte %zu has no influence on packet %zu offset %zu", q, v.pkt, v.off);
    H::eval(H::hash(k2.data(), 16)); H::count("wrong-keys"); }
  { // lost packet
    size_t q = r.below(np - 1); std::vector<V> x = recv(key, iv, ct, q); size_t after = 0;
    for (auto &v : U) { if (v.pkt < q) { if (differs(good, x, v)) H::viol("sync:earlier-plaintext", "losing packet %zu changed packet %zu", q, v.pkt); } else if (v.pkt > q) { if (after >= 16 && differs(good, x, v)) H::viol("sync:no-resync", "after losing packet %zu, packet %zu offset %zu is still wrong %zu ciphertext bytes later", q, v.pkt, v.off, after); after += v.len; } }
    H::eval(H::mix(H::hash(iv.data(), 16), q)); H::count("lost-packets"); }
  H::sample_case();
}
void run_case(long idx, Rng &r) {
  const std::string &m = H::opt.mode;
  if (m == "sweep") sweep(idx, r, false); else if (m == "aliassweep") sweep(idx, r, true); else if (m == "alias") session(r, true);
  else if (m == "many") { Lane l; l.s = H::new_state<aes_state>(); l.dir = idx & 2 ? DEC : ENC; start(l, r); H::note("AES-CFB: 66000 or more packets%s", idx & 1 ? ", initialised before every other" : ""); for (long i = 0; i < H::many_count() && !H::viols_so_far(); i++) { if ((idx & 1) && i % 2) start(l, r); packet(l, r, i % 2 ? r.below(40) : 16 * r.below(3), false); if (!(idx & 1) && l.log.size() > 65800) continue; if (idx & 1) l.log.clear(); } if (!(idx & 1)) roundtrip(l, r, "trip:roundtrip"); H::free_state(l.s); H::sample_case(); }
  else if (m == "sync") sync(r); else if (m == "lens") lens(idx, r, false); else if (m == "aliaslens") lens(idx, r, true);
  else if (m == "long") {
    Lane l; l.s = H::new_state<aes_state>(); l.dir = ENC; start(l, r); V z; std::vector<size_t> sz = idx % 2 ? std::vector<size_t>(1500, 37) : std::vector<size_t>{(size_t)12 << 20, 7, 64, 1 << 20};
    H::note("AES-CFB long run of %zu packets", sz.size()); l.log.clear();
    for (size_t n : sz) packet(l, r, n, false); if (sz.size() < 10) roundtrip(l, r, "trip:roundtrip"); H::free_state(l.s); H::sample_case(); }
  else if (m == "early") { Lane l; l.s = H::new_state<aes_state>(); l.dir = ENC; start(l, r); size_t n = r.edge(0x7fffffff); bool d = r.chance(1, 2); H::note("AES-CFB %s(%zu) whose end is out of reach", d ? "dec" : "enc", n);
    { H::Cliff in(r, n), out(r, n); H::must_reach("model:stops-early", n, "packet", [&] { aes_cfb_process_packet(l.s, out.p, in.p, (int)n, d ? DEC : ENC); }); } H::free_state(l.s); H::sample_case(); }
  else if (m == "hugewin") { // the largest packet an int can describe, encrypted and decrypted over windows; then the stream goes on
    const size_t n = 0x7fffffff, W = BigMsg::W; Lane l; l.s = H::new_state<aes_state>(); l.dir = ENC; start(l, r); H::note("AES-CFB enc(%zu) enc(33), dec(%zu)", n, n);
    BigMsg in(r, n), out(r, n);
    auto spots = [&](const uint8_t *i, const uint8_t *o, const uint8_t *fb, const char *what) { for (int q = 0; q < 3000; q++) { size_t p = q == 0 ? n / 16 * 16 - 16 : (n - W + 32 + r.below(W - 64)) / 16 * 16; if (p % W < 16 || p + 16 > n) continue; uint8_t e[16], w[16]; l.k->encrypt(fb + (p - 16) % W, e); for (int j = 0; j < 16; j++) w[j] = i[p % W + j] ^ e[j]; if (!H::same("model:huge", what, o + p % W, w, 16)) return; H::eval(H::mix(p, q)); } H::count("bytes", n); };
    CALL(aes_cfb_process_packet(l.s, out.base, in.base, (int)n, ENC)); spots(in.base, out.base, out.base, "whole block of a 2^31-1 byte encryption");
    V nx = r.vec(33), ct(33), pt(33), head(64 + 15); CALL(aes_cfb_process_packet(l.s, ct.data(), nx.data(), 33, ENC)); memcpy(head.data(), out.base + n % W - head.size(), head.size());
    Lane d; d.s = H::new_state<aes_state>(); d.key = l.key; { V k = l.key, iv(16); CALL(aes_cfb_initialize(d.s, k.data(), iv.data())); V o(head.size()); CALL(aes_cfb_process_packet(d.s, o.data(), head.data(), (int)head.size(), DEC)); CALL(aes_cfb_process_packet(d.s, pt.data(), ct.data(), 33, DEC)); } H::same("trip:after-huge", "packet after a 2^31-1 byte packet", pt.data(), nx.data(), 33);
    { V k = l.key, iv = l.iv; CALL(aes_cfb_initialize(d.s, k.data(), iv.data())); BigMsg back(r, n); CALL(aes_cfb_process_packet(d.s, back.base, in.base, (int)n, DEC)); spots(in.base, back.base, in.base, "whole block of a 2^31-1 byte decryption"); }
    H::free_state(l.s); H::free_state(d.s); H::sample_case(); }
  else session(r, false);
}
long default_cases() { return 200; }
int main(int c, char **v) { return H::main_loop(c, v, RNDS == 10 ? "AES-CFB" : "AES-CFB-6-rounds"); }
