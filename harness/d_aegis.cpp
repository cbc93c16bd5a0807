#include "h.h"
#include "bigmsg.h"
#include "aegis_128.h"
using H::Rng; using H::Mem; typedef std::vector<uint8_t> V;
struct Pkt { V iv, ad, pt, ct, tag; };
struct Lane { aegis_state *s; V key; std::vector<Pkt> sent; };
static void load(Lane &l, Rng &r, bool fresh) { if (fresh) l.key = l.key.size() && r.chance(1, 3) ? r.near(l.key) : r.vec(16); Mem mem(r); uint8_t *k = mem.in("key", l.key); CALL(aegis_load_key(l.s, k)); mem.verify("wset"); l.sent.clear(); }
static Pkt enc(Lane &l, Rng &r, size_t al, size_t n) {
  Pkt p; p.iv = l.sent.size() && r.chance(1, 5) ? r.near(l.sent.back().iv) : r.vec(16); p.ad = r.vec(al); p.pt = r.vec(n); Mem mem(r);
  uint8_t *iv = mem.in("iv", p.iv), *ad = mem.in("ad", p.ad), *pt = mem.in("pt", p.pt), *ct = mem.out("ct", n), *tag = mem.out("tag", 16);
  CALL(aegis_encrypt_packet(l.s, ct, tag, pt, ad, iv, al, n));
  H::output("ciphertext", ct, n); H::output("tag", tag, 16); mem.verify("wset");
  if (H::mon) {
    V w(n), wt(16); ref::aegis128_encrypt(l.key.data(), p.iv.data(), p.ad.data(), al, p.pt.data(), n, w.data(), wt.data());
    char what[90]; snprintf(what, sizeof what, "ciphertext of (ad %zu, msg %zu)", al, n); H::same("model:ciphertext", what, ct, w.data(), n);
    snprintf(what, sizeof what, "tag of (ad %zu, msg %zu)", al, n); H::same("model:tag", what, tag, wt.data(), 16);
    H::eval(H::mix(H::hash(w.data(), n), H::hash(wt.data(), 16))); H::count("encryptions"); H::count("bytes", n + al);
  }
  p.ct.assign(ct, ct + n); p.tag.assign(tag, tag + 16); return p;
}
// returns the verdict; out gets the plaintext buffer
static int dec(Lane &l, Rng &r, const Pkt &p, V &out) {
  size_t n = p.ct.size(); Mem mem(r);
  uint8_t *iv = mem.in("iv", p.iv), *ad = mem.in("ad", p.ad), *ct = mem.in("ct", p.ct), *tag = mem.inout("tag", p.tag.data(), 16), *pt = mem.out("pt", n); int v = 0;
  CALL(v = aegis_decrypt_packet(l.s, pt, ct, ad, iv, tag, p.ad.size(), n));
  H::output("plaintext", pt, n); uint8_t b = v != 0; H::output("verdict", &b, 1); mem.verify("wset");
  if (v && H::mon && memcmp(tag, p.tag.data(), 16)) H::viol("wset:input-modified-tag", "the tag of an accepted packet was modified");
  out.assign(pt, pt + n); return v;
}
static void genuine(Lane &l, Rng &r, const Pkt &p, const char *key) {
  V out; int v = dec(l, r, p, out);
  if (!H::mon) return;
  if (v != 1) H::viol(key, "genuine packet (ad %zu, msg %zu) was rejected", p.ad.size(), p.ct.size());
  H::same(key, "decrypted packet", out.data(), p.pt.data(), out.size()); H::eval(H::mix(H::hash(p.ct.data(), p.ct.size()), 3)); H::count("genuine-decryptions");
}
static void forged(Lane &l, Rng &r, const Pkt &q, const char *what) {
  V out; int v = dec(l, r, q, out);
  if (!H::mon) return;
  char key[100]; const char *sp = strchr(what, ' '); int kl = sp ? (int)(sp - what) : (int)strlen(what);
  if (v != 0) { snprintf(key, sizeof key, "tamper:accepted-%.*s", kl, what); H::viol(key, "packet with %s (ad %zu, msg %zu) was accepted", what, q.ad.size(), q.ct.size()); }
  for (size_t i = 0; i < out.size(); i++) if (out[i]) { H::viol("tamper:plaintext-released", "after rejecting a packet with %s (ad %zu, msg %zu) byte %zu of the plaintext buffer is %02x", what, q.ad.size(), q.ct.size(), i, out[i]); break; }
  H::eval(H::mix(H::mix(H::hash(q.ct.data(), q.ct.size()), H::hash(q.tag.data(), 16)), H::hash(q.ad.data(), q.ad.size()) ^ H::hash(q.iv.data(), 16))); H::count("forgeries");
}
static std::string mutate(Rng &r, Pkt &q, const Lane &l) {
  char w[100] = "";
  for (int tries = 0; tries < 20; tries++) switch (r.below(14)) {
    case 0: { size_t b = r.below(128); q.tag[b / 8] ^= 1u << b % 8; snprintf(w, sizeof w, "tag bit %zu flipped", b); return w; }
    case 1: if (q.ct.size()) { size_t b = 8 * r.pos(q.ct.size()) + r.below(8); q.ct[b / 8] ^= 1u << b % 8; snprintf(w, sizeof w, "ciphertext bit %zu flipped", b); return w; } break;
    case 2: if (q.ad.size()) { size_t b = 8 * r.pos(q.ad.size()) + r.below(8); q.ad[b / 8] ^= 1u << b % 8; snprintf(w, sizeof w, "ad bit %zu flipped", b); return w; } break;
    case 3: { size_t b = r.below(128); q.iv[b / 8] ^= 1u << b % 8; snprintf(w, sizeof w, "iv bit %zu flipped", b); return w; }
    case 4: { size_t i = r.below(16), j = r.below(16); uint8_t d = 1 + (uint8_t)r.below(255); if (i != j) { q.tag[i] ^= d; q.tag[j] ^= d; snprintf(w, sizeof w, "tag bytes %zu and %zu both xor %02x", i, j, d); return w; } break; }
    case 5: if (q.ct.size()) { size_t k = q.ct.size() - r.pos(q.ct.size()); q.ct.resize(q.ct.size() - k); snprintf(w, sizeof w, "truncated-ciphertext by %zu", k); return w; } break;
    case 6: { size_t k = 1 + r.below(20); size_t n = q.ct.size(); q.ct.resize(n + k, 0); if (r.chance(1, 2)) r.fill(&q.ct[n], k); snprintf(w, sizeof w, "extended-ciphertext by %zu", k); return w; }
    case 7: if (q.ad.size()) { size_t k = q.ad.size() - r.pos(q.ad.size()); q.ad.resize(q.ad.size() - k); snprintf(w, sizeof w, "truncated-ad by %zu", k); return w; } break;
    case 8: { size_t k = 1 + r.below(20); q.ad.resize(q.ad.size() + k, 0); snprintf(w, sizeof w, "zero-extended-ad by %zu", k); return w; }
    case 9: if (q.ct.size() >= 32) { size_t nb = q.ct.size() / 16, i = r.below(nb), j = r.below(nb); if (i != j && memcmp(&q.ct[16 * i], &q.ct[16 * j], 16)) { for (int t = 0; t < 16; t++) std::swap(q.ct[16 * i + t], q.ct[16 * j + t]); snprintf(w, sizeof w, "swapped-blocks %zu and %zu", i, j); return w; } } break;
    case 10: if (l.sent.size() > 1) { const Pkt &o = l.sent[r.below(l.sent.size())]; if (o.tag != q.tag) { q.tag = o.tag; return "foreign-tag of another packet"; } if (o.iv != q.iv) { q.iv = o.iv; return "foreign-iv of another packet"; } } break;
    case 11: { size_t i = r.below(16), j = r.below(16); uint8_t d = 1 + (uint8_t)r.below(255); if (i != j) { q.tag[i] += d; q.tag[j] -= d; snprintf(w, sizeof w, "tag-sum kept: byte %zu + %u, byte %zu - %u", i, d, j, d); return w; } break; }
    case 12: { size_t s = r.chance(1, 2) ? 1 : 4, i = s * r.below(16 / s), j = s * r.below(16 / s); if (memcmp(&q.tag[i], &q.tag[j], s)) { for (size_t t = 0; t < s; t++) std::swap(q.tag[i + t], q.tag[j + t]); snprintf(w, sizeof w, "tag-bytes swapped: %zu at %zu and %zu", s, i, j); return w; } break; }
    default: { V t = r.vec(16); if (t != q.tag) { q.tag = t; return "random-tag"; } }
  }
  q.tag[0] ^= 1; return "tag bit 0 flipped";
}
static void session(Rng &r, bool tamper) {
  std::vector<Lane> L(1 + r.below(3)); H::note("AEGIS: %zu states;", L.size());
  for (auto &l : L) { l.s = H::new_state<aegis_state>(); load(l, r, true); }
  int ops = 2 + (int)r.below(8);
  for (int i = 0; i < ops; i++) {
    size_t w = r.below(L.size()); Lane &l = L[w];
    if (r.chance(1, 14)) { H::note(" %zu:key", w); load(l, r, true); continue; }
    if (l.sent.empty() || r.chance(1, 2)) { size_t al = r.chance(1, 2) ? r.below(50) : r.plen(1500), n = r.chance(1, 2) ? r.below(50) : r.plen(2500); H::note(" %zu:enc(%zu,%zu)", w, al, n); l.sent.push_back(enc(l, r, al, n)); }
    Pkt p = l.sent[r.below(l.sent.size())];
    if (tamper) { int k = 1 + (int)r.below(3); for (int t = 0; t < k; t++) { Pkt q = p; std::string what = mutate(r, q, l); H::note(" %zu:forge", w); forged(l, r, q, what.c_str()); } genuine(l, r, p, "tamper:state-unusable"); }
    else { H::note(" %zu:dec", w); genuine(l, r, p, "trip:genuine"); }
  }
  for (auto &l : L) { // a fresh receiver
    Lane f; f.s = H::new_state<aegis_state>(); f.key = l.key; load(f, r, false); for (auto &p : l.sent) if (r.chance(1, 2)) genuine(f, r, p, tamper ? "tamper:state-unusable" : "trip:genuine"); H::free_state(f.s); H::free_state(l.s); }
  H::sample_case();
}
void run_case(long idx, Rng &r) {
  const std::string &m = H::opt.mode;
  if (m == "sweep") { // every (ad, message) length pair
    size_t al = idx % 36, n = idx / 36 % 52; Lane l; l.s = H::new_state<aegis_state>(); load(l, r, true); H::note("AEGIS enc+dec(ad %zu, msg %zu)", al, n); Pkt p = enc(l, r, al, n); genuine(l, r, p, "trip:genuine"); H::free_state(l.s); H::sample_case(); return; }
  if (m == "lens") { // every length of either
    size_t q = idx / 2, t = r.below(70), al = idx & 1 ? q : t, n = idx & 1 ? t : q; Lane l; l.s = H::new_state<aegis_state>(); load(l, r, true); H::note("AEGIS enc+dec(ad %zu, msg %zu)", al, n); Pkt p = enc(l, r, al, n); genuine(l, r, p, "trip:genuine"); H::free_state(l.s); H::sample_case(); return; }
  if (m == "many") { Lane l; l.s = H::new_state<aegis_state>(); load(l, r, true); H::note("AEGIS: 66000 or more packets, every other one rejected first"); for (long i = 0; i < H::many_count() && !H::viols_so_far(); i++) { if (idx & 1 && i % 3 == 0) load(l, r, true); Pkt p = enc(l, r, r.below(20), r.below(36)); if (i % 2) { Pkt q = p; forged(l, r, q, mutate(r, q, l).c_str()); } genuine(l, r, p, i % 2 ? "tamper:state-unusable" : "trip:genuine"); l.sent.clear(); } H::free_state(l.s); H::sample_case(); return; }
  if (m == "grid") { // every bit of tag and iv, every byte of ad and ciphertext, every truncation
    size_t al = idx * 7 % 37, n = idx * 5 % 41; Lane l; l.s = H::new_state<aegis_state>(); load(l, r, true); H::note("AEGIS all single modifications of (ad %zu, msg %zu)", al, n); Pkt p = enc(l, r, al, n); char w[60];
    for (int b = 0; b < 128; b++) { Pkt q = p; q.tag[b / 8] ^= 1u << b % 8; snprintf(w, sizeof w, "tag bit %d flipped", b); forged(l, r, q, w); }
    for (int b = 0; b < 128; b++) { Pkt q = p; q.iv[b / 8] ^= 1u << b % 8; snprintf(w, sizeof w, "iv bit %d flipped", b); forged(l, r, q, w); }
    for (size_t b = 0; b < n; b++) { Pkt q = p; q.ct[b] ^= 1u << r.below(8); snprintf(w, sizeof w, "ciphertext byte %zu altered", b); forged(l, r, q, w); }
    for (size_t b = 0; b < al; b++) { Pkt q = p; q.ad[b] ^= 1u << r.below(8); snprintf(w, sizeof w, "ad byte %zu altered", b); forged(l, r, q, w); }
    for (size_t k = 0; k < n; k++) { Pkt q = p; q.ct.resize(k); snprintf(w, sizeof w, "truncated-ciphertext to %zu", k); forged(l, r, q, w); }
    for (size_t k = 0; k < al; k++) { Pkt q = p; q.ad.resize(k); snprintf(w, sizeof w, "truncated-ad to %zu", k); forged(l, r, q, w); }
    for (size_t k = 1; k < 18; k++) { Pkt q = p; q.ad.resize(al + k, 0); snprintf(w, sizeof w, "zero-extended-ad by %zu", k); forged(l, r, q, w); q = p; q.ct.resize(n + k, 0); snprintf(w, sizeof w, "zero-extended-ciphertext by %zu", k); forged(l, r, q, w); }
    genuine(l, r, p, "tamper:state-unusable"); H::free_state(l.s); H::sample_case(); return; }
  if (m == "early") { Lane l; l.s = H::new_state<aegis_state>(); load(l, r, true); V iv = r.vec(16); uint8_t tag[16] = {0}; bool a = r.chance(1, 3), d = r.chance(1, 2); size_t n = r.edge((size_t)1 << 42); if (a) n = n / 16 * 16; // other associated data is copied (and cleared) first
    H::note("AEGIS %s(%s %zu) whose end is out of reach", d ? "dec" : "enc", a ? "ad" : "msg", n); H::Cliff in(r, n), out(r, n);
    H::must_reach("model:stops-early", n, a ? "associated data" : "message", [&] { if (d) aegis_decrypt_packet(l.s, out.p, in.p, a ? in.p : tag, iv.data(), tag, a ? n : 0, a ? 5 : n); else aegis_encrypt_packet(l.s, out.p, tag, in.p, a ? in.p : tag, iv.data(), a ? n : 0, a ? 5 : n); });
    H::free_state(l.s); H::sample_case(); return; }
  if (m == "huge") { // windows mapped over and over stand for the data, so lengths are not limited by memory
    static const size_t AL[] = {(1ull << 29) + 16, 20, 3, (1ull << 32) + 32}, MN[] = {7, (1ull << 29) + 21, (1ull << 32) + 37, (1ull << 31) + 5};
    size_t al = AL[idx % 4], n = MN[idx % 4]; H::note("AEGIS huge enc+dec(ad %zu, msg %zu)", al, n);
    Lane l; l.s = H::new_state<aegis_state>(); load(l, r, true); V iv = r.vec(16), ivc = iv; uint8_t tag[16], want[16];
    BigMsg ad(r, al), pt(r, n), ct(r, n); std::vector<uint64_t> hs; const size_t W = BigMsg::W;
    CALL(aegis_encrypt_packet(l.s, ct.base, tag, pt.base, ad.base, iv.data(), al, n));
    size_t m0 = n < W ? n : W; uint64_t h = H::hash(ct.base, m0);
    ref::aegis128_encrypt(l.key.data(), iv.data(), ad.base, al, pt.base, n, ct.base, want);
    H::same("model:tag", "tag of a huge packet", tag, want, 16); if (h != H::hash(ct.base, m0)) H::viol("model:ciphertext", "ciphertext of a huge packet (ad %zu, msg %zu)", al, n);
    H::trace(tag, 16); H::eval(H::mix(h, idx)); H::count("bytes", al + n);
    if (n < W) { V out(n); CALL(int v = aegis_decrypt_packet(l.s, out.data(), ct.base, ad.base, iv.data(), tag, al, n); if (v != 1) H::viol("trip:genuine", "genuine huge packet rejected")); H::same("trip:genuine", "huge packet", out.data(), pt.base, n); H::eval(H::mix(h, 1)); }
    { // the (aliased) windows hold the last of the ciphertext: some other ciphertext, which must be rejected and wiped
      BigMsg out(r, n); uint8_t bad[16]; memcpy(bad, tag, 16); bad[15] ^= 0x80; CALL(int v = aegis_decrypt_packet(l.s, out.base, ct.base, ad.base, iv.data(), bad, al, n); if (v) H::viol("tamper:accepted-tag", "huge packet with a tag bit flipped was accepted"));
      for (size_t i = 0; i < m0; i++) if (out.base[i]) { H::viol("tamper:plaintext-released", "after rejecting a huge packet (ad %zu, msg %zu) byte %zu of the plaintext buffer is %02x", al, n, i, out.base[i]); break; }
      H::eval(H::mix(h, 2)); H::count("forgeries"); }
    if (iv != ivc) H::viol("wset:input-modified-iv", "the IV of a huge packet was modified");
    H::free_state(l.s); H::sample_case(); return; }
  if (m == "long") { Lane l; l.s = H::new_state<aegis_state>(); load(l, r, true); size_t al = idx % 2 ? (12u << 20) + 3 : 70001, n = idx % 2 ? 100003 : (12u << 20) + 13; H::note("AEGIS long enc+dec(ad %zu, msg %zu)", al, n); Pkt p = enc(l, r, al, n); genuine(l, r, p, "trip:genuine"); if (idx >= 2) { Pkt q = p; q.ct[n - 1 - r.below(n)] ^= 8; forged(l, r, q, "ciphertext far byte altered"); q = p; q.ad[al - 1 - r.below(al)] ^= 1; forged(l, r, q, "ad far byte altered"); } H::free_state(l.s); H::sample_case(); return; }
  session(r, m == "tamper" || (!H::mon && r.chance(1, 2)));
}
long default_cases() { return 200; }
int main(int c, char **v) { return H::main_loop(c, v, "AEGIS-128"); }
