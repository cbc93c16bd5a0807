// Encrypt-then-MAC as composed in the repository's example: sender, hex transport, hostile channel, receiver.
#include "h.h"
#include "hmac.h"
#include "aes_cfb.h"
#include "hc128.h"
#include "encoder.h"
using H::Rng; using H::Mem; typedef std::vector<uint8_t> V;
static const int TAG = 16;
// one end
struct End { bool cfb; hmac_state *a; aes_state *e; hc128_state *h; V ekey; };
static End mk(Rng &r, bool cfb, const V &ak, const V &ek, const V &iv) {
  End x; x.cfb = cfb; x.ekey = ek; x.a = H::new_state<hmac_state>(); x.e = H::new_state<aes_state>(); x.h = H::new_state<hc128_state>();
  Mem mem(r); uint8_t *k = mem.in("akey", ak), *ke = mem.in("ekey", ek), *i = mem.in("iv", iv);
  CALL(hmac_load_key(x.a, k, (int)ak.size())); if (cfb) CALL(aes_cfb_initialize(x.e, ke, i)); mem.verify("wset"); return x;
}
static void drop(End &x) { H::free_state(x.a); H::free_state(x.e); H::free_state(x.h); }
static V seal(End &x, Rng &r, const V &pt, const V &iv) { // -> hex text
  size_t n = pt.size(), hd = x.cfb ? 0 : 16, N = hd + n + TAG; Mem mem(r);
  uint8_t *p = mem.in("plaintext", pt), *m = mem.out("msg", N), *t = mem.out("hex", 2 * N + 1);
  if (x.cfb) CALL(aes_cfb_process_packet(x.e, m, p, (int)n, ENCRYPT));
  else { uint8_t *k = mem.in("ekey", x.ekey); memcpy(m, iv.data(), 16); CALL(hc128_initialize(x.h, k, m)); CALL(hc128_process_packet(x.h, m + 16, p, n)); }
  CALL(hmac_tag_generation(x.a, m + hd + n, m, hd + n, TAG)); CALL(hex_encode((char *)t, m, (int)N));
  H::output("packet", t, 2 * N + 1); mem.verify("wset"); return V(t, t + 2 * N);
}
// returns -1 rejected, else delivers
static int open(End &x, Rng &r, const V &text, V &out) {
  size_t N = text.size() / 2, hd = x.cfb ? 0 : 16; if (N < hd + TAG) return -1;
  size_t n = N - hd - TAG; Mem mem(r); uint8_t *t = mem.in("hex", text), *m = mem.out("msg", N), *o = mem.out("plaintext", n); int v = 0;
  CALL(hex_decode(m, (char *)t, (int)(2 * N)));
  CALL(v = hmac_tag_validation(x.a, m + hd + n, m, hd + n, TAG)); uint8_t b = v != 0; H::output("verdict", &b, 1);
  if (!v) { mem.verify("wset"); return -1; }
  if (x.cfb) CALL(aes_cfb_process_packet(x.e, o, m, (int)n, DECRYPT));
  else { uint8_t *k = mem.in("ekey", x.ekey); CALL(hc128_initialize(x.h, k, m)); CALL(hc128_process_packet(x.h, o, m + 16, n)); }
  H::output("plaintext", o, n); mem.verify("wset"); out.assign(o, o + n); return 1;
}
static const char X[] = "0123456789ABCDEF";
static const char *fault(Rng &r, V &t, const std::vector<V> &old, bool cfb) {
  size_t N = t.size() / 2;
  switch (r.below(9)) {
    case 0: case 1: { size_t i = r.pos(t.size()); uint8_t c = (uint8_t)X[r.below(16)]; if (t[i] == c) return nullptr; t[i] = c; return "altered"; }
    case 2: { size_t k = N - r.pos(N); t.resize(2 * (N - k)); return "truncated at the end"; }
    case 3: { size_t k = N - r.pos(N); t.erase(t.begin(), t.begin() + 2 * k); return "truncated at the front"; }
    case 4: { size_t k = 1 + r.below(40); for (size_t i = 0; i < 2 * k; i++) t.push_back(r.chance(1, 2) ? '0' : X[r.below(16)]); return "extended"; }
    case 5: { if (N < 4) return nullptr; size_t i = r.below(N), j = r.below(N); if (i == j || (t[2 * i] == t[2 * j] && t[2 * i + 1] == t[2 * j + 1])) return nullptr; std::swap(t[2 * i], t[2 * j]); std::swap(t[2 * i + 1], t[2 * j + 1]); return "reordered inside"; }
    case 6: if (old.size() > 1 && !cfb) { V q = old[r.below(old.size())]; if (q.size() < 32 || t.size() < 32) return nullptr; V u = t; std::copy(q.begin(), q.begin() + 32, u.begin()); if (u == t) return nullptr; t = u; return "replayed under another IV"; } return nullptr;
    case 7: if (old.size() > 1) { const V &q = old[r.below(old.size())]; V u = t; std::copy(q.end() - 2 * TAG, q.end(), u.end() - 2 * TAG); if (u == t) return nullptr; t = u; return "given the tag of another packet"; } return nullptr;
    default: if (old.size() > 1) { const V &q = old[r.below(old.size())]; V u = q; std::copy(t.end() - 2 * TAG, t.end(), u.end() - 2 * TAG); if (u == t || u == q) return nullptr; t = u; return "replaced by the body of another packet"; } return nullptr;
  }
}
void run_case(long idx, Rng &r) {
  bool sweep = H::mode_is("sweep"), many = H::mode_is("many"); bool cfb = sweep ? idx & 1 : r.chance(1, 2); V ak = r.vec(sweep || r.chance(1, 2) ? 64 : r.len(150)), ek = r.vec(16), iv = r.vec(16);
  End a = mk(r, cfb, ak, ek, iv), b = mk(r, cfb, ak, ek, iv); int np = many ? (int)H::many_count() : sweep ? 3 : 1 + (int)r.below(10); std::vector<V> sent;
  H::note("EtM %s:", cfb ? "AES-CFB" : "HC-128");
  for (int i = 0; i < np; i++) {
    size_t n = sweep ? (i == 0 ? idx / 2 % 150 : r.below(40)) : many ? r.below(30) : r.chance(1, 8) ? 0 : r.plen(1500); V pt = r.vec(n), pi(16); r.fill(pi.data(), 16); H::note(" send(%zu)", n);
    V t = seal(a, r, pt, pi); if (many && sent.size() > 40) sent.erase(sent.begin()); sent.push_back(t); H::count("packets");
    int bad = (int)r.below(sweep ? 2 : 4);
    for (int f = 0; f < bad; f++) { // the channel delivers altered copies first; the receiver rejects them, the packet is sent again
      V q = t; const char *what = fault(r, q, sent, cfb); if (!what) continue; bool genuine = false; for (auto &s : sent) if (s == q) genuine = true; if (genuine) continue;
      H::note(" fault"); V out; int v = open(b, r, q, out);
      if (H::mon) { if (v > 0) H::viol("tamper:delivered", "a packet that was %s was accepted and %zu bytes were delivered", what, out.size()); H::eval(H::hash(q.data(), q.size())); H::count("faults"); }
    }
    V out; int v = open(b, r, t, out);
    if (H::mon) { if (v < 0) H::viol("trip:rejected", "an intact %zu-byte packet (number %d) was rejected", n, i); else if (out != pt) { if (out.size() == pt.size()) H::same("trip:delivered", "delivered plaintext", out.data(), pt.data(), n); else H::viol("trip:delivered", "delivered %zu bytes instead of %zu", out.size(), n); } H::eval(H::mix(H::hash(t.data(), t.size()), 3)); H::count("deliveries"); }
  }
  drop(a); drop(b); H::sample_case();
}
long default_cases() { return 200; }
int main(int c, char **v) { return H::main_loop(c, v, "Encrypt-then-MAC"); }
