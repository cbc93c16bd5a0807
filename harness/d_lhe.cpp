#include "h.h"
#include "jlkeys.h"
#include <climits>
#include <memory>
#ifdef MU
#include "mu_labeled_he.h"
#define F(x) mu_he_##x
#define NAME "muLabeledHE"
#else
#include "labeled_he.h"
#define F(x) he_##x
#define NAME "LabeledHE"
#endif
#include HC_HEADER
extern void joye_libert_encrypt(mpz_t c, gmp_randstate_t state, const mpz_t m, const mpz_t y, const mpz_t N, const uint32_t msgsize);
extern void joye_libert_decrypt(mpz_t m, const mpz_t c, const mpz_t p, const mpz_t y, const uint32_t msgsize);
using H::Rng;
// level 1: (a, beta); level 2: one group element.  v = value, b = combined mask
struct C1 { he_ct c; Z v, b; ~C1() { mpz_clear(c.a); mpz_clear(c.beta); } C1() {} C1(const C1 &) = delete; void set(const C1 &o) { mpz_set(c.a, o.c.a); mpz_set(c.beta, o.c.beta); } };
struct C2 { Z c, v, b; };
struct User { hc128_state *hc; std::vector<Z> labels; std::vector<Z> masks; std::vector<uint8_t> key, iv; };
typedef JLKey Key;
// constants may be larger than the message space
static void z_const(Z &e, Rng &r, unsigned k) { z_msg(e, r, k); if (r.chance(1, 6)) { Z h; z_msg(h, r, 1 + (unsigned)r.below(k + 64)); mpz_mul_2exp(h, h, k - (r.chance(1, 2) ? 0 : r.below(k))); mpz_add(e, e, h); H::count("large-constants"); } }
static Z modk(const Z &x, unsigned k) { Z t; mpz_fdiv_r_2exp(t, x, k); return t; }
struct Snap { std::vector<std::pair<mpz_srcptr, Z>> v; void add(mpz_srcptr z) { Z t; mpz_set(t, z); v.push_back({z, t}); } void add(const C1 &c) { add(c.c.a); add(c.c.beta); } void check() { if (!H::mon) return; for (auto &p : v) if (mpz_cmp(p.first, p.second)) H::viol("wset:input-modified", "an input big integer was modified"); H::count("inputs-watched", v.size()); } };
static void chk1(const C1 &x, const Key &K, const char *w) {
  Z m, b; mpz_set_ui(m, 9); Snap s; s.add(x); s.add(K.p); s.add(K.y); CALL(F(decrypt)(m, &x.c, K.p, K.y, K.k)); s.check(); z_out("message", m); if (!H::mon) return;
  char key[80]; snprintf(key, sizeof key, "model:%s", w); if (!(m == x.v)) H::viol(key, "level-1 result of %s decrypts to %s, the program's value is %s (k=%u)", w, m.s().c_str(), x.v.s().c_str(), K.k);
  // offline decryption: a + b
  mpz_add(b, x.c.a, x.b); if (!(modk(b, K.k) == x.v)) H::viol(key, "level-1 result of %s: a + combined mask is not the program's value %s (k=%u)", w, x.v.s().c_str(), K.k);
  if (mpz_sgn(x.c.beta) <= 0 || mpz_cmp(x.c.beta, K.N) >= 0) H::viol("model:range", "beta out of [1,N) after %s", w);
  if (mpz_sgn(x.c.a) < 0 || mpz_sizeinbase(x.c.a, 2) > K.k) H::viol("model:range", "a outside [0, 2^k) after %s", w);
  std::string t = m.s(); H::eval(H::mix(H::hash(t.data(), t.size()), H::hash(w, strlen(w)) ^ mpz_get_ui(x.c.beta))); H::count("decryptions"); H::count(w);
}
static void chk2(const C2 &x, const Key &K, const char *w) {
  Z m; mpz_set_ui(m, 9); Snap s; s.add(x.c); s.add(x.b); s.add(K.p); s.add(K.y); CALL(F(decrypt)(m, x.c, x.b, K.p, K.y, K.k)); s.check(); z_out("message", m); if (!H::mon) return;
  char key[80]; snprintf(key, sizeof key, "model:%s", w); if (!(m == x.v)) H::viol(key, "level-2 result of %s decrypts to %s, the program's value is %s (k=%u)", w, m.s().c_str(), x.v.s().c_str(), K.k);
  if (mpz_sgn(x.c.z) <= 0 || mpz_cmp(x.c, K.N) >= 0) H::viol("model:range", "level-2 result of %s outside [1,N)", w);
  std::string t = m.s(); H::eval(H::mix(H::hash(t.data(), t.size()), H::hash(w, strlen(w)) ^ mpz_get_ui(x.c))); H::count("decryptions"); H::count(w);
}
static void fin1(C1 &x, unsigned k) { x.v = modk(x.v, k); x.b = modk(x.b, k); z_out("a", x.c.a); z_out("beta", x.c.beta); }
static void fin2(C2 &x, unsigned k) { x.v = modk(x.v, k); x.b = modk(x.b, k); z_out("alpha", x.c); }
static void encrypt(C1 &x, User &u, RS &st, Rng &r, const Key &K) {
  Z lab; for (int t = 0; t < 50; t++) { unsigned lb = r.chance(1, 3) ? K.k : 1 + (unsigned)r.below(K.k); if (u.labels.size() && r.chance(1, 4)) { lab = u.labels[r.below(u.labels.size())]; if (r.chance(1, 2)) mpz_mul_2exp(lab, lab, K.k < 8 ? 1 : 8 * (1 + r.below(K.k / 8))); else mpz_add_ui(lab, lab, 1 + r.below(300)); if (mpz_sizeinbase(lab, 2) > K.k) z_bits(lab, r, lb); } else if (r.chance(1, 3)) mpz_set_ui(lab, r.below(6)); else z_bits(lab, r, lb); mpz_fdiv_r_2exp(lab, lab, K.k); bool dup = false; for (auto &o : u.labels) if (o == lab) dup = true; if (!dup) break; } u.labels.push_back(lab);
  z_msg(x.v, r, K.k); Snap s; s.add(x.v); s.add(K.y); s.add(K.N); s.add(lab); mpz_set_ui(x.b, 77);
  CALL(F(encrypt)(&x.c, st.s, u.hc, x.b, x.v, K.y, K.N, lab, K.k)); s.check(); z_out("mask", x.b); H::note(" enc(label %zu bits)", mpz_sizeinbase(lab, 2));
  if (H::mon && (mpz_sgn(x.b.z) < 0 || mpz_sizeinbase(x.b, 2) > K.k)) H::viol("model:mask-range", "label mask outside [0, 2^k)");
  if (H::mon && (mpz_sgn(x.c.a) < 0 || mpz_sizeinbase(x.c.a, 2) > K.k)) H::viol("model:range", "a outside [0, 2^k)");
  if (r.chance(1, 5)) { // the same label again, for a message at a chosen small distance from the mask
    Z b2; mpz_set(x.v, x.b); switch (r.below(6)) { case 0: mpz_add_ui(x.v, x.v, 1); break; case 1: mpz_sub_ui(x.v, x.v, 1); break; case 2: { Z h; mpz_setbit(h, K.k - 1); mpz_add(x.v, x.v, h); break; } case 3: mpz_add_ui(x.v, x.v, r.below(300)); break; } x.v = modk(x.v, K.k);
    CALL(F(encrypt)(&x.c, st.s, u.hc, b2, x.v, K.y, K.N, lab, K.k)); H::note(" re-enc"); H::count("chosen-differences");
    if (H::mon && !(b2 == x.b)) H::viol("model:mask-not-a-function", "the mask of a label was %s and is now %s (k=%u)", x.b.s().c_str(), b2.s().c_str(), K.k);
  }
  fin1(x, K.k); chk1(x, K, "encrypt");
  // b = F(K, label): a function of seed and label, injective on the labels of a run
  for (size_t i = 0; i < u.masks.size(); i++) if (H::mon && u.masks[i] == x.b && !(u.labels[i] == lab)) H::viol("model:mask-collision", "two different labels of one seed got the same mask %s (k=%u)", x.b.s().c_str(), K.k);
  u.masks.push_back(x.b);
  if (H::mon && r.chance(1, 3)) { // re-derive the mask of an earlier label, from the used state or from one freshly seeded
    size_t i = r.below(u.masks.size()); bool fresh = r.chance(1, 2); hc128_state *h = u.hc; if (fresh) { h = H::new_state<hc128_state>(); std::vector<uint8_t> k = u.key, v = u.iv; hc128_initialize(h, k.data(), v.data()); }
    C1 y; Z m2, b2; z_msg(m2, r, K.k); F(encrypt)(&y.c, st.s, h, b2, m2, K.y, K.N, u.labels[i], K.k); H::note(" relabel"); H::count("masks-rederived");
    if (!(b2 == u.masks[i])) H::viol("model:mask-not-a-function", "the mask of a label was %s and is now %s (%s state, k=%u)", u.masks[i].s().c_str(), b2.s().c_str(), fresh ? "freshly seeded" : "used", K.k);
    y.v = m2; y.b = b2; chk1(y, K, "encrypt"); if (fresh) H::free_state(h);
  }
  if (H::mon && r.chance(1, 4)) { // another seed: another mask
    hc128_state *h = H::new_state<hc128_state>(); std::vector<uint8_t> k = r.vec(16), v = r.vec(16); r.fill(k.data(), 16); hc128_initialize(h, k.data(), v.data());
    C1 y; Z m2, b2; F(encrypt)(&y.c, st.s, h, b2, m2, K.y, K.N, lab, K.k); H::count("seeds-compared"); if (b2 == x.b && K.k >= 64) H::viol("model:mask-ignores-seed", "two seeds gave a label the same %u-bit mask", K.k); H::free_state(h);
  }
}
static void jl(Z &c, RS &st, const Z &m, const Key &K) { CALL(joye_libert_encrypt(c, st.s, m, K.y, K.N, K.k)); }
static void program(Rng &r, Key &K, RS &st, int ops) {
  std::vector<User> U(
#ifdef MU
    1 + r.below(3)
#else
    1
#endif
  ); H::note(" %zu user(s):", U.size()); unsigned k = K.k;
  for (auto &u : U) { u.hc = H::new_state<hc128_state>(); std::vector<uint8_t> key = r.vec(16), iv = r.vec(16);
#ifdef MU
    { Z upk, usk; CALL(mu_he_keygen(upk, usk, st.s, K.N, K.y, k)); z_out("upk", upk); z_out("usk", usk); if (H::mon) { Z d; joye_libert_decrypt(d, upk, K.p, K.y, k); if (!(d == modk(usk, k))) H::viol("model:user-key", "the user public key does not decrypt to the user secret: %s vs %s (k=%u)", d.s().c_str(), usk.s().c_str(), k); if (mpz_sizeinbase(usk, 2) > 128) H::viol("model:user-key", "user secret longer than 128 bits"); H::count("user-keys"); }
      size_t n = 0; memset(key.data(), 0, 16); if (mpz_sizeinbase(usk, 2) <= 128) mpz_export(key.data(), &n, 1, 1, 0, 0, usk); }
#endif
    CALL(hc128_initialize(u.hc, key.data(), iv.data())); u.key = key; u.iv = iv; }
  std::vector<std::unique_ptr<C1>> A; std::vector<C2> B;
  auto pick = [&]() -> C1 & { return *A[r.below(A.size())]; }; auto pickB = [&]() -> C2 & { return B[r.below(B.size())]; };
  for (int i = 0; i < ops; i++) {
    unsigned o = A.size() < 2 ? 0 : (unsigned)r.below(B.size() < 1 ? 10 : 16);
    if (o < 3) { A.emplace_back(new C1); encrypt(*A.back(), U[r.below(U.size())], st, r, K); continue; }
    Snap s; s.add(K.N);
    if (o == 3 || o == 4) { std::unique_ptr<C1> x(new C1); C1 &a = pick(), &b = pick(); s.add(a); s.add(b);
      // accumulating: the result replaces the first operand, the second, or both
      const he_ct *pa = &a.c, *pb = &b.c; unsigned al = (unsigned)r.below(6); Z bv(b.v), bb(b.b); if (al <= 1 || al == 3) { x->set(a); pa = &x->c; } else if (al == 2) { x->set(b); pb = &x->c; } if (al == 3) { pb = &x->c; bv = a.v; bb = a.b; } if (al <= 3) { H::note(" in-place"); H::count("accumulations"); }
      if (o == 3) { H::note(" add"); CALL(F(eval_add)(&x->c, pa, pb, K.N, k)); mpz_add(x->v, a.v, bv); mpz_add(x->b, a.b, bb); } else { H::note(" sub"); CALL(F(eval_sub)(&x->c, pa, pb, K.N, k)); mpz_sub(x->v, a.v, bv); mpz_sub(x->b, a.b, bb); }
      s.check(); fin1(*x, k); chk1(*x, K, o == 3 ? "add1" : "sub1"); A.push_back(std::move(x)); }
    else if (o == 5) { std::unique_ptr<C1> x(new C1); C1 &a = pick(); Z e; z_const(e, r, k); s.add(a); s.add(e); H::note(" cmul"); const he_ct *pa = &a.c; if (r.chance(1, 3)) { x->set(a); pa = &x->c; H::count("accumulations"); } CALL(F(eval_cmult)(&x->c, pa, e, K.N, k)); s.check(); mpz_mul(x->v, a.v, e); mpz_mul(x->b, a.b, e); fin1(*x, k); chk1(*x, K, "cmult1"); A.push_back(std::move(x)); }
    else if (o <= 7) { C2 x; C1 &a = pick(), &b = pick(); s.add(a); s.add(b); s.add(K.y); H::note(" mul"); CALL(F(eval_mult)(x.c, st.s, &a.c, &b.c, K.y, K.N, k)); s.check(); mpz_mul(x.v, a.v, b.v); mpz_mul(x.b, a.b, b.b); fin2(x, k); chk2(x, K, "mult"); B.push_back(x); }
    else if (o <= 9) { C2 x; C1 &a = pick(), &b = pick(), &c = pick(); Z t, b12, b13, b23; mpz_mul(t, a.b, b.b); t = modk(t, k); jl(b12, st, t, K); mpz_mul(t, a.b, c.b); t = modk(t, k); jl(b13, st, t, K); mpz_mul(t, b.b, c.b); t = modk(t, k); jl(b23, st, t, K);
      s.add(a); s.add(b); s.add(c); s.add(b12); s.add(b13); s.add(b23); H::note(" mul3"); CALL(F(eval_mult_3)(x.c, st.s, &a.c, &b.c, &c.c, b12, b13, b23, K.y, K.N, k)); s.check(); mpz_mul(x.v, a.v, b.v); mpz_mul(x.v, x.v, c.v); mpz_mul(x.b, a.b, b.b); mpz_mul(x.b, x.b, c.b); fin2(x, k); chk2(x, K, "mult3"); B.push_back(x); }
    else if (o <= 11) { C2 x; C2 &a = pickB(), &b = pickB(); s.add(a.c); s.add(b.c); H::note(" add2"); switch (r.below(4)) { case 0: x.c = a.c; CALL(F(eval_add)(x.c, x.c, b.c, K.N)); H::count("accumulations"); break; case 1: x.c = b.c; CALL(F(eval_add)(x.c, a.c, x.c, K.N)); H::count("accumulations"); break; default: CALL(F(eval_add)(x.c, a.c, b.c, K.N)); } s.check(); mpz_add(x.v, a.v, b.v); mpz_add(x.b, a.b, b.b); fin2(x, k); chk2(x, K, "add2"); B.push_back(x); }
    else if (o <= 13) { C2 x; C2 &a = pickB(), &b = pickB(); s.add(a.c); s.add(b.c); H::note(" sub2"); switch (r.below(4)) { case 0: x.c = a.c; CALL(F(eval_sub)(x.c, x.c, b.c, K.N)); H::count("accumulations"); break; case 1: x.c = b.c; CALL(F(eval_sub)(x.c, a.c, x.c, K.N)); H::count("accumulations"); break; default: CALL(F(eval_sub)(x.c, a.c, b.c, K.N)); } s.check(); mpz_sub(x.v, a.v, b.v); mpz_sub(x.b, a.b, b.b); fin2(x, k); chk2(x, K, "sub2"); B.push_back(x); }
    else { C2 x; C2 &a = pickB(); Z e; z_const(e, r, k); s.add(a.c); s.add(e); H::note(" cmul2"); if (r.chance(1, 3)) { x.c = a.c; CALL(F(eval_cmult)(x.c, x.c, e, K.N)); H::count("accumulations"); } else CALL(F(eval_cmult)(x.c, a.c, e, K.N)); s.check(); mpz_mul(x.v, a.v, e); mpz_mul(x.b, a.b, e); fin2(x, k); chk2(x, K, "cmult2"); B.push_back(x); }
  }
  for (auto &u : U) H::free_state(u.hc);
}
void run_case(long idx, Rng &r) {
  if (H::mode_is("keygen")) { unsigned k = idx % 4 == 3 ? 5 + (unsigned)(idx % 60) : 32 * (1 + (unsigned)(idx % 4)), bits = 2 * k + 70 + 2 * (unsigned)(idx / 3); JLKey K; K.k = k; K.bits = bits; H::note(NAME " keygen(%u,%u)", k, bits);
#ifdef MU
    CALL(mu_he_setup(K.N, K.y, K.p, k, bits));
#else
    CALL(he_keygen(K.N, K.y, K.p, k, bits));
#endif
    RS st(r.next()); program(r, K, st, 12); H::sample_case(); return; }
  if (H::mode_is("large")) { static const unsigned kl[] = {32, 64, 128, 40, 256}, bl[] = {1024, 1536, 2048}; unsigned k = kl[idx % 5]; JLKey &K = *jl_pool(k, bl[idx / 5 % 3], 0); H::note(NAME " k=%u |N|~%u,", k, K.bits); RS st(r.next()); program(r, K, st, 12); H::sample_case(); return; }
  if (H::mode_is("many")) { JLKey &K = *jl_pool(32, 128, 0); H::note(NAME " k=32 |N|~128, many operations,"); RS st(r.next()); program(r, K, st, 900); H::sample_case(); return; }
  static const unsigned ks[] = {32, 64, 96, 128, 32, 64, 8, 16, 20, 31, 33, 40, 47, 100, 1, 3, 5, 160, 256}; unsigned k = ks[r.below(H::opt.thorough ? 19 : 17)]; { uint64_t kv; if (r.known(kv) && kv >= 2 && kv <= 300) k = (unsigned)kv + 1 - (unsigned)r.below(3); } unsigned bits = 2 * k + (r.chance(1, 2) ? 64 : 160); JLKey &K = *jl_pool(k, bits, (unsigned)r.below(3));
  H::note(NAME " k=%u |N|~%u,", k, bits); RS st(r.next()); program(r, K, st, 4 + (int)r.below(14)); H::sample_case();
}
long default_cases() { return 100; }
int main(int c, char **v) { return H::main_loop(c, v, NAME); }
