#include "h.h"
#include "jlkeys.h"
#include "joye_libert.h"
#include <sys/wait.h>
#include <unistd.h>
using H::Rng;
static void dec(Z &m, const Z &c, const JLKey &K) { Z c0(c), p0(K.p), y0(K.y); CALL(joye_libert_decrypt(m, c, K.p, K.y, K.k)); z_out("message", m); if (H::mon && (!(c0 == c) || !(p0 == K.p) || !(y0 == K.y))) H::viol("wset:input-modified", "decryption modified an input"); }
static void enc(Z &c, RS &st, const Z &m, const JLKey &K) { Z m0(m), y0(K.y), N0(K.N); bool al = &c == &m; CALL(joye_libert_encrypt(c, st.s, m, K.y, K.N, K.k)); z_out("ciphertext", c); if (H::mon) { if ((!al && !(m0 == m)) || !(y0 == K.y) || !(N0 == K.N)) H::viol("wset:input-modified", "encryption modified an input"); if (mpz_sgn(c.z) <= 0 || mpz_cmp(c, K.N) >= 0) H::viol("model:range", "ciphertext not in [1,N): %s", c.s().c_str()); } }
static void expect(const char *key, const char *what, const Z &c, const Z &want, const JLKey &K) {
  Z d; mpz_set_ui(d, 12345); dec(d, c, K);
  if (mpz_get_ui(c) % 4 == 0) { Z e(c); Z p0(K.p), y0(K.y); CALL(joye_libert_decrypt(e, e, K.p, K.y, K.k)); z_out("message", e); if (H::mon) { H::count("decryptions-in-place"); if (!(e == want)) H::viol("model:decrypt-in-place", "%s decrypted in place: got %s want %s (k=%u)", what, e.s().c_str(), want.s().c_str(), K.k); } }
  if (!H::mon) return; if (!(d == want)) H::viol(key, "%s: got %s want %s (k=%u, N=%s, p=%s, y=%s, c=%s)", what, d.s().c_str(), want.s().c_str(), K.k, K.N.s().c_str(), K.p.s().c_str(), K.y.s().c_str(), c.s().c_str()); std::string t = c.s(); H::eval(H::mix(H::hash(t.data(), t.size()), K.k)); H::count("decryptions"); }
static void program(Rng &r, const JLKey &K, RS &st, int ops) {
  unsigned k = K.k; Z M; mpz_setbit(M, k);
  struct Ct { Z c, v; }; std::vector<Ct> C;
  for (int i = 0; i < ops; i++) {
    unsigned o = (unsigned)r.below(C.empty() ? 3 : 9);
    if (o < 3) { Ct x; z_msg(x.v, r, k); if (o == 0) { x.c = x.v; enc(x.c, st, x.c, K); H::note(" enc-in-place"); H::count("encryptions-in-place"); } else { enc(x.c, st, x.v, K); H::note(" enc"); }
      if (o == 2) { Z d; enc(d, st, x.v, K); if (H::mon && d == x.c) H::viol("model:not-randomised", "encrypting %s twice gave the same ciphertext", x.v.s().c_str()); H::count("repeat-encryptions"); }
      H::count("encryptions"); expect(o ? "model:decrypt" : "model:decrypt-aliased", "fresh ciphertext", x.c, x.v, K); C.push_back(x); continue; }
    const Ct &a = C[r.below(C.size())], &b = C[r.below(C.size())]; Ct x; const char *w;
    if (o < 6) { mpz_mul(x.c, a.c, b.c); mpz_mod(x.c, x.c, K.N); mpz_add(x.v, a.v, b.v); w = "sum"; }
    else if (o == 6) { if (!mpz_invert(x.c, b.c, K.N)) continue; mpz_mul(x.c, x.c, a.c); mpz_mod(x.c, x.c, K.N); mpz_sub(x.v, a.v, b.v); w = "difference"; }
    else if (o == 7) { Z e; z_msg(e, r, k); mpz_powm(x.c, a.c, e, K.N); mpz_mul(x.v, a.v, e); w = "multiple"; }
    else { x.c = a.c; x.v = a.v; int t = 2 + (int)r.below(40); for (int q = 1; q < t; q++) { const Ct &y = C[r.below(C.size())]; mpz_mul(x.c, x.c, y.c); mpz_mod(x.c, x.c, K.N); mpz_add(x.v, x.v, y.v); } w = "long sum"; }
    mpz_mod(x.v, x.v, M); H::note(" %s", w); char key[60]; snprintf(key, sizeof key, "model:%s", w); expect(key, w, x.c, x.v, K); H::count(w); C.push_back(x);
  }
}
static bool check_key(const JLKey &K, const char *pre) {
  Z t; bool ok = true; auto bad = [&](const char *k, const char *w) { char key[60]; snprintf(key, sizeof key, "%s:%s", pre, k); H::viol(key, "msgsize %u keysize %u: %s (N=%s p=%s y=%s)", K.k, K.bits, w, K.N.s().c_str(), K.p.s().c_str(), K.y.s().c_str()); ok = false; };
  if (!mpz_probab_prime_p(K.p, 40)) bad("p-composite", "p is not prime");
  mpz_sub_ui(t, K.p, 1); if (mpz_sgn(t.z) <= 0 || !mpz_divisible_2exp_p(t, K.k)) bad("p-congruence", "p is not 1 modulo 2^k"); else { Z o; mpz_tdiv_q_2exp(o, t, K.k); if (!mpz_probab_prime_p(o, 40)) bad("p-pseudo-safe", "(p-1)/2^k is not prime"); }
  if (mpz_sgn(K.p.z) <= 0 || !mpz_divisible_p(K.N, K.p)) { bad("N-product", "p does not divide N"); return false; }
  Z q; mpz_divexact(q, K.N, K.p); if (!mpz_probab_prime_p(q, 40)) bad("q-composite", "N/p is not prime"); if (q == K.p) bad("q-equals-p", "q = p"); if (mpz_fdiv_ui(q, 4) != 3) bad("q-congruence", "q is not 3 modulo 4");
  size_t pb = mpz_sizeinbase(K.p, 2), qb = mpz_sizeinbase(q, 2), h = K.bits / 2; if (pb > h + 1 || qb > h + 1 || pb + 24 < h || qb + 24 < h) { char w[90]; snprintf(w, sizeof w, "p has %zu and q has %zu bits", pb, qb); bad("size", w); }
  if (mpz_cmp(K.y, K.N) >= 0 || mpz_sgn(K.y.z) <= 0) bad("y-range", "y is not in [1,N)"); if (mpz_legendre(K.y, K.p) != -1) bad("y-mod-p", "y is a quadratic residue modulo p"); if (mpz_odd_p(q.z) && mpz_legendre(K.y, q) != -1) bad("y-mod-q", "y is a quadratic residue modulo q");
  return ok;
}
void run_case(long idx, Rng &r) {
  const std::string &m = H::opt.mode;
  if (m == "keygen") { // idx -> (k, keysize); opt.arg bounds the key size
    static const unsigned ks[] = {1, 2, 3, 4, 7, 8, 15, 16, 24, 31, 32, 33, 40, 48, 63, 64, 65, 96, 127, 128};
    JLKey K; K.k = ks[idx % 20]; unsigned base = 2 * (K.k + 26); K.bits = base + (unsigned)(idx / 20) * 6 + (unsigned)r.below(3) * 2;
    if (idx >= 400) { K.k = 1 + (unsigned)r.below(128); K.bits = 2 * (K.k + 26) + 2 * (unsigned)r.below(60); uint64_t kv; // sizes the code treats specially
      if (r.known(kv) || r.known(kv) || r.known(kv)) { unsigned w = (unsigned)r.below(3); if (kv >= 2 && kv <= 200 && w) { K.k = (unsigned)kv + 1 - (unsigned)r.below(3); K.bits = 2 * (K.k + 26) + 2 * (unsigned)r.below(60); } else if (kv <= 500) { unsigned b = (unsigned)kv + 2 * (unsigned)r.below(3); b += b & 1; if (b >= 54 + 2) { K.bits = b; K.k = 1 + (unsigned)r.below(b / 2 - 26); } } } }
    if (H::opt.arg) { K.bits = (unsigned)H::opt.arg; K.k = ks[8 + idx % 12]; }
    H::note("keygen(msgsize %u, keysize %u)", K.k, K.bits); CALL(joye_libert_keygen(K.N, K.y, K.p, K.k, K.bits)); z_out("N", K.N); z_out("y", K.y); z_out("p", K.p);
    if (check_key(K, "model")) { RS st(r.next()); program(r, K, st, 4); H::count("keys-checked"); H::count(("keys-k-" + std::to_string(K.k)).c_str()); } std::string s = K.N.s(); H::eval(H::hash(s.data(), s.size())); H::sample_case(); return; }
  if (m == "fresh") { // separate calls, separate processes
    unsigned k = 8 + 8 * (unsigned)(idx % 8), bits = 2 * k + 80; H::note("keygen twice (msgsize %u, keysize %u) and once in each of two other processes", k, bits);
    std::vector<std::string> N; auto gen = [&] { Z n, y, p; joye_libert_keygen(n, y, p, k, bits); return n.s(); };
    N.push_back(gen()); N.push_back(gen());
    for (int i = 0; i < 2; i++) { int fd[2]; if (pipe(fd)) H::harness_error("pipe"); fflush(stderr); pid_t c = fork(); if (c < 0) H::harness_error("fork");
      if (!c) { H::restore_std(); execl("/proc/self/exe", "keygen-child", "--mode", "child", "--only", std::to_string(idx).c_str(), "--count", "1", "--arg", std::to_string(fd[1]).c_str(), (char *)nullptr); _exit(9); }
      close(fd[1]); std::string s; char b[512]; ssize_t g; while ((g = read(fd[0], b, sizeof b)) > 0) s.append(b, g); close(fd[0]); int st; waitpid(c, &st, 0); if (s.empty()) H::harness_error("keygen child gave no key (status %d)", st); N.push_back(s); }
    if (N[0] == N[1]) H::viol("fresh:same-key-each-call", "two successive key generations returned the same modulus %s", N[0].c_str());
    if (N[2] == N[0] || N[3] == N[2]) H::viol("fresh:same-key-each-process", "key generation in separate processes returned the same modulus %s", N[2].c_str());
    H::eval(idx); H::sample_case(); return; }
  if (m == "child") { unsigned k = 8 + 8 * (unsigned)(idx % 8), bits = 2 * k + 80; Z n, y, p; joye_libert_keygen(n, y, p, k, bits); std::string s = n.s(); if (write((int)H::opt.arg, s.data(), s.size()) < 0) H::harness_error("pipe write"); return; }
  if (m == "sweep") { // every message of small spaces; every bit pattern weight of larger ones
    unsigned k = 1 + (unsigned)(idx % 9); JLKey &K = *jl_pool(k, 128, 0); RS st(r.next()); H::note("all messages of %u bits", k); for (unsigned long v = 0; v < (1ul << k); v++) { Z mm, c; mpz_set_ui(mm, v); enc(c, st, mm, K); expect("model:decrypt", "fresh ciphertext", c, mm, K); } H::sample_case(); return; }
  if (m == "large") { static const unsigned kl[] = {1, 32, 64, 128, 256, 512}, bl[] = {1024, 1536, 2048, 3072}; unsigned k = kl[idx % 6]; JLKey &K = *jl_pool(k, bl[idx / 6 % 4], 0); H::note("Joye-Libert k=%u |N|~%u:", k, K.bits); RS st(r.next()); program(r, K, st, 6); H::sample_case(); return; }
  static const unsigned ks[] = {1, 2, 3, 5, 8, 13, 16, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129, 200, 256};
  unsigned k = ks[r.below(H::opt.thorough || r.chance(1, 30) ? 21 : 18)]; { uint64_t kv; if (r.known(kv) && kv >= 2 && kv <= 300) k = (unsigned)kv + 1 - (unsigned)r.below(3); }
  unsigned bits = (unsigned)(2 * k + (r.chance(1, 2) ? 96 : 160)); JLKey &K = *jl_pool(k, bits, (unsigned)r.below(3));
  H::note("Joye-Libert k=%u |N|~%u:", k, bits); RS st(r.next()); program(r, K, st, 3 + (int)r.below(8));
  if (!H::mon && r.chance(1, 3)) { unsigned kk = 8 + (unsigned)r.below(24); Z N, y, p; CALL(joye_libert_keygen(N, y, p, kk, 2 * kk + 40)); uint8_t ok = mpz_divisible_p(N, p) != 0; H::output("keygen", &ok, 1); H::note(" keygen"); }
  H::sample_case();
}
long default_cases() { return 100; }
int main(int c, char **v) { return H::main_loop(c, v, "Joye-Libert"); }
