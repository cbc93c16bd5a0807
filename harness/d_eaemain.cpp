// The repository's example program itself, its calls into the toolbox observed one by one.  example_ae.cpp is
// compiled with main and the toolbox functions it calls renamed; the renamed functions below record the call,
// optionally alter one bit of the packet between its sealing and its validation (a hostile channel), and call the
// real function.  Each execution runs in a child process; the recorded history is judged here.
#include "h.h"
#include "hmac.h"
#include "aes_cfb.h"
#include "hc128.h"
#include "encoder.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
extern "C" int example_main();   // the program's main, renamed in its object file
enum { SEAL, VALID, AESINIT, AESPKT, HCINIT, HCPKT };
struct Ev { int what, res; uintptr_t a, b; uint64_t n; int m; uint64_t in, out; };   // a: input, b: output or tag, n: length, in/out: digests
struct Log { int n; Ev e[64]; int vals; int finished; uint64_t span[2]; };
static Log *L; static int fault_at = -1; static uint64_t fault_bit;
static Ev *ev(int w) { return &L->e[L->n < 63 ? L->n++ : 63]; }
int mon_hmac_tag_validation(hmac_state *cs, uint8_t *tag, uint8_t *msg, uint64_t n, int ts) {
  int i = L->vals++; if (i < 2) L->span[i] = n + ts;
  if (i == fault_at) { uint64_t by = fault_bit / 8; uint8_t *p = by < n ? msg + by : tag + (by - n); *p ^= 1u << fault_bit % 8; }
  Ev *e = ev(VALID); *e = {VALID, 0, (uintptr_t)msg, (uintptr_t)tag, n, ts, H::hash(msg, n), H::hash(tag, ts)}; e->res = hmac_tag_validation(cs, tag, msg, n, ts); return e->res;
}
void mon_hmac_tag_generation(hmac_state *cs, uint8_t *tag, uint8_t *msg, uint64_t n, int ts) { hmac_tag_generation(cs, tag, msg, n, ts); *ev(SEAL) = {SEAL, 0, (uintptr_t)msg, (uintptr_t)tag, n, ts, H::hash(msg, n), H::hash(tag, ts)}; }
void mon_aes_cfb_initialize(aes_state *cs, uint8_t *k, uint8_t *iv) { *ev(AESINIT) = {AESINIT, 0, (uintptr_t)iv, (uintptr_t)cs, 16, 0, H::hash(iv, 16), 0}; aes_cfb_initialize(cs, k, iv); }
void mon_aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int n, int mode) { uint64_t d = H::hash(in, n); aes_cfb_process_packet(cs, out, in, n, mode); *ev(AESPKT) = {AESPKT, 0, (uintptr_t)in, (uintptr_t)out, (uint64_t)n, mode, d, H::hash(out, n)}; }
void mon_hc128_initialize(hc128_state *cs, uint8_t *k, uint8_t *iv) { *ev(HCINIT) = {HCINIT, 0, (uintptr_t)iv, (uintptr_t)cs, 16, 0, H::hash(iv, 16), 0}; hc128_initialize(cs, k, iv); }
void mon_hc128_process_packet(hc128_state *cs, uint8_t *out, uint8_t *in, uint64_t n) { uint64_t d = H::hash(in, n); hc128_process_packet(cs, out, in, n); *ev(HCPKT) = {HCPKT, 0, (uintptr_t)in, (uintptr_t)out, n, 0, d, H::hash(out, n)}; }

static void execute(int f, uint64_t bit) {
  memset(L, 0, sizeof *L); fflush(stderr); pid_t c = fork(); if (c < 0) H::harness_error("fork");
  if (!c) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); fault_at = f; fault_bit = bit; int rc = example_main(); L->finished = 1; fflush(stdout); _exit(rc & 0x7f); }
  int st; waitpid(c, &st, 0); if (WIFSIGNALED(st)) H::viol("trip:example-crashed", "the example ended with signal %d (fault in packet %d, bit %llu)", WTERMSIG(st), f, (unsigned long long)bit);
}
// The history.  Packets are sealed; between the validation of a packet and the next sealing, cipher calls are the receiver's.
static void judge(int f, uint64_t bit) {
  const Ev *val = nullptr; int nv = 0, dec[2] = {0, 0}; const Ev *enc = nullptr; bool rx = false, sealed = false; const Ev *seal = nullptr;
  for (int i = 0; i < L->n; i++) { const Ev &e = L->e[i];
    if (e.what == SEAL) { rx = false; sealed = true; seal = &e; if (!enc) H::viol("tamper:order", "a packet was sealed before it was encrypted"); else if (e.a > enc->b || e.a + e.n < enc->b + enc->n) H::viol("tamper:coverage", "the tag does not cover the whole ciphertext"); continue; }
    if (e.what == VALID) { if (!sealed) H::viol("tamper:order", "validation of a packet that was not sealed"); val = &e; rx = true; nv++; if (f < 0 && !e.res) H::viol("trip:rejected", "the example rejects its own packet %d", nv); if (f == nv - 1 && e.res) H::viol("tamper:accepted", "packet %d with bit %llu altered is accepted", nv, (unsigned long long)bit); continue; }
    if (!rx) { if (e.what == AESPKT || e.what == HCPKT) enc = &e; continue; }
    if (e.what == AESPKT && e.m == ENCRYPT) { rx = false; enc = &e; continue; }
    // a new sender's initialisation: its IV is not part of the packet just received
    if (e.what == HCINIT || e.what == AESINIT) { bool inside = e.a >= val->a && e.a + e.n <= val->a + val->n; if (!inside) { rx = false; continue; } if (!val->res) H::viol("tamper:used", "an IV of a rejected packet is used (packet %d, bit %llu altered)", nv, (unsigned long long)bit); H::count("receiver-ivs"); continue; }
    // decryption
    dec[nv > 1]++; if (!val->res) H::viol("tamper:delivered", "a rejected packet is decrypted (packet %d, bit %llu altered)", nv, (unsigned long long)bit);
    if (e.a < val->a || e.a + e.n > val->a + val->n) H::viol("tamper:coverage", "bytes are decrypted that the validated tag does not cover (packet %d)", nv);
    if (f < 0 && enc && (e.n != enc->n || e.out != enc->in)) H::viol("trip:delivered", "what the example's receiver recovers is not what was sent (packet %d)", nv);
    H::count("decryptions");
  }
  (void)seal; H::count("history-events", L->n);
  if (f < 0) { if (nv != 2 || !dec[0] || !dec[1] || !L->finished) H::viol("trip:lost", "the example validated %d packets and decrypted %d and %d times", nv, dec[0], dec[1]); }
  else if (nv <= f) H::harness_error("fault was not delivered");
}
void run_case(long idx, H::Rng &r) {
  if (!L) L = (Log *)mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static uint64_t span[2]; if (!span[0]) { execute(-1, 0); judge(-1, 0); span[0] = L->span[0]; span[1] = L->span[1]; if (!span[0] || !span[1]) return; }
  uint64_t i = (uint64_t)idx; int f = i & 1; uint64_t bit = (i / 2) % (8 * span[f]);
  H::note("example_ae: packet %d of %llu bytes, bit %llu altered between sealing and validation", f + 1, (unsigned long long)span[f], (unsigned long long)bit);
  execute(f, bit); judge(f, bit); H::eval(H::mix(f, bit)); H::sample_case();
}
long default_cases() { return 100; }
int main(int c, char **v) { return H::main_loop(c, v, "example program"); }
