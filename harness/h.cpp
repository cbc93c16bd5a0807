#include "h.h"
#include <csignal>
#include <csetjmp>
#include <map>
#include <atomic>
#include <thread>
#include <condition_variable>
#include <iostream>
#include <mutex>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <stdexcept>
#include <sys/time.h>
#include <unistd.h>
#ifdef H_MSAN
#include <sanitizer/msan_interface.h>
#endif
#ifdef USE_VALGRIND
#include <valgrind/memcheck.h>
#endif
namespace H {
Opts opt;
static std::mutex mu;
static thread_local char cur[4096]; static thread_local size_t curlen; static thread_local long cur_idx = -1;
thread_local bool mon = true; thread_local Rng env(7);
static const char *component_name = "?";
static std::unordered_set<uint64_t> sigs; static uint64_t n_eval, n_nontriv;
static std::map<std::string, uint64_t> counters; static std::map<std::string, int> viol_seen; static uint64_t n_viol;
static std::vector<std::string> samples; static FILE *tracef; static thread_local uint64_t tr, tr_n;

uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15u + (a << 6) + (a >> 2)); z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull; return z ^ z >> 29; }
uint64_t hash(const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; uint64_t h = n; while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = mix(h, v); b += 8; n -= 8; } uint64_t v = 0; memcpy(&v, b, n); return mix(h, v); }

// ------------------------------------------------------------------ what the code under test compares with
// In the configuration "cmp" the compiler calls these at every comparison with a constant and at every switch; the
// constants are collected (--dictout) and other runs (--dict) then also draw lengths, words and bytes from them.
static std::vector<uint64_t> dict, dict_big;
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_TSAN) && !defined(USE_VALGRIND)
static const size_t HV = 4096; static uint64_t *harvest; // [0] edges in the program, [1] edges reached, then the constants
void saw(uint64_t c) {
  if (!harvest || c == 0) return;
  size_t h = (size_t)(c * 0x9E3779B97F4A7C15ull >> 53);
  for (int i = 0; i < 64; i++) { uint64_t *e = &harvest[2 + (h + i) % (HV - 2)]; uint64_t v = __atomic_load_n(e, __ATOMIC_RELAXED); if (v == c) return; if (!v) { __atomic_store_n(e, c, __ATOMIC_RELAXED); return; } }
}
extern "C" {
void __sanitizer_cov_trace_const_cmp1(uint8_t c, uint8_t) { saw(c); }
void __sanitizer_cov_trace_const_cmp2(uint16_t c, uint16_t) { saw(c); }
void __sanitizer_cov_trace_const_cmp4(uint32_t c, uint32_t) { saw(c); }
void __sanitizer_cov_trace_const_cmp8(uint64_t c, uint64_t) { saw(c); }
void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
void __sanitizer_cov_trace_switch(uint64_t, uint64_t *c) { for (uint64_t i = 0; i < c[0]; i++) saw(c[2 + i]); }
static uint32_t n_guards;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { if (a == b || *a) return; for (; a < b; a++) *a = ++n_guards; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (!*g || !harvest) return; *g = 0; __atomic_fetch_add(&harvest[1], 1, __ATOMIC_RELAXED); }
}
static void harvest_to(const char *f) {
  int fd = ::open(f, O_RDWR | O_CREAT, 0600); if (fd < 0 || ftruncate(fd, HV * 8)) harness_error("cannot write %s", f);
  harvest = (uint64_t *)mmap(nullptr, HV * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (harvest == MAP_FAILED) harness_error("mmap"); close(fd); harvest[0] = n_guards;
}
#else
void saw(uint64_t) {}
static void harvest_to(const char *) { harness_error("this build cannot harvest"); }
#endif
bool Rng::known(uint64_t &v) { if (dict.empty() || below(10)) return false; v = dict[below(dict.size())]; return true; }
long many_count() { long n = 66000; for (uint64_t v : dict) if (v > 65000 && v <= 1200000 && (v & (v - 1))) n = n > (long)v + 600 ? n : (long)v + 600; return n; }
// a length at, around or a few units away from a constant of the code, which may count bits, words or blocks
static bool known_len(Rng &r, size_t max, size_t &n) {
  uint64_t v; if (!r.known(v)) return false;
  static const unsigned U[] = {1, 1, 1, 4, 8, 16, 16, 32, 64, 64}; unsigned u = U[r.below(10)];
  if (v > (uint64_t)1 << 44) return false; // a sign-extended or otherwise unusable value
  if (r.below(8) == 0) v /= 8; else v *= u;
  switch (r.below(4)) { case 0: break; case 1: v += r.below(3 * u) ; break; case 2: v -= v < u ? 0 : r.below(u + 1); break; default: v += r.below(5); v = v > 2 ? v - 2 : v; }
  if (v > max) return false;
  n = (size_t)v; return true;
}
static void plant(Rng &r, uint64_t v, uint8_t *p, size_t n) {
  size_t w = v > 0xffffffffu ? 8 : v > 0xffff ? 4 : v > 0xff ? (r.below(2) ? 2 : 4) : (size_t)1 << r.below(3);
  if (n < w) w = 1; if (!n) return;
  uint8_t b[8]; bool be = r.below(2); for (size_t i = 0; i < w; i++) b[be ? w - 1 - i : i] = (uint8_t)(v >> (8 * i));
  size_t slots = n / w, at; switch (r.below(4)) { case 0: at = 0; break; case 1: at = n - w; break; default: at = r.below(slots) * w; }
  memcpy(p + at, b, w);
}

void Rng::bytes(uint8_t *p, size_t n) {
  uint64_t kv; if (known(kv)) { fill(p, n); plant(*this, kv, p, n); return; }
  switch (below(13)) {
    case 10: case 11: { // random, with words, halves or ends of special value
      static const uint32_t W[] = {0, 0, 0xffffffff, 0xffffffff, 0x80000000, 0x7fffffff, 1, 0x80, 0xff, 0x01000000, 0xff000000, 0x0000ffff, 0xffff0000, 0x00010000};
      fill(p, n); int k = 1 + (int)below(2); while (k--) { uint32_t w = W[below(14)]; size_t u = below(5);
        if (u == 0 && n) { size_t at = below(3) ? (below(2) ? 0 : n - 1) : below(n); p[at] = (uint8_t)w; }
        else if (u == 1 && n >= 2) { size_t at = below(n / 2) * 2; p[at] = (uint8_t)w; p[at + 1] = (uint8_t)(w >> 8); }
        else if (u == 2 && n >= 8) { size_t at = below(n / 8) * 8; for (int i = 0; i < 8; i++) p[at + i] = (uint8_t)(w >> (8 * (i % 4))); }
        else if (n >= 4) { size_t at = (n < 80 || below(2) ? below(n / 4) : below(2) ? below(16) : n / 4 - 1 - below(16)) * 4; for (int i = 0; i < 4; i++) p[at + i] = (uint8_t)(w >> (8 * i)); } }
      break; }
    case 12: { // a short pattern repeated, or random up to a point and constant from there
      fill(p, n); static const size_t P[] = {2, 4, 8, 16, 32, 64}; size_t q = P[below(6)]; if (below(2)) for (size_t i = q; i < n; i++) p[i] = p[i - q]; else if (n) { size_t at = below(n); memset(p + at, below(2) ? 0 : 0xff, n - at); }
      break; }
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: memset(p, (int)below(256), n); break;
    case 3: memset(p, 0, n); if (n) p[below(n)] = (uint8_t)(1u << below(8)); break;
    case 4: for (size_t i = 0; i < n; i++) p[i] = (uint8_t)i; break;
    default: fill(p, n);
  }
}
size_t Rng::len(size_t max) {
  size_t v; if (known_len(*this, max, v)) return v;
  switch (below(12)) {
    case 0: v = below(4); break;
    case 1: case 2: case 3: v = below(40); break;
    case 4: v = 16 * below(24) + below(5); v = v > 2 ? v - 2 : v; break;
    case 5: v = 64 * below(20) + below(5); v = v > 2 ? v - 2 : v; break;
    case 6: v = below(300); break;
    case 7: v = 16 * below(10); break;
    case 8: v = below(1200); break;
    case 9: v = below(5000); break;
    case 10: v = ((size_t)1 << below(13)) + below(5); v = v > 2 ? v - 2 : v; break;
    default: v = below(130);
  }
  return v > max ? below(max + 1) : v;
}
static bool large_session; // packets of tens of kilobytes are common
size_t Rng::plen(size_t max) {
  uint64_t c = next(), v = next(); if (large_session && c % 3 == 0) return 20000 + v % 80000; if (c % (dict_big.empty() ? 64 : 16)) return len(max);
  size_t kl;
#if defined(USE_VALGRIND)
  if (known_len(*this, 12000, kl)) return kl;
  return 3000 + v % 9000;
#else
  if (!dict_big.empty() && c % 3 == 0) { kl = dict_big[v % dict_big.size()] + (v >> 8) % 70; return kl > 20 && v & 1 << 20 ? kl - 20 : kl; }
  switch (c >> 8 & 15) { case 0: return 1000000 + v % 150000; case 1: case 2: case 3: return 65530 + (v & 1 ? v % 8 : v % 70000); case 4: return ((size_t)1 << (12 + v % 5)) - 2 + (v >> 8) % 5; default: return 3000 + v % 18000; }
#endif
}
size_t Rng::pos(size_t n) { size_t m = n < 17 ? n : 17; switch (below(6)) { case 0: return n - 1 - below(m); case 1: return below(m); case 2: return n - 1; default: return below(n); } }
size_t Rng::edge(size_t max) {
  size_t lo = (size_t)5 << 20, b, n; do b = (size_t)1 << (22 + below(21)); while (b > max);
  switch (below(4)) { case 0: n = b - below(70); break; case 1: n = b + below(70); break; case 2: n = b + below((size_t)2 << 20); break; default: n = b + (b >> 1) + below(100); }
  return n > max ? max - below(20) : n < lo ? lo + below(100) : n;
}
std::vector<uint8_t> Rng::near(const std::vector<uint8_t> &v) {
  std::vector<uint8_t> w = v; size_t n = w.size(); if (!n) return w;
  switch (below(5)) {
    case 0: break;
    case 1: case 2: w[below(n)] ^= 1u << below(8); break;
    case 3: { size_t at = below(n); fill(&w[at], n - at); break; }
    default: for (size_t i = n; i--;) if (++w[i]) break;
  }
  return w;
}
static int err_fd = 2; static FILE *rep = stderr; // where reports go: the original standard error
static void wr(const char *s) { size_t n = strlen(s); while (n) { ssize_t k = write(err_fd, s, n); if (k <= 0) return; s += k; n -= k; } }
void viol(const char *key, const char *fmt, ...) {
  std::lock_guard<std::mutex> g(mu);
  n_viol++;
  int &seen = viol_seen[key];
  if (seen++ >= 3) return;
  char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  fprintf(rep, "\n@VIOL\t%s\t%ld\t%s\t%s\n", key, cur_idx, cur, b); fflush(rep);
}
long viols_so_far() { std::lock_guard<std::mutex> g(mu); return n_viol; }
void case_begin(long i) { cur_idx = i; curlen = 0; cur[0] = 0; }
void note(const char *fmt, ...) {
  if (curlen + 2 >= sizeof cur) return;
  va_list ap; va_start(ap, fmt); int k = vsnprintf(cur + curlen, sizeof cur - curlen, fmt, ap); va_end(ap);
  if (k > 0) curlen += (size_t)k < sizeof cur - curlen ? k : sizeof cur - curlen - 1;
}
bool mode_is(const char *m) { return opt.mode == m; }
void eval(uint64_t sig, bool nt) { if (!mon) return; std::lock_guard<std::mutex> g(mu); n_eval++; if (nt && sigs.size() < 4000000 && sigs.insert(sig).second) n_nontriv++; }
void sample(const char *fmt, ...) {
  if (!mon) return;
  std::lock_guard<std::mutex> g(mu);
  if (samples.size() >= 4) return;
  char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); samples.push_back(b);
}
void sample_case() { if (samples.size() < 4) sample("%.380s", cur); }
void count(const char *w, uint64_t n) { std::lock_guard<std::mutex> g(mu); counters[w] += n; }
void trace(const void *p, size_t n) { tr = mix(tr, hash(p, n)); tr_n++; }
void harness_error(const char *fmt, ...) {
  char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  fprintf(rep, "\n@HERR\t%s\n", b); fflush(rep); _exit(70);
}
bool same(const char *key, const char *what, const uint8_t *got, const uint8_t *want, size_t n) {
  if (!n || !memcmp(got, want, n)) return true;
  size_t i = 0; while (got[i] == want[i]) i++;
  size_t a = i > 4 ? i - 4 : 0, l = n - a < 24 ? n - a : 24;
  viol(key, "%s differs from the reference at byte %zu of %zu: from byte %zu got %s want %s", what, i, n, a, ref::hex(got + a, l).c_str(), ref::hex(want + a, l).c_str());
  return false;
}

// ------------------------------------------------------------------ memory
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_TSAN) && !defined(USE_VALGRIND)
#define H_GUARD 1
#endif
static const size_t CAP = 1 << 16; static const int NSLOT = 24;
static uint8_t *slot_base[NSLOT]; static uint64_t slot_used; static const char *volatile slot_ro[NSLOT];
static uint8_t canary(const uint8_t *p) { return (uint8_t)(0xC5 ^ ((uintptr_t)p * 37 >> 3)); }
static void arm(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = canary(p + i); }
static bool armed(const uint8_t *p, size_t n, size_t &at) { for (size_t i = 0; i < n; i++) if (p[i] != canary(p + i)) { at = i; return false; } return true; }

uint8_t *Mem::get(const char *what, size_t n) {
#ifdef H_GUARD
  bool odd = env.chance(1, 4), four = align4 == 1 || (align4 < 0 && (opt.aligned || !odd));
#else
  bool four = align4 != 0;
#endif
  if (!mon) { // raw: exact heap block, at some distance from its start
    size_t off = env.chance(1, 2) ? 0 : four ? 4 * env.below(4) : env.below(16);
    B b; b.n = n; b.is_const = false; b.what = what; b.slot = -1; b.kind = 0; b.c0 = b.c1 = nullptr; b.n0 = b.n1 = 0;
    b.raw = (uint8_t *)malloc(n + off ? n + off : 1); b.p = b.raw + off; if (!b.raw) harness_error("malloc %zu", n);
    live.push_back(b); return b.p;
  }
  B b; b.n = n; b.is_const = false; b.what = what; b.slot = -1; b.raw = nullptr; b.c0 = b.c1 = nullptr; b.n0 = b.n1 = 0; b.kind = 0;
#ifdef H_GUARD
  unsigned pl = (unsigned)r.below(4);
  if (pl != 3 && n <= CAP) {
    int s = -1; for (int i = 0; i < NSLOT; i++) if (!(slot_used >> i & 1)) { s = i; break; }
    if (s < 0) harness_error("out of guard slots");
    slot_used |= (uint64_t)1 << s; b.slot = s; b.kind = 1 + (int)pl;
    uint8_t *base = slot_base[s];
    if (pl == 0 || pl == 2) { b.p = base + CAP - n; if (four) b.p -= ((uintptr_t)b.p & 3); b.c1 = b.p + n; b.n1 = base + CAP - b.c1; b.n0 = (size_t)(b.p - base) < 48 ? b.p - base : 48; b.c0 = b.p - b.n0; }
    else { b.p = base; b.c1 = b.p + n; b.n1 = CAP - n < 48 ? CAP - n : 48; }
    arm(b.c0, b.n0); arm(b.c1, b.n1);
    live.push_back(b); return b.p;
  }
  size_t off = r.below(16); if (four) off &= ~(size_t)3;
  b.raw = (uint8_t *)malloc(n + off + 64 + 64); if (!b.raw) harness_error("malloc %zu", n);
  b.p = b.raw + 64 + off; b.c0 = b.raw; b.n0 = 64 + off; b.c1 = b.p + n; b.n1 = 64; arm(b.c0, b.n0); arm(b.c1, b.n1);
#else
  // exact-size heap block: the sanitizer watches the edges.  Blocks stay 4-byte
  // aligned here because the code reads words through u8 pointers (an alignment
  // report would be about the harness' choice of buffer, not about bounds).
  size_t off = 4 * r.below(4);
  b.raw = (uint8_t *)malloc(n + off ? n + off : 1); if (!b.raw) harness_error("malloc %zu", n);
  b.p = b.raw + off; b.c0 = b.raw; b.n0 = off; arm(b.c0, b.n0);
#endif
  live.push_back(b); return b.p;
}
uint8_t *Mem::in(const char *what, const uint8_t *src, size_t n) {
  uint8_t *p = get(what, n); if (n) memcpy(p, src, n);
  if (mon) { live.back().is_const = true; live.back().copy.assign(p, p + n); }
#ifdef H_GUARD
  // now and then in pages that cannot be written at all: writing the same value, or writing and restoring, shows
  int s = live.back().slot;
  if (mon && s >= 0 && r.chance(1, 4)) { if (mprotect(slot_base[s], CAP, PROT_READ)) harness_error("mprotect"); slot_ro[s] = what; count("read-only-inputs"); }
#endif
  return p;
}
uint8_t *Mem::inout(const char *what, const uint8_t *src, size_t n) { uint8_t *p = get(what, n); if (n) memcpy(p, src, n); return p; }
uint8_t *Mem::out(const char *what, size_t n) {
  uint8_t *p = get(what, n);
#if !defined(H_MSAN) && !defined(USE_VALGRIND)
  env.fill(p, n);
#endif
  return p;
}
void Mem::verify(const char *prefix) {
  if (!mon) return;
  count("buffers-watched", live.size());
  for (auto &b : live) {
    size_t at = 0; char key[200];
    if (!armed(b.c0, b.n0, at)) { snprintf(key, sizeof key, "%s:write-before-%s", prefix, b.what); viol(key, "byte %zd before the %zu-byte buffer '%s' was overwritten", (ssize_t)(b.n0 - at), b.n, b.what); arm(b.c0, b.n0); }
    if (!armed(b.c1, b.n1, at)) { snprintf(key, sizeof key, "%s:write-past-%s", prefix, b.what); viol(key, "byte %zu past the %zu-byte buffer '%s' was overwritten", at, b.n, b.what); arm(b.c1, b.n1); }
    if (b.is_const && b.n && memcmp(b.p, b.copy.data(), b.n)) {
      snprintf(key, sizeof key, "%s:input-modified-%s", prefix, b.what); size_t i = 0; while (b.p[i] == b.copy[i]) i++;
      viol(key, "input buffer '%s' (%zu bytes) was modified at byte %zu", b.what, b.n, i); memcpy(b.p, b.copy.data(), b.n);
    }
  }
}
void Mem::release() { for (auto &b : live) { if (b.slot >= 0 && slot_ro[b.slot]) { slot_ro[b.slot] = nullptr; if (mprotect(slot_base[b.slot], CAP, PROT_READ | PROT_WRITE)) harness_error("mprotect"); } if (b.slot >= 0) slot_used &= ~((uint64_t)1 << b.slot); else free(b.raw); } live.clear(); }

__attribute__((noinline)) void dirty_stack() {
#if defined(H_MSAN) || defined(USE_VALGRIND)
  return; // would mark the stack as initialised
#else
  volatile uint8_t junk[12288]; memset((void *)junk, (int)(env.next() >> 56), sizeof junk);
  __asm__ volatile("" : : "r"(junk) : "memory");
#endif
}
void *state_mem(size_t n) {
  uint8_t *p = (uint8_t *)malloc(n); if (!p) harness_error("malloc state");
#if !defined(H_MSAN) && !defined(USE_VALGRIND)
  switch (env.below(4)) { case 0: memset(p, 0, n); break; case 1: memset(p, 0xff, n); break; default: env.fill(p, n); }
#endif
  return p;
}
// ------------------------------------------------------------------ heap ledger
// All allocations of the process go through here (executable interposition);
// used to fill fresh blocks with junk (det) and to count live blocks (leak).
static thread_local bool heap_junk; static thread_local uint8_t heap_byte;
std::atomic<long> live_blocks{0}; std::atomic<uint64_t> n_allocs{0};
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_TSAN) && !defined(USE_VALGRIND) && !defined(NO_LEDGER)
#define H_LEDGER 1
extern "C" { void *__libc_memalign(size_t, size_t); void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) { live_blocks++; n_allocs++; if (heap_junk) memset(p, heap_byte += 0x3b, n); } return p; }
void free(void *p) { if (p) live_blocks--; __libc_free(p); }
void *memalign(size_t al, size_t n) { void *p = __libc_memalign(al, n); if (p) { live_blocks++; n_allocs++; if (heap_junk) memset(p, heap_byte += 0x3b, n); } return p; }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n) { if (al % sizeof(void *) || (al & (al - 1)) || !al) return 22; void *p = memalign(al, n); if (!p) return 12; *o = p; return 0; }
void *valloc(size_t n) { return memalign(4096, n); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) { live_blocks++; n_allocs++; } return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (!q && p) { live_blocks++; n_allocs++; } if (q && !n) live_blocks--; return p; }
}
#endif

// ------------------------------------------------------------------ scheduler for mode "inter": one thread runs at a time,
// the next one is drawn at every library call
static std::mutex smu; static std::condition_variable scv; static int s_cur = -1; static std::vector<char> s_alive; static Rng s_rng(1); static uint64_t s_hash, s_switch; static bool sched_on;
static thread_local int my_id = -1;
static void pick_next() { // smu held
  std::vector<int> a; for (size_t i = 0; i < s_alive.size(); i++) if (s_alive[i]) a.push_back((int)i);
  int nx = a.empty() ? -1 : a[s_rng.below(a.size())]; if (nx != s_cur) s_switch++; s_cur = nx; s_hash = mix(s_hash, nx + 2); scv.notify_all();
}
static void sched_point() {
  if (!sched_on || my_id < 0) return;
  std::unique_lock<std::mutex> l(smu); pick_next(); scv.wait(l, [] { return s_cur == my_id; });
}
void pre() { dirty_stack(); sched_point(); }
void output(const char *what, const void *p, size_t n) {
  trace(p, n);
  std::string k = std::string("undef:") + what; defined(k.c_str(), p, n);
}

void defined(const char *key, const void *p, size_t n) {
#ifdef H_MSAN
  intptr_t at = __msan_test_shadow(p, n);
  if (at >= 0) { viol(key, "byte %zd of a %zu-byte output is not determined by initialised memory", (ssize_t)at, n); }
  count("outputs-checked-for-definedness");
#elif defined(USE_VALGRIND)
  if (n) { size_t at = VALGRIND_CHECK_MEM_IS_DEFINED(p, n); if (at && RUNNING_ON_VALGRIND) viol(key, "byte %zu of a %zu-byte output is not determined by initialised memory", at - (size_t)p, n); }
  count("outputs-checked-for-definedness");
#else
  (void)key; (void)p; (void)n;
#endif
}

// ------------------------------------------------------------------ crash / hang reporting
static char altstack[65536];
static std::vector<std::pair<uint8_t *, size_t>> cliffs; static sigjmp_buf cliff_jmp; static volatile bool cliff_on; static const size_t CLIFF = (size_t)4 << 20;
Cliff::Cliff(Rng &r, size_t n_) : n(n_) {
  p = (uint8_t *)mmap(nullptr, n + CLIFF, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) harness_error("mmap %zu", n);
  if (mprotect(p, CLIFF, PROT_READ | PROT_WRITE)) harness_error("mprotect"); r.fill(p, CLIFF); cliffs.push_back({p, n + CLIFF}); if (n <= CLIFF) harness_error("cliff too short"); }
Cliff::~Cliff() { cliffs.pop_back(); munmap(p, n + CLIFF); }
bool reaches_edge(void (*f)(void *), void *arg) {
  // a call may take a working copy of its input, and need not get the memory for one this size: bad_alloc is an answer, and being
  // killed for having touched it all must not be one
  rlimit old, lim; getrlimit(RLIMIT_AS, &old); lim = old; unsigned long vm = 0; if (FILE *m = fopen("/proc/self/statm", "r")) { if (fscanf(m, "%lu", &vm) != 1) vm = 0; fclose(m); }
  if (vm) { lim.rlim_cur = (rlim_t)vm * (rlim_t)sysconf(_SC_PAGESIZE) + ((rlim_t)64 << 20); if (lim.rlim_cur > lim.rlim_max) lim.rlim_cur = lim.rlim_max; setrlimit(RLIMIT_AS, &lim); }
  bool edge = true; cliff_on = true;
  if (!sigsetjmp(cliff_jmp, 1)) { try { f(arg); edge = false; } catch (const std::bad_alloc &) { count("no-memory-for-that-size"); } catch (const std::length_error &) { count("no-memory-for-that-size"); } }
  cliff_on = false; setrlimit(RLIMIT_AS, &old); return edge; }
static void on_sig(int s, siginfo_t *si, void *) {
  char b[4700];
  if (s == SIGSEGV && cliff_on) for (auto &c : cliffs) { uint8_t *a = (uint8_t *)si->si_addr; if (a >= c.first + CLIFF && a < c.first + c.second) siglongjmp(cliff_jmp, 1); }
  if (s == SIGSEGV) for (int i = 0; i < NSLOT; i++) { const char *w = slot_ro[i]; uint8_t *a = (uint8_t *)si->si_addr; if (w && a >= slot_base[i] && a < slot_base[i] + CAP) { snprintf(b, sizeof b, "\n@VIOL\twset:input-written-%s\t%ld\t%s\tthe input buffer '%s', in read-only memory, was written to\n", w, cur_idx, cur, w); wr(b); break; } }
  const char *nm = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGABRT ? "SIGABRT" : s == SIGTRAP ? "SIGTRAP" : s == SIGPROF ? "CPU-LIMIT" : "signal";
  snprintf(b, sizeof b, "\n@CRASH\t%s\t%ld\t%s\n", nm, cur_idx, cur); wr(b);
  _exit(s == SIGPROF ? 97 : 98);
}
#if defined(H_ASAN) || defined(H_TSAN)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void on_death() { char b[4600]; snprintf(b, sizeof b, "\n@CRASH\tsanitizer\t%ld\t%s\n", cur_idx, cur); wr(b); }
#endif
static void watchdog(long sec) { itimerval t = {}; t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, nullptr); }

static void js(FILE *f, const std::string &s) { fputc('"', f); for (unsigned char c : s) { if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c < 32) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

static bool raw_mode() { for (const char *m : {"trace", "det", "quiet", "leak", "thr", "inter"}) if (opt.outer == m) return true; return false; }
static bool outer_is(const char *m) { return opt.outer == m; }
// ------------------------------------------------------------------ what the library prints: both standard streams lead to a file in
// memory that has to stay empty (not under the sanitizers and valgrind, which write there themselves)
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_TSAN) && !defined(USE_VALGRIND)
#define H_CAPTURE 1
static int print_fd = -1;
static void capture() { print_fd = memfd_create("out", 0); int d = dup(2); if (print_fd < 0 || d < 0) harness_error("capture"); FILE *f = fdopen(d, "w"); if (!f) harness_error("fdopen"); rep = f; err_fd = d; fflush(stdout); fflush(stderr); std::cout.flush(); dup2(print_fd, 1); dup2(print_fd, 2); }
void restore_std() { dup2(err_fd, 1); dup2(err_fd, 2); }
static void silent() {
  fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush(); std::clog.flush();
  off_t k = lseek(print_fd, 0, SEEK_END); if (k <= 0) return;
  char b[120]; ssize_t g = pread(print_fd, b, sizeof b, 0); std::string e; for (ssize_t q = 0; q < g; q++) e += b[q] >= 32 && b[q] < 127 ? b[q] : '.'; if (ftruncate(print_fd, 0) || lseek(print_fd, 0, SEEK_SET)) harness_error("memfd");
  viol("print:output", "library calls wrote %ld bytes to stdout/stderr: \"%s\"", (long)k, e.c_str()); }
#else
static void capture() {}
void restore_std() {}
static void silent() {}
#endif
int main_loop(int argc, char **argv, const char *component) {
  component_name = component;
  long wd = 120;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&]() -> std::string { if (i + 1 >= argc) harness_error("missing value for %s", a.c_str()); return argv[++i]; };
    if (a == "--seed") opt.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--mode") opt.mode = opt.outer = val();
    else if (a == "--sub") opt.mode = val(); // after --mode: the sessions of this mode, under the outer mode's monitor
    else if (a == "--start") opt.start = atol(val().c_str());
    else if (a == "--count") opt.count = atol(val().c_str());
    else if (a == "--only") opt.only = atol(val().c_str());
    else if (a == "--trace") opt.trace = val();
    else if (a == "--dict") { FILE *f = fopen(val().c_str(), "r"); if (!f) harness_error("cannot read the dictionary"); unsigned long long v; while (fscanf(f, "%llu", &v) == 1) { dict.push_back(v); for (unsigned u : {1, 4, 8, 16, 32, 64}) if (v * u > 3000 && v * u <= 1 << 20 && v < 1 << 20) dict_big.push_back(v * u); } fclose(f); }
    else if (a == "--dictout") harvest_to(val().c_str());
    else if (a == "--arg") opt.arg = atol(val().c_str());
    else if (a == "--aligned") opt.aligned = true;
    else if (a == "--thorough") opt.thorough = true;
    else if (a == "--watchdog") wd = atol(val().c_str());
    else harness_error("unknown argument %s", a.c_str());
  }
  std::string st = ref::selftest();
  if (!st.empty()) harness_error("reference self-test failed: %s", st.c_str());
#if !defined(H_ASAN) && !defined(H_MSAN) && !defined(H_TSAN)
  stack_t ss = {}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) { struct sigaction sa = {}; sa.sa_sigaction = on_sig; sa.sa_flags = SA_ONSTACK | SA_SIGINFO; sigaction(s, &sa, nullptr); }
#endif
#if defined(H_ASAN) || defined(H_TSAN)
  __sanitizer_set_death_callback(on_death);
#endif
  { struct sigaction sa = {}; sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO; sigaction(SIGPROF, &sa, nullptr); }
#ifdef H_GUARD
  long pg = sysconf(_SC_PAGESIZE);
  for (int i = 0; i < NSLOT; i++) {
    uint8_t *m = (uint8_t *)mmap(nullptr, CAP + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) harness_error("mmap");
    mprotect(m, pg, PROT_NONE); mprotect(m + pg + CAP, pg, PROT_NONE); slot_base[i] = m + pg;
  }
#endif
  if (!opt.trace.empty()) { tracef = fopen(opt.trace.c_str(), "w"); if (!tracef) harness_error("cannot write trace"); }
  long n = opt.count ? opt.count : default_cases(), lo = opt.start, hi = opt.start + n;
  if (opt.only >= 0) { lo = opt.only; hi = lo + 1; }
  auto case_seed = [&](long i) { uint64_t mh = raw_mode() ? 77 : hash(opt.mode.data(), opt.mode.size()); return mix(mix(opt.seed, mh), (uint64_t)i); };
  auto one = [&](long i, uint64_t envseed) { env = Rng(envseed); Rng r(case_seed(i)); tr = 1; tr_n = 0; case_begin(i);
#ifdef USE_VALGRIND
    unsigned e0 = VALGRIND_COUNT_ERRORS;
#endif
    run_case(i, r);
#ifdef USE_VALGRIND
    if (VALGRIND_COUNT_ERRORS != e0) VALGRIND_PRINTF("@ERRCASE\t%ld\t%s\n", i, cur);
#endif
  };
  capture();
  if (raw_mode()) mon = false;
  for (long i = lo; i < hi; i++) {
    watchdog(wd);
    if (outer_is("det")) {
      one(i, mix(i, 11)); uint64_t t0 = tr, n0 = tr_n; std::string d(cur);
      for (int v = 1; v <= 2; v++) {
        if (v == 2) { heap_junk = true; heap_byte = (uint8_t)(i * 29); one(i + 1, mix(i, 5)); } // unrelated history in between
        heap_junk = true; heap_byte = (uint8_t)(v * 91 + i);
        one(i, mix(i, 100 + v)); heap_junk = false;
        if (tr != t0 || tr_n != n0) viol("det:outputs-differ", "the same calls gave different outputs when only the previous contents of states, stack, heap and output buffers differed");
      }
      mon = true; eval(mix(t0, n0), n0 > 0); count("output-events", n0 * 3); if (i < lo + 3) sample("%.300s", d.c_str()); mon = false;
    } else if (outer_is("leak")) {
#ifndef H_LEDGER
      harness_error("leak mode needs the ledger");
#else
      long l[5]; uint64_t a0 = n_allocs;
      one(i, 1); one(i, 1);
      for (int v = 0; v < 5; v++) { one(i, 1); l[v] = live_blocks; }
      if (l[4] - l[0] >= 4) { bool mono = true; for (int v = 1; v < 5; v++) mono &= l[v] > l[v - 1]; if (mono) viol("leak:growth", "repeating the same operations leaves %ld more heap blocks allocated each time (%ld -> %ld over 4 repetitions)", (l[4] - l[0]) / 4, l[0], l[4]); }
      mon = true; eval(mix(tr, tr_n), tr_n > 0); count("allocations-seen", n_allocs - a0); count("output-events", tr_n * 7); if (i < lo + 3) sample("%.300s", cur); mon = false;
#endif
    } else if (outer_is("quiet")) {
#ifndef H_CAPTURE
      harness_error("quiet mode needs the standard streams");
#else
      one(i, i); silent();
#endif
      mon = true; eval(mix(tr, tr_n), tr_n > 0); count("output-events", tr_n); if (i < lo + 3) sample("%.300s", cur); mon = false;
    } else if (outer_is("thr") || outer_is("inter")) {
      large_session = i % 8 == 3 && opt.outer == opt.mode; int T = outer_is("thr") ? 6 : 3; std::vector<uint64_t> solo(T), got(T); std::vector<std::string> ds(T); uint64_t ev = 0;
      // the very first library calls of a process happen in the threads, and so do half of the other sessions' before anything
      // did the same alone: set-up that a component does on first use, or on first taking a rare path, is seen too
      bool first = outer_is("thr") && (i == lo || i % 2);
      for (int t = 0; t < T && !first; t++) { one(i * T + t, t); solo[t] = mix(tr, tr_n); ev += tr_n; ds[t] = cur; }
      for (int round = 0; round < (outer_is("thr") ? 3 : 4); round++) {
        sched_on = outer_is("inter");
        if (sched_on) { s_rng = Rng(mix(case_seed(i), 900 + round)); s_alive.assign(T, 1); s_hash = 0; s_switch = 0; s_cur = -2; }
        std::atomic<int> ready{0}; std::vector<std::thread> th;
        for (int t = 0; t < T; t++) th.emplace_back([&, t] {
          mon = false; my_id = t; ready++;
          if (sched_on) { std::unique_lock<std::mutex> l(smu); scv.wait(l, [&] { return s_cur == t; }); } else while (ready < T) std::this_thread::yield();
          env = Rng(mix(t, round)); Rng r(case_seed(i * T + t)); tr = 1; tr_n = 0; case_begin(i); run_case(i * T + t, r); got[t] = mix(tr, tr_n);
          if (sched_on) { std::unique_lock<std::mutex> l(smu); s_alive[t] = 0; pick_next(); }
        });
        if (sched_on) { while (ready < T) std::this_thread::yield(); std::unique_lock<std::mutex> l(smu); pick_next(); }
        for (auto &t : th) t.join();
        sched_on = false; case_begin(i);
        if (first) { first = false; count("first-use-concurrent"); for (int t = 0; t < T; t++) { one(i * T + t, t); solo[t] = mix(tr, tr_n); ev += tr_n; ds[t] = cur; } case_begin(i); }
        for (int t = 0; t < T; t++) if (got[t] != solo[t]) { note("%s", ds[t].c_str()); viol("conc:result", "a state used %s with %d others on distinct states gave other results than when used alone", outer_is("thr") ? "concurrently" : "interleaved", T - 1); break; }
        mon = true; eval(outer_is("inter") ? mix(s_hash, solo[0]) : mix(mix(solo[0], i), round)); count(outer_is("inter") ? "context-switches" : "concurrent-sessions", outer_is("inter") ? s_switch : T); count("output-events", ev); mon = false;
      }
      if (i < lo + 2) { mon = true; sample("%.300s", ds[0].c_str()); mon = false; }
    } else {
      one(i, mix(i, 3)); silent();
      if (tracef) fprintf(tracef, "%ld %016llx %llu %s\n", i, (unsigned long long)tr, (unsigned long long)tr_n, cur);
      if (raw_mode()) { mon = true; eval(mix(tr, tr_n), tr_n > 0); count("output-events", tr_n); if (i < lo + 3) sample("%.300s", cur); mon = false; }
    }
  }
  watchdog(0); silent();
  if (tracef) fclose(tracef);
  std::lock_guard<std::mutex> g(mu);
  FILE *f = rep; fprintf(f, "\n@STAT\t{\"component\":"); js(f, component);
  fprintf(f, ",\"mode\":"); js(f, opt.outer == opt.mode ? opt.mode : opt.outer + "+" + opt.mode);
  fprintf(f, ",\"cases\":%ld,\"evaluations\":%llu,\"distinct\":%llu,\"violations\":%llu,\"counters\":{", hi - lo, (unsigned long long)n_eval, (unsigned long long)n_nontriv, (unsigned long long)n_viol);
  bool first = true; for (auto &c : counters) { if (!first) fputc(',', f); first = false; js(f, c.first); fprintf(f, ":%llu", (unsigned long long)c.second); }
  fprintf(f, "},\"samples\":["); for (size_t i = 0; i < samples.size(); i++) { if (i) fputc(',', f); js(f, samples[i]); }
  fprintf(f, "]}\n"); fflush(f);
  return n_viol ? 10 : 0;
}
}
