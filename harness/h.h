// Common runtime for the monitor drivers: deterministic case generator, guarded
// buffers, online violation reports, coverage counters.  Include BEFORE any
// header of the code under test (those define short macros).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <unordered_set>
#include <new>
#include <utility>
#include "../ref/ref.h"

#if defined(__SANITIZE_ADDRESS__)
#define H_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__)
#define H_TSAN 1
#endif
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define H_MSAN 1
#endif
#if __has_feature(address_sanitizer)
#define H_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define H_TSAN 1
#endif
#endif

namespace H {
// ---- deterministic randomness: every case has its own stream, so --only N replays case N alone
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull; z = (z ^ z >> 27) * 0x94D049BB133111EBull; return z ^ z >> 31; }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  void fill(uint8_t *p, size_t n) { while (n >= 8) { uint64_t v = next(); memcpy(p, &v, 8); p += 8; n -= 8; } uint64_t v = next(); memcpy(p, &v, n); }
  // adversarial byte material: random, all equal, sparse, counting
  void bytes(uint8_t *p, size_t n);
  std::vector<uint8_t> vec(size_t n) { std::vector<uint8_t> v(n); bytes(v.data(), n); return v; }
  size_t len(size_t max);   // interesting lengths
  size_t pos(size_t n);     // a position in n: anywhere, or near either end
  size_t plen(size_t max);  // the same, now and then far beyond any internal buffer
  size_t edge(size_t max);  // lengths at which a narrower length or counter wraps
  bool known(uint64_t &v);  // a constant that the code under test compares with, if any were harvested
  std::vector<uint8_t> near(const std::vector<uint8_t> &v); // the same bytes again, or almost
};

struct Opts { uint64_t seed = 1; long start = 0, count = 0, only = -1; std::string mode = "conf", outer, trace; bool thorough = false, aligned = false; long arg = 0; };
extern Opts opt;

// ---- reports
void viol(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void case_begin(long idx);
long viols_so_far();
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // appended to the current case description
void eval(uint64_t signature, bool nontrivial = true);                    // one oracle evaluation
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sample_case();   // the current case description, if few samples were taken
void saw(uint64_t constant);   // a constant the code under test compares with
void count(const char *what, uint64_t n = 1);
void trace(const void *p, size_t n);                                      // event log (digest) of the current case
void restore_std();   // in a child about to execute itself
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash(const void *p, size_t n);
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// compare with the oracle; on mismatch report key
bool same(const char *key, const char *what, const uint8_t *got, const uint8_t *want, size_t n);

// ---- monitored memory
// Buffers end (or start) flush against an inaccessible page, or are exact-size
// heap blocks; surrounding bytes carry canaries; inputs are verified unmodified.
struct Mem {
  Rng &r; int align4; // 1: words are passed, 0: bytes, -1: bytes that the code reads as words, so not always misaligned
  struct B { uint8_t *p; size_t n; int slot; int kind; uint8_t *raw; std::vector<uint8_t> copy; bool is_const; const char *what; uint8_t *c0; size_t n0; uint8_t *c1; size_t n1; };
  std::vector<B> live;
  explicit Mem(Rng &r_, int align4_ = -1) : r(r_), align4(align4_) {}
  ~Mem() { release(); }
  uint8_t *in(const char *what, const uint8_t *src, size_t n);            // must stay unmodified
  uint8_t *in(const char *what, const std::vector<uint8_t> &v) { return in(what, v.data(), v.size()); }
  uint8_t *out(const char *what, size_t n);                               // prefilled with junk
  uint8_t *inout(const char *what, const uint8_t *src, size_t n);
  void verify(const char *keyprefix);                                     // canaries + inputs
  void release();
 private:
  uint8_t *get(const char *what, size_t n);
};

// A call whose buffers claim n bytes, only the first few MiB of which exist: it cannot return normally unless it
// stopped early (a length cut off to fewer bits, a counter that wrapped).  True: it ran on to the edge.
struct Cliff { uint8_t *p; size_t n; Cliff(Rng &r, size_t n); ~Cliff(); };
bool reaches_edge(void (*f)(void *), void *arg);
template <class F> void must_reach(const char *key, size_t n, const char *what, F f) {
  struct A { F *f; } a{&f};
  if (!reaches_edge([](void *x) { (*((A *)x)->f)(); }, &a)) viol(key, "%s of %zu bytes returned without having gone through its input or output", what, n);
  eval(mix(n, hash(what, strlen(what)))); count("edges-reached");
}
void dirty_stack();     // leave junk below the current frame
void *state_mem(size_t n);   // heap block for a state object, filled with junk that is no function of the case
template <class T> T *new_state() { void *p = state_mem(sizeof(T)); return new (p) T; }
template <class T> void free_state(T *p) { p->~T(); free((void *)p); }

// ---- execution environment of a case
// mon: the oracles are on.  Off in the modes that run the same sessions "raw"
// (trace, det, quiet, leak, thr, inter), where another monitor watches.
extern thread_local bool mon;
struct Env { Rng r; explicit Env(uint64_t s) : r(s) {} };
extern thread_local Rng env;           // source of junk (old contents of states, outputs, stack, heap)
void pre();                            // before every library call: junk on the stack, scheduling point
void output(const char *what, const void *p, size_t n); // after it: event log, definedness
bool mode_is(const char *m);
long many_count();                     // how many packets one state is taken through in the modes "many"
#define CALL(x) do { H::pre(); x; } while (0)

int main_loop(int argc, char **argv, const char *component);
void defined(const char *key, const void *p, size_t n);   // MSan/memcheck: every byte must be initialised
}
// provided by each driver
void run_case(long idx, H::Rng &r);
long default_cases();
