#include "h.h"
#include "encoder.h"
using H::Rng; using H::Mem; typedef std::vector<uint8_t> V;
static const char D[] = "0123456789ABCDEF";
static void both(Rng &r, const V &x) {
  size_t n = x.size(); V w(2 * n + 1, 0); for (size_t i = 0; i < n; i++) { w[2 * i] = D[x[i] >> 4]; w[2 * i + 1] = D[x[i] & 15]; }
  { Mem mem(r, false); uint8_t *i = mem.in("bytes", x), *o = mem.out("text", 2 * n + 1); CALL(hex_encode((char *)o, i, (int)n)); H::output("text", o, 2 * n + 1); mem.verify("wset"); if (H::mon) { H::same("model:encode", "encoding", o, w.data(), 2 * n + 1); H::eval(H::hash(x.data(), n), n > 0); H::count("encodings"); }
    Mem m2(r, false); uint8_t *t = m2.in("text", V(o, o + 2 * n)), *d = m2.out("bytes", n); CALL(hex_decode(d, (char *)t, (int)(2 * n))); H::output("bytes", d, n); m2.verify("wset"); if (H::mon) H::same("trip:decode-of-encode", "decoded encoding", d, x.data(), n); }
  { Mem mem(r, false); uint8_t *t = mem.in("text", w.data(), 2 * n), *d = mem.out("bytes", n); CALL(hex_decode(d, (char *)t, (int)(2 * n))); H::output("bytes", d, n); mem.verify("wset"); if (H::mon) { H::same("model:decode", "decoding", d, x.data(), n); H::count("decodings"); H::count("bytes", n); } }
}
void run_case(long idx, Rng &r) {
  if (H::mode_is("sweep")) { // every pair of neighbouring byte values, once per pair over the whole sweep
    V x; for (int j = 0; j < 256; j++) { x.push_back((uint8_t)idx); x.push_back((uint8_t)j); } H::note("hex of all pairs starting with byte %02lx", idx & 255); both(r, x); V y(1, (uint8_t)idx); both(r, y); H::sample_case(); return; }
  if (H::mode_is("lens")) { H::note("hex of %ld", idx); both(r, r.vec(idx)); H::sample_case(); return; }
  if (H::mode_is("early")) { bool d = r.chance(1, 2); size_t n = d ? r.edge(0x7fffffff) & ~(size_t)1 : r.edge(0x7fffffff); H::note("hex %s of %zu bytes whose end is out of reach", d ? "decoding" : "encoding", n); H::Cliff in(r, n), out(r, d ? n : 2 * n + 1); static const char D16[] = "0123456789ABCDEF"; if (d) for (size_t i = 0; i < ((size_t)4 << 20); i++) in.p[i] = D16[in.p[i] & 15];
    H::must_reach("model:stops-early", n, d ? "decoding" : "encoding", [&] { if (d) hex_decode(out.p, (char *)in.p, (int)n); else hex_encode((char *)out.p, in.p, (int)n); }); H::sample_case(); return; }
  if (H::mode_is("long")) { size_t n = idx == 0 ? 300000 : idx == 1 ? (5u << 20) + 1 : ((size_t)1 << 30) + 9; H::note("hex of %zu bytes", n);
    V x(n); r.fill(x.data(), n); std::vector<uint8_t> o(2 * n + 2, 0x7e); CALL(hex_encode((char *)o.data(), x.data(), (int)n)); bool ok = true; for (size_t i = 0; i < n && ok; i++) if (o[2 * i] != (uint8_t)D[x[i] >> 4] || o[2 * i + 1] != (uint8_t)D[x[i] & 15]) { ok = false; H::viol("model:encode-long", "encoding of %zu bytes is wrong from byte %zu on", n, i); } if (ok && (o[2 * n] || o[2 * n + 1] != 0x7e)) H::viol("model:encode-long", "termination of the encoding of %zu bytes is wrong", n);
    if (2 * n < 0x7fffffffu) { V d(n); CALL(hex_decode(d.data(), (char *)o.data(), (int)(2 * n))); H::same("model:decode-long", "decoding", d.data(), x.data(), n); } H::eval(n); H::count("bytes", n); H::sample_case(); return; }
  int ops = 1 + (int)r.below(6); H::note("hex of");
  for (int i = 0; i < ops; i++) { size_t n = r.plen(2000); H::note(" %zu", n); both(r, r.vec(n)); }
  H::sample_case();
}
long default_cases() { return 200; }
int main(int c, char **v) { return H::main_loop(c, v, "Hex codec"); }
