// common dispatch for stream drivers; Adp is the adapter
#ifndef HUGE_N
#define HUGE_N(idx) (((size_t)1 << 32) + 1000003 + (size_t)(idx) * 16)
#endif
#ifndef HUGE_REPS
#define HUGE_REPS(idx) 1
#endif
#ifndef EARLY_MAX
#define EARLY_MAX ((size_t)1 << 42)
#endif
static const size_t MAXLEN = 3000;
void run_case(long idx, H::Rng &r) {
  const std::string &m = H::opt.mode;
  if (m == "sweep") sweep<Adp>(idx, r, false, 70);
  else if (m == "aliassweep") sweep<Adp>(idx, r, true, 70);
  else if (m == "lens") lens<Adp>(idx, r, false);
  else if (m == "aliaslens") lens<Adp>(idx, r, true);
#ifndef MANY
#define MANY H::many_count()
#endif
  else if (m == "many") many<Adp>(idx, r, MANY);
  else if (m == "alias") session<Adp>(r, true, MAXLEN, 10);
  else if (m == "long") longrun<Adp>(r, long_sizes(idx));
  else if (m == "hugewin") hugerun<Adp>(r, HUGE_N(idx), HUGE_REPS(idx));
  else if (m == "early") { Lane<Adp> l; l.s = H::new_state<Adp::S>(); lane_start<Adp>(l, r, true); size_t n = Adp::fit(r.edge(EARLY_MAX)); bool al = r.chance(1, 4), d = Adp::alias_dec && r.chance(1, 2); H::note("%s packet(%zu)%s whose end is out of reach", Adp::name, n, al ? " in place" : "");
    { H::Cliff in(r, n), out(r, n); H::must_reach("model:stops-early", n, "packet", [&] { Adp::process(l.s, out.p, al ? out.p : in.p, n, d); }); } H::free_state(l.s); H::sample_case(); }
  else if (m == "aliaslong") longrun<Adp>(r, long_sizes(idx), true);
#ifdef HAVE_EXTRA
  else if (extra(m, idx, r)) ;
#endif
  else session<Adp>(r, false, MAXLEN, 10);
}
long default_cases() { return 200; }
