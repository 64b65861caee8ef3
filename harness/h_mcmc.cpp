// P16: MCMC chains contain only admissible states with their true likelihood.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "h_chains.h"

static void whole(Run& r, rng::RngStream* g, const string& where) {
  r.root = mc::scratch() + "/ch"; removeChains(r.root); runDream(r, g, false, r.c.gens);
  MC_CHECK(r.status == DREAM_EXIT_MAX_ITERATIONS || r.status == DREAM_EXIT_CONVERGENCE, where + "status", "dream() returned %d (%s)", r.status, r.err.c_str());
  vector<Chain> ch = readChains(r, where); size_t N = ch[0].l.size();
  if (r.status == DREAM_EXIT_MAX_ITERATIONS) MC_CHECK((int)N == r.c.gens, where + "length", "%zu lines for %d generations", N, r.c.gens); else MC_CHECK((int)N < r.c.gens + 1 && N >= 1, where + "length", "%zu lines after convergence", N);
  judgeLines(r, ch, 0, where); judgeAcceptance(r, ch, 0, where);
  for (int i = 0; i < r.c.chains; i++) for (size_t t = 0; t < N; t++) if (r.c.burn == 0) MC_CHECK(ch[i].l[t].burn == 0, where + "burn-in", "burn-in flag set without burn-in phase"); else if ((int)t < r.c.burn) MC_CHECK(ch[i].l[t].burn == 1, where + "burn-in", "generation %zu not marked as burn-in (length %d)", t, r.c.burn);
  bool moved = false; for (auto& k : r.calls) if (k.gen > 0 && !k.recalc) moved = true; (void)moved;
  mc::Hash h; h(r.c.nvar)(r.c.chains)(r.c.gens)(r.c.lockMask)(r.c.land); for (auto& c : ch) for (auto& l : c.l) { for (double x : l.p) h(x); h(l.acc); } mc::state(h.h);
}
// every run of up to a number of deviations from a fixed random sequence
MC_PART(controlled) {
  Cfg c; static const int ch[] = {3, 2, 4}; c.chains = ch[mc::choose(3)]; c.land = mc::choose(6); c.lockMask = (int[]){0, 2, 5, 3}[mc::choose(4)]; c.gens = 5 + mc::choose(mc::tier(1, 3)); c.burn = mc::choose(2) ? 3 : 0; mc::shard();
  c.loop = 2; c.nvar = 3; if (c.land == 2 && c.lockMask == 5) c.lockMask = 1; c.reenter = 1;
  bool far = mc::flip();      // one deviation anywhere, or two among the first draws (everywhere in the thorough tier)
  Run r; setupRun(r, c); Ctl g(&r, far ? 1 : 2, 1 + mc::choose(mc::tier(far ? 3 : 1, 3)), far || mc::thorough() ? 1 << 30 : 34); whole(r, &g, "controlled:");
}
// all the settings, with the generator the program uses, over many seeds
MC_PART(seeds) {
  Cfg c; c.nvar = 3 + mc::choose(2); c.chains = 2 + mc::choose(6); c.lockMask = mc::choose(1 << c.nvar); c.land = mc::choose(6); mc::shard(); if (!mc::thorough() && c.nvar == 4 && __builtin_popcount(c.lockMask) > 2) mc::prune();
  int opt = mc::choose(8); c.gens = (int[]){30, 1, 25, 60, 40, 40, 12, 50}[opt]; c.burn = (int[]){12, 4, 0, 5, 200, 10, 6, 20}[opt]; c.loop = (int[]){10, 10, 5, 3, 10, 2, 1, 4}[opt]; c.gelman = (int[]){1000, 1, 1000, 1, 1, 2, 1000, 1000}[opt]; c.nCR = (int[]){3, 3, 2, 1, 3, 3, 4, 3}[opt]; c.crit = opt == 3 ? 5.0 : 1.2; c.outliers = opt != 6; c.ox = opt == 2 ? 100 : 0; c.oy = opt == 2 ? 37 : 0; c.bstar = opt == 5 ? 2.0 : 1e-3; c.noise = opt == 7 ? 0.9 : 0.05; c.reenter = opt == 0 ? 0.2 : 1.0; c.recalc = opt == 7;
  if (c.land == 2 && (c.lockMask >> (c.nvar - 1)) & 1) c.lockMask &= ~(1 << (c.nvar - 1));
  for (int sd = 1; sd <= mc::tier(1, 12); sd++) { Run r; setupRun(r, c); struct G : rng::GSLStream { Run* r; void uniform(size_t n, double* x, double a, double b) { rng::GSLStream::uniform(n, x, a, b); for (size_t i = 0; i < n; i++) r->ev.push_back({'u', x[i], r->calls.size()}); } void uniform_int(size_t n, int* x, int a, int b) { rng::GSLStream::uniform_int(n, x, a, b); r->ev.push_back({'i', 0, r->calls.size()}); } void multinomial(size_t k, size_t n, const double* p, unsigned* a) { double s = 0; for (size_t i = 0; i < k; i++) { MC_CHECK(p[i] >= 0 && p[i] <= 1 + 1e-9, "rng:probability", "crossover probability %zu is %g", i, p[i]); s += p[i]; } rng::GSLStream::multinomial(k, n, p, a); r->ev.push_back({'m', 0, r->calls.size()}); } } g; g.r = &r; g.alloc(sd * 977 + c.chains); whole(r, &g, "seeds:"); }
}
// chains stuck in a bad place are moved to the best chain, and only those
MC_PART(outliers) {
  Cfg c; c.chains = 5 + mc::choose(4); c.land = 4; c.gens = 24; c.burn = mc::choose(2) ? 6 : 0; c.loop = 2 + mc::choose(3); c.reenter = mc::choose(2) ? 1.0 : 0.5; c.bstar = 1e-3; c.noise = 0.01; c.nvar = 3; c.lockMask = mc::choose(2) ? 6 : 0; mc::shard(); int sd = mc::choose(mc::tier(60, 600));
  Run r; setupRun(r, c); Ctl g(&r, 0, 100 + sd); whole(r, &g, "outliers:");
}
// numbers of chains and generations which make no sense are refused, likelihoods which are never finite reported
MC_PART(limits) {
  int what = mc::choose(4); mc::shard(); Cfg c; c.gens = 5; Run r; setupRun(r, c); Ctl g(&r, 0, 3); r.root = mc::scratch() + "/ch"; removeChains(r.root); mc::phase("limits");
  if (what == 0) { r.c.chains = mc::choose(3) - 1; runDream(r, &g, false, 5, -1, r.c.chains); if (r.c.chains == 0) mc::prune(); MC_CHECK(r.status < 0, "few-chains", "%d chain(s): dream() returned %d", r.c.chains, r.status); }
  if (what == 1) { int n = mc::choose(2) - 1; runDream(r, &g, false, n); MC_CHECK(r.status < 0, "no-generations", "%d generations: dream() returned %d", n, r.status); }
  if (what == 2) { r.c.land = 1; r.lo[0] = CEN[0] + 2; runDream(r, &g, false, 5); MC_CHECK(r.status < 0, "never-finite", "likelihood is never finite, dream() returned %d", r.status); }
  if (what == 3) { r.root = mc::scratch() + "/no/such/dir/ch"; runDream(r, &g, mc::flip(), 5); MC_CHECK(r.status < 0 && r.err.size(), "no-directory", "chain files cannot be made, dream() returned %d", r.status); }
  mc::state((mc::Hash()(3)(what)(r.c.chains)).h);
}
