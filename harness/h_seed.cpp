// P15: the same seed gives the same stochastic computation, whatever ran before; streams and their ranges.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include "refmodel.h"
#include "capture.h"
#include "bootstrap_errors.h"
#include "definitions.h"
#include "mersenne_twister.h"
#include "solver_results.h"
#include "dispatch_solver.h"
#include "diff_evoln_fit.h"
#include "levmar_fit.h"
#include "nmsimplex_fit.h"
#include "nlopt_fit.h"
#include "image_io.h"
#include "dream.h"
#include "dream_params.h"
#include "rng/GSLStream.h"
#include <random>
#include <set>
#include <functional>
#include <sys/wait.h>
#include <sys/stat.h>
using std::vector; using std::string;

// ---- the generator itself
static vector<unsigned long> seeds() {
  vector<unsigned long> v; for (int i = 0; i < mc::tier(300, 3000); i++) v.push_back(i); for (int b = 9; b < 32; b++) { v.push_back((1UL << b) - 1); v.push_back(1UL << b); v.push_back((1UL << b) + 1); } v.push_back(0xffffffffUL); v.push_back(5489); v.push_back(19650218); v.push_back(245494); v.push_back(151392); return v;
}
static const char* TY[] = {"genrand_int32", "genrand_int31", "genrand_real1", "genrand_real2", "genrand_real3", "genrand_res53"};
static void drawCheck(int ty, std::mt19937& g, unsigned long seed, int i) {
  unsigned long a = g(); double x = 0, w = 0; bool in = true;
  switch (ty) {
    case 0: x = (double)genrand_int32(); w = (double)a; break;
    case 1: x = (double)genrand_int31(); w = (double)(a >> 1); in = x >= 0 && x <= 2147483647.0; break;
    case 2: x = genrand_real1(); w = a / 4294967295.0; in = x >= 0 && x <= 1; MC_CHECK((a != 0xffffffffUL || x == 1.0) && (a != 0 || x == 0.0), "real1:ends", "largest and smallest raw numbers give %.17g instead of 1 or 0", x); break;
    case 3: x = genrand_real2(); w = a / 4294967296.0; in = x >= 0 && x < 1; break;
    case 4: x = genrand_real3(); w = (a + 0.5) / 4294967296.0; in = x > 0 && x < 1; break;
    case 5: { unsigned long b = g(); x = genrand_res53(); w = ((a >> 5) * 67108864.0 + (b >> 6)) / 9007199254740992.0; in = x >= 0 && x < 1; break; }
  }
  MC_CHECK(in, string("range:") + TY[ty], "%s returned %.17g (draw %d after seed %lu)", TY[ty], x, i, seed);
  MC_CHECK(fabs(x - w) <= 1e-15 * fabs(w), string("stream:") + TY[ty], "draw %d after seed %lu: %s returned %.17g, the Mersenne Twister gives %.17g", i, seed, TY[ty], x, w);
}
MC_PART(stream) {
  static const vector<unsigned long> sd = seeds(); int k = mc::choose((int)sd.size()); mc::shard(); unsigned long s = sd[k]; int ty = mc::choose(7); bool longRun = s == 245494 || s == 151392 || s == 1;   // the first of these reaches the raw number 2^32-1, the second 0
  init_genrand(s); std::mt19937 g((uint32_t)s); int N = longRun ? mc::tier(12000, 2000000) : mc::tier(1500, 20000);
  for (int i = 0; i < N; i++) drawCheck(ty < 6 ? ty : (i * 7 + i / 3) % 6, g, s, i);
  mc::count("transitions", N); mc::state((mc::Hash()(1)((long)s)(ty)).h);
}
MC_PART(reseed) {                     // seeding in the middle of a stream forgets everything
  unsigned long s1 = mc::choose(mc::tier(2, 5)), s2 = 1 + mc::choose(mc::tier(2, 5)); mc::shard(); int n = mc::choose(mc::tier(1400, 2600)), how = mc::choose(2); static unsigned long key[4] = {0x123, 0x234, 0x345, 0x456};
  if (how) init_by_array(key, 4); else init_genrand(s1);
  for (int i = 0; i < n; i++) genrand_int32();
  init_genrand(s2); std::mt19937 g((uint32_t)s2); for (int i = 0; i < 700; i++) drawCheck(0, g, s2, i);
  mc::count("transitions", n); mc::state((mc::Hash()(2)((long)s1)((long)s2)(n)(how)).h);
}
MC_PART(distinct) {                   // different seeds, different streams
  mc::shard(); std::map<vector<unsigned long>, unsigned long> seen; vector<unsigned long> sd = seeds(); std::set<unsigned long> u(sd.begin(), sd.end());
  for (auto s : u) { init_genrand(s); vector<unsigned long> v; for (int i = 0; i < 4; i++) v.push_back(genrand_int32()); auto it = seen.emplace(v, s); MC_CHECK(it.second, "same-stream", "seeds %lu and %lu give the same numbers", it.first->second, s); mc::count("transitions"); }
  unsigned long key[4] = {0x123, 0x234, 0x345, 0x456}; init_by_array(key, 4); static const unsigned long want[] = {1067595299UL, 955945823UL, 477289528UL, 4107218783UL, 4228976476UL}; for (auto w : want) MC_CHECK(genrand_int32() == w, "by-array", "the stream seeded by an array is not the published one");
  mc::state((mc::Hash()(3)).h);
}

// ---- stochastic computations after other computations
struct Rec : ModelObject {            // remembers every parameter vector it is asked about, and the answer
  mc::Hash h; long calls = 0, limit = -1; vector<double> first; bool log = false; std::set<vector<double>> uniq;
  void rec(const double* p, int n, double v) { calls++; if (limit > 0 && calls >= limit) stopSignal_flag = 1; if (!log) return; if (first.size() < 400) { first.insert(first.end(), p, p + n); first.push_back(v); } for (int i = 0; i < n; i++) h(p[i]); h(v); }
  double GetFitStatistic(double p[]) override { double v = ModelObject::GetFitStatistic(p); rec(p, GetNParams(), v); return v; }
  void ComputeDeviates(double y[], double p[]) override { ModelObject::ComputeDeviates(y, p); rec(p, GetNParams(), y[0]); }
};
enum { CHI, CASH };
struct Fit { Rec m; vector<double> data; vector<double> best; vector<mp_par> lim; int n; };
static void setup(Fit& f, int mode) {
  int c = 3, r = 2, n = f.n = c * r; for (int i = 0; i < n; i++) f.data.push_back(12 + 3.5 * ((i * 5) % 7)); f.m.SetVerboseLevel(-1); f.m.SetMaxThreads(1); f.m.AddImageDataVector(f.data.data(), c, r); f.m.AddImageCharacteristics(2.5, 4, 1, 2, 6); if (mode == CASH) f.m.UseCashStatistic();
  f.m.AddFunction(new TFun(3)); f.m.AddFunction(new TFun(1)); vector<int> st = {0, 1}; f.m.DefineFunctionSets(st); f.m.PopulateParameterNames(); f.m.FinalModelSetup(); int s = f.m.FinalSetupForFitting(); MC_CHECK(s == 0, "refused", "FinalSetupForFitting returned %d", s);
  f.best = {1.7, 1.2, 11.0, 2.4, 1.9, 6.0, 0.5, 0.2}; f.lim.resize(8); for (int i = 0; i < 8; i++) { bzero(&f.lim[i], sizeof(mp_par)); bool fr = i == 2 || i == 5 || i == 3; f.lim[i].fixed = !fr; if (fr) { f.lim[i].limited[0] = f.lim[i].limited[1] = 1; f.lim[i].limits[0] = f.best[i] - 2.5; f.lim[i].limits[1] = f.best[i] + 3; } }
}
static double lik(int, int, const double* s, const void* d, bool) { Rec* m = (Rec*)d; vector<double> p(s, s + m->GetNParams()); return -m->GetFitStatistic(p.data()) / 2.0; }
enum { DE, DELHS, DEDISP, BOOTLM, BOOTNM, BOOTARR, MCMC, NTGT, MCMC2 = NTGT, LM, NM, NLO, DRAW1, DRAW623, DRAW624, ARR, DEFULL, NOPS };
static const char* ON[] = {"differential evolution", "differential evolution (LHS)", "differential evolution by DispatchToSolver", "bootstrap (LM)", "bootstrap (Nelder-Mead)", "bootstrap into an array", "MCMC", "MCMC, two chains", "LM fit", "Nelder-Mead fit", "BOBYQA fit", "one random number", "623 random numbers", "624 random numbers", "seeding by array", "differential evolution to the end"};
static string stripped(const string& t) { string o; for (auto& l : lines(t)) if (l.empty() || l[0] != '#') o += l + "\n"; return o; }
static vector<double> run(Fit& f, int op, unsigned long seed, bool log) {
  vector<double> o, p = f.best; f.m.calls = 0; f.m.limit = -1; f.m.log = log; f.m.h = mc::Hash(); f.m.first.clear(); stopSignal_flag = 0; SolverResults sr; int st = 0; string nm = "BOBYQA"; Capture cap, cap2(2);
  auto text = [&](const string& s) { for (char ch : s) o.push_back(ch); };
  switch (op) {
    case DE: case DELHS: case DEFULL: f.m.limit = op == DEFULL ? 6000 : 330; st = DiffEvolnFit(8, p.data(), f.lim, &f.m, 1e-6, -1, &sr, seed, op == DELHS); break;
    case DEDISP: f.m.limit = 330; st = DispatchToSolver(DIFF_EVOLN_SOLVER, 8, 3, f.n, p.data(), f.lim, &f.m, 1e-6, true, -1, &sr, nm, seed, true); break;
    case BOOTLM: { FILE* fp = fopen((mc::scratch() + "/b.txt").c_str(), "w"); st = BootstrapErrors(f.best.data(), f.lim, true, &f.m, 1e-4, 3, 3, FITSTAT_CHISQUARE, fp, seed); fclose(fp); text(stripped(slurp(mc::scratch() + "/b.txt"))); break; }
    case BOOTNM: { FILE* fp = fopen((mc::scratch() + "/b.txt").c_str(), "w"); st = BootstrapErrors(f.best.data(), f.lim, true, &f.m, 1e-3, 2, 3, FITSTAT_CASH, fp, seed); fclose(fp); text(stripped(slurp(mc::scratch() + "/b.txt"))); break; }
    case BOOTARR: { vector<double> t(8 * 3, 0.0); st = BootstrapErrorsArrayOnly(f.best.data(), f.lim, true, &f.m, 1e-4, 3, 3, FITSTAT_CHISQUARE, t.data(), seed, false); o.insert(o.end(), t.begin(), t.end()); break; }
    case MCMC: case MCMC2: {
      int nch = op == MCMC ? 4 : 2; string names[8]; vector<int> lock; vector<double> lo, hi; for (int i = 0; i < 8; i++) { names[i] = "p" + std::to_string(i); lock.push_back(f.lim[i].fixed); lo.push_back(f.lim[i].fixed ? f.best[i] : f.lim[i].limits[0]); hi.push_back(f.lim[i].fixed ? f.best[i] : f.lim[i].limits[1]); }
      dream_pars d; SetupDreamParams(&d, 8, f.best.data(), names, lock.data(), lo.data(), hi.data()); d.numChains = nch; d.maxEvals = 30; d.burnIn = 12; d.outputRootname = mc::scratch() + "/ch"; d.fun = &lik; d.extraData = &f.m; d.verboseLevel = -1; for (int i = 0; i < 8; i++) d.parameterNames.push_back(names[i]); d.gelmanEvals = 1;
      rng::GSLStream g; g.alloc(seed ? seed : 77); st = dream(&d, &g); FreeVarsDreamParams(&d); for (int i = 1; i <= nch; i++) text(stripped(slurp(mc::scratch() + "/ch." + std::to_string(i) + ".txt"))); p = f.best; break; }
    case LM: st = LevMarFit(8, 3, f.n, p.data(), f.lim, &f.m, 1e-4, true, -1, &sr); break;
    case NM: st = NMSimplexFit(8, p.data(), f.lim, &f.m, 1e-3, -1, &sr); break;
    case NLO: st = NLOptFit(8, p.data(), f.lim, &f.m, 1e-3, -1, nm, &sr); break;
    case DRAW1: genrand_real1(); break;
    case DRAW623: for (int i = 0; i < 623; i++) genrand_int32(); break;
    case DRAW624: for (int i = 0; i < 624; i++) genrand_int32(); break;
    case ARR: { unsigned long key[3] = {7, 8, 9}; init_by_array(key, 3); break; }
  }
  cap2.done(); cap.done(); stopSignal_flag = 0; mc::count("transitions");
  o.push_back(st); o.insert(o.end(), p.begin(), p.end()); if (log) { o.insert(o.end(), f.m.first.begin(), f.m.first.end()); o.push_back((double)f.m.calls); o.push_back((double)(f.m.h.h >> 20)); }
  return o;
}
static int modeOf(int op) { return op == BOOTNM ? CASH : CHI; }
static const unsigned long SD[] = {1, 42, 4294967295UL};
// the result of one computation as the first thing a process does
static const vector<double>& fresh(int op, unsigned long seed) {
  static std::map<std::pair<int, unsigned long>, vector<double>> memo; static bool done = false;
  auto one = [](int o, unsigned long s) {
    int fd[2]; if (pipe(fd)) abort(); fflush(stdout); fflush(stderr); pid_t pid = fork();
    if (!pid) { close(fd[0]); Fit f; setup(f, modeOf(o)); vector<double> v = run(f, o, s, true); size_t n = v.size(); if (write(fd[1], &n, sizeof n) < 0) _exit(1); const char* b = (const char*)v.data(); size_t left = n * 8; while (left) { ssize_t w = write(fd[1], b, left); if (w <= 0) _exit(1); b += w; left -= w; } _exit(0); }
    close(fd[1]); size_t n = 0; vector<double> v; if (read(fd[0], &n, sizeof n) == (ssize_t)sizeof n) { v.resize(n); char* b = (char*)v.data(); size_t left = n * 8; while (left) { ssize_t r = read(fd[0], b, left); if (r <= 0) break; b += r; left -= r; } } close(fd[0]); int st; waitpid(pid, &st, 0);
    return v; };
  if (!done) { done = true; for (int o = 0; o < NTGT; o++) for (auto s : SD) memo[{o, s}] = one(o, s); }   // before anything else has run in this process
  auto it = memo.find({op, seed}); if (it == memo.end()) it = memo.emplace(std::make_pair(op, seed), one(op, seed)).first; return it->second;
}
MC_PART(history) {
  fresh(0, 1); int tgt = mc::choose(NTGT), si = mc::choose(mc::tier(2, 3)); int depth = mc::choose(3); bool same = depth ? mc::flip() : false; mc::note("%s with seed %lu, %s model:", ON[tgt], SD[si], same ? "same" : "new");
  Fit f; setup(f, modeOf(tgt)); mc::Hash h; h(7)(tgt)(si)(same);
  for (int d = 0; d < depth; d++) {
    int op = mc::choose(NOPS), sd = op < NTGT ? mc::choose(d == 0 ? 3 : 1) : 0; if (d == 0) mc::shard(); if (op == DEFULL && d == 0 && depth > 1) mc::prune(); static const unsigned long hs[] = {7, 42, 0}; mc::note(" after %s (seed %lu)", ON[op], hs[sd]); h(op)(sd);
    if (modeOf(op) != modeOf(tgt) || !same) { Fit g; setup(g, modeOf(op)); run(g, op, hs[sd], false); } else run(f, op, hs[sd], false);
  }
  vector<double> a = run(f, tgt, SD[si], true); const vector<double>& w = fresh(tgt, SD[si]); MC_CHECK(w.size() > 9, "refused", "the computation alone failed");
  MC_CHECK(a.size() == w.size(), string("result:") + ON[tgt], "another number of results (%zu instead of %zu)", a.size(), w.size());
  for (size_t i = 0; i < a.size(); i++) MC_CHECK(a[i] == w[i] || (a[i] != a[i] && w[i] != w[i]), string("result:") + ON[tgt], "item %zu is %.17g; when the computation is the first one it is %.17g", i, a[i], w[i]);
  mc::state(h.h);
}
MC_PART(seedmatters) {                // another seed, another computation; the same seed twice in a row, the same one
  fresh(0, 1); int tgt = mc::choose(NTGT); mc::shard(); int K = mc::tier(8, 40); std::map<vector<double>, unsigned long> seen;
  for (int k = 0; k < K; k++) { unsigned long s = k < 5 ? k + 1 : k == 5 ? 4294967295UL : k == 6 ? 2147483648UL : 1000 + k; Fit f; setup(f, modeOf(tgt)); vector<double> v = run(f, tgt, s, true), t; { Fit g; setup(g, modeOf(tgt)); t = run(g, tgt, s, true); } MC_CHECK(v == t, string("twice:") + ON[tgt], "the same seed (%lu) gives different results", s); auto it = seen.emplace(v, s); MC_CHECK(it.second, string("seed-ignored:") + ON[tgt], "seeds %lu and %lu give the same results", it.first->second, s); }
  mc::state((mc::Hash()(8)(tgt)).h);
}
// what differential evolution tries first lies within the limits
MC_PART(population) {
  bool lhs = mc::flip(); mc::shard(); static const unsigned long base[] = {245494, 151392}; int k = mc::choose(mc::tier(60, 400)); unsigned long s = k < 2 ? base[k] : k; Fit f; setup(f, CHI); Fit g; setup(g, CHI);
  vector<double> v = run(f, lhs ? DELHS : DE, s, true); int nPop = 30; MC_CHECK((int)f.m.first.size() >= nPop * 9, "calls", "only %zu values recorded", f.m.first.size());
  for (int j : {2, 3, 5}) { double lo = f.lim[j].limits[0], hi = f.lim[j].limits[1]; for (int i = 0; i < nPop; i++) { double x = f.m.first[i * 9 + j]; MC_CHECK(x >= lo && x <= hi, "outside", "parameter %d of member %d of the first generation is %.17g", j, i, x); } }
  for (int j : {0, 1, 4, 6, 7}) for (int i = 0; i < nPop; i++) MC_CHECK(f.m.first[i * 9 + j] == f.best[j], "fixed", "fixed parameter %d is %.17g in member %d", j, f.m.first[i * 9 + j], i);
  mc::state((mc::Hash()(9)(lhs)((long)s)).h);
}

// ---- the programs with --seed
extern int imfit_main_entry(int, char**); extern int mcmc_main_entry(int, char**);
static string D() { return mc::scratch() + "/prog"; }
static int call(bool mcmc, vector<string> a) { a.insert(a.begin(), "prog"); vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr); Capture c1, c2(2); int st; try { st = (mcmc ? mcmc_main_entry : imfit_main_entry)((int)a.size(), v.data()); } catch (mc::ExitCalled& e) { st = 1000 + e.status; } stopSignal_flag = 0; c2.done(); c1.done(); return st; }
enum { P_DE, P_LHS, P_BOOT, P_MCMC, P_DEBOOT, NPROG };
static const char* PN[] = {"imfit --de", "imfit --de-lhs", "imfit --bootstrap", "imfit-mcmc", "imfit --de --bootstrap"};
static string prog(int which, const string& seed) {
  string d = D(); mkdir(d.c_str(), 0700); vector<double> im; for (int i = 0; i < 30; i++) im.push_back(100 + 13 * ((i * 7) % 11) + 200.0 / (1 + abs(i % 6 - 3) + abs(i / 6 - 2))); vector<string> hd; string img = d + "/i.fits", out = d + "/o.txt", bs = d + "/b.txt";
  remove(img.c_str()); { Capture c; SaveVectorAsImage(im.data(), img, 6, 5, hd); } remove(out.c_str()); remove(bs.c_str()); for (int i = 1; i < 9; i++) remove((d + "/c." + std::to_string(i) + ".txt").c_str());
  spit(d + "/cfg", "GAIN 2\nREADNOISE 3\nX0 3.4 2,5\nY0 3.1 2,5\nFUNCTION Gaussian\nPA 30 fixed\nell 0.1 fixed\nI_0 150 50,400\nsigma 1.5 0.5,4\nFUNCTION FlatSky\nI_sky 100 50,200\n");
  vector<string> a; string res; int st;
  if (which == P_MCMC) a = {img, "-c", d + "/cfg", "--nchains", "4", "--max-chain-length", "25", "--burnin-length", "10", "-o", d + "/c", "--seed", seed};
  else { a = {img, "-c", d + "/cfg", "--save-params", out, "--ftol", "0.01", "--seed", seed, "--max-threads", "1"}; if (which == P_DE || which == P_DEBOOT) a.push_back("--de"); if (which == P_LHS) a.push_back("--de-lhs"); if (which == P_BOOT || which == P_DEBOOT) for (string s : {"--bootstrap", "3", "--save-bootstrap"}) a.push_back(s); if (which == P_BOOT || which == P_DEBOOT) a.push_back(bs); }
  st = call(which == P_MCMC, a); MC_CHECK(st == 0, string("status:") + PN[which], "%s ended with status %d", PN[which], st);
  if (which == P_MCMC) for (int i = 1; i <= 4; i++) res += stripped(slurp(d + "/c." + std::to_string(i) + ".txt")); else { res = stripped(slurp(out)); res += stripped(slurp(bs)); }
  MC_CHECK(res.size() > 100, string("output:") + PN[which], "%s left no results", PN[which]); mc::count("transitions"); return res;
}
MC_PART(programs) {
  static std::map<int, string> ref; int w = mc::choose(NPROG); mc::shard(); int h1 = mc::choose(NPROG + 1), h2 = mc::thorough() && h1 ? mc::choose(NPROG + 1) : 0; if (mc::choose(2)) { string a = prog(w, "12"), b = prog(w, "13"); MC_CHECK(a != b, string("seed-ignored:") + PN[w], "%s: seeds 12 and 13 give the same results", PN[w]); if (h1 || h2) mc::prune(); mc::state((mc::Hash()(11)(w)).h); return; }
  if (!ref.count(w)) { // in a process of its own, before any program has run in this one
    string fn = mc::scratch() + "/ref.txt"; remove(fn.c_str()); fflush(stdout); fflush(stderr); pid_t p = fork(); if (!p) { try { spit(fn, prog(w, "12")); } catch (...) {} _exit(0); } int st; waitpid(p, &st, 0); ref[w] = slurp(fn); }
  if (h1) prog(h1 - 1, "5"); if (h2) prog(h2 - 1, "0"); string r = prog(w, "12"); MC_CHECK(ref[w].size() > 100, "refused", "%s alone failed", PN[w]); MC_CHECK(r == ref[w], string("result:") + PN[w], "%s --seed 12 gives other results than as the first program run", PN[w]);
  mc::state((mc::Hash()(10)(w)(h1)(h2)).h);
}
