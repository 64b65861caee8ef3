// Shared by P16 and P17: a model whose likelihood calls are recorded, a controlled random-number stream, runs of dream(), chain files.
#ifndef H_CHAINS_H
#define H_CHAINS_H
#include "mc.h"
#include "refmodel.h"
#include "capture.h"
#include "dream.h"
#include "dream_params.h"
#include "rng/GSLStream.h"
#include <functional>
#include <set>
#include <algorithm>
using std::vector; using std::string;
struct Call { int chain, gen; vector<double> p; double v; bool recalc; size_t ndraw; };
struct Ev { char kind; double u; size_t ncall; };       // random numbers drawn, with the number of likelihood calls made before
struct Cfg {
  int nvar = 3, chains = 3, gens = 6, burn = 4, loop = 3, gelman = 1000, nCR = 2; int lockMask = 0, land = 0; double crit = 1.01, noise = 0.05, bstar = 1e-3; bool outliers = true, append = false; int ox = 0, oy = 0; bool recalc = false; double lim = 5; double reenter = 0.2;
};
static const double CEN[4] = {2.0, 1.0, 4.0, 3.0};
struct Run {
  Cfg c; ModelObject m; vector<double> data, lo, hi, init; vector<int> lock; vector<Call> calls; vector<Ev> ev; string root; int status = 0; string err;
  double like(const double* s) const {
    double q = 0; for (int j = 0; j < c.nvar; j++) q += (s[j] - CEN[j]) * (s[j] - CEN[j]) * (1 + j);
    switch (c.land) { case 0: return -0.5 * q; case 1: return s[0] > CEN[0] + 1 && !lock[0] ? -INFINITY : -0.5 * q; case 2: return fabs(s[c.nvar - 1] - CEN[c.nvar - 1]) > 3 ? NAN : -q; case 3: return -3.0; case 4: return s[0] < lo[0] + (hi[0] - lo[0]) * 0.15 ? -4000 - 10 * q : -0.5 * q; }
    return -0.05 * q - 10 * (fabs(s[0] - CEN[0]) < 0.5);
  }
};
static std::function<void()> onLike;
static double likeCB(int chain, int gen, const double* s, const void* d, bool recalc) { Run* r = (Run*)d; (void)r; extern Run* curRun; Run* R = curRun; Call k; k.chain = chain; k.gen = gen; k.p.assign(s, s + R->c.nvar); k.recalc = recalc; k.v = R->like(s); k.ndraw = R->ev.size(); R->calls.push_back(k); mc::count("transitions"); if (onLike) onLike(); return k.v; }
Run* curRun;
// the model only writes the parameter columns (with image offsets); its likelihood is not used
struct PFun : FunctionObject { PFun(int n) { nParams = n; functionName = "P"; shortFunctionName = "P"; for (int i = 0; i < n; i++) parameterLabels.push_back("p" + std::to_string(i)); } void Setup(double*, int, double, double) override {} double GetValue(double, double) override { return 1; } };
static void setupRun(Run& r, const Cfg& c) {
  r.c = c; r.m.SetVerboseLevel(-1); r.m.SetMaxThreads(1); r.data.assign(12, 5.0); r.m.AddImageDataVector(r.data.data(), 4, 3); r.m.AddImageOffsets(c.ox, c.oy);
  MC_CHECK(c.nvar >= 3, "harness", "too few parameters"); r.m.AddFunction(new PFun(c.nvar - 2)); vector<int> st = {0}; r.m.DefineFunctionSets(st); r.m.PopulateParameterNames(); r.m.FinalModelSetup();
  for (int j = 0; j < c.nvar; j++) { bool lk = (c.lockMask >> j) & 1; double v = CEN[j] + 0.5 + 0.25 * j; r.init.push_back(v); r.lock.push_back(lk); r.lo.push_back(lk ? v : CEN[j] - c.lim); r.hi.push_back(lk ? v : CEN[j] + c.lim - 0.5 * j); }
}
static void runDream(Run& r, rng::RngStream* g, bool append, int gens, int burn = -1, int chains = 0) {
  dream_pars d; vector<string> nm; for (int j = 0; j < r.c.nvar; j++) nm.push_back("p" + std::to_string(j));
  SetupDreamParams(&d, r.c.nvar, r.init.data(), nm.data(), r.lock.data(), r.lo.data(), r.hi.data());
  d.numChains = chains ? chains : r.c.chains; d.maxEvals = gens; d.burnIn = burn >= 0 ? burn : r.c.burn; d.outputRootname = r.root; d.appendFile = append; d.fun = &likeCB; d.loopSteps = r.c.loop; d.gelmanEvals = r.c.gelman; d.scaleReductionCrit = r.c.crit; d.nCR = r.c.nCR; d.noise = r.c.noise; d.bstar_zero = r.c.bstar; d.collapseOutliers = r.c.outliers; d.recalcLik = r.c.recalc; d.verboseLevel = -1; d.parameterNames = nm; d.reenterBurnin = r.c.reenter;
  SetHeaderDreamParams(&d, vector<string>{"# header of a chain file\n", "# X0\tY0\tp0\tlikelihood\n"});
  d.extraData = &r.m; curRun = &r;
  Capture c1, c2(2); try { r.status = dream(&d, g); } catch (...) { c2.done(); c1.done(); FreeVarsDreamParams(&d); throw; } r.err = c2.done(); c1.done(); FreeVarsDreamParams(&d);
}
// a random-number stream decided by the harness: a fixed sequence with up to a number of deviations
struct Ctl : rng::RngStream {
  int left; unsigned long s; Run* r; int horizon; Ctl(Run* run, int deviations, unsigned long seed, int h = 1 << 30) : left(deviations), s(seed * 2654435761UL + 12345), r(run), horizon(h) {}
  unsigned next() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(s >> 33); }
  int dev(int n) { if (left <= 0 || horizon-- <= 0 || n < 1) return 0; int k = mc::choose(n + 1); if (k) left--; return k; }
  void alloc(unsigned long) override {} void free() override {}
  void uniform(size_t n, double* x, double a, double b) override { for (size_t i = 0; i < n; i++) { double u = (next() % 1000003u) / 1000003.0; switch (dev(3)) { case 1: u = 0; break; case 2: u = 0.5; break; case 3: u = 1 - 1.0 / 4294967296.0; break; } x[i] = a + (b - a) * u; r->ev.push_back({'u', x[i], r->calls.size()}); } }
  void uniform_int(size_t n, int* x, int a, int b) override { for (size_t i = 0; i < n; i++) { MC_CHECK(b > a, "rng:range", "uniform_int asked for a number in [%d,%d)", a, b); int v = next() % (unsigned)(b - a), k = dev(b - a - 1); if (k) v = (v + k) % (b - a); x[i] = a + v; r->ev.push_back({'i', (double)x[i], r->calls.size()}); } }
  void poisson(size_t, int* k, double) override { *k = 1; }
  void multinomial(size_t k, size_t n, const double* p, unsigned* o) override {
    double sum = 0; for (size_t i = 0; i < k; i++) { MC_CHECK(p[i] >= 0 && p[i] <= 1 + 1e-9, "rng:probability", "crossover probability %zu is %g", i, p[i]); sum += p[i]; } MC_CHECK(fabs(sum - 1) < 1e-9, "rng:probability", "crossover probabilities sum to %.12g", sum);
    vector<unsigned> w(k, 0); size_t used = 0; for (size_t i = 0; i < k; i++) { w[i] = (unsigned)(p[i] * n); used += w[i]; } for (size_t i = 0; used < n; i = (i + 1) % k) { w[i]++; used++; }
    int e = dev((int)k); if (e) { for (auto& x : w) x = 0; w[e - 1] = n; } for (size_t i = 0; i < k; i++) o[i] = w[i]; r->ev.push_back({'m', 0, r->calls.size()}); }
  void gaussian(size_t, double* x, double mu, double sg) override { double u = ((int)(next() % 2001) - 1000) / 600.0; switch (dev(2)) { case 1: u = 1e4; break; case 2: u = -1e4; break; } *x = mu + sg * u; r->ev.push_back({'g', u, r->calls.size()}); }
  template <class T> void shuf(T* x, size_t n) { for (size_t i = n; i > 1; i--) std::swap(x[i - 1], x[next() % i]); int e = dev(2); if (e == 1) std::reverse(x, x + n); if (e == 2) std::rotate(x, x + 1, x + n); r->ev.push_back({'s', 0, r->calls.size()}); }
  void shuffle(int* x, size_t n) override { shuf(x, n); } void shuffle(double* x, size_t n) override { shuf(x, n); }
};
struct Line { vector<double> p; double lik; int burn; vector<double> pcr; int acc; };
struct Chain { vector<Line> l; string problem; };
static string chainName(const string& root, int i) { return root + "." + std::to_string(i + 1) + ".txt"; }
// well-formed: whole lines only; comments start with '#'; every other line has the documented columns
static Chain parseChain(const string& text, int nvar, int nCR, int ox, int oy) {
  Chain c; size_t a = 0; int n = 0; if (!text.empty() && text.back() != '\n') { c.problem = "last line is not complete"; return c; }
  while (a < text.size()) {
    size_t e = text.find('\n', a); string t = text.substr(a, e - a); a = e + 1; n++; if (t.empty() || t[0] == '#') continue;
    Line L; const char* s = t.c_str(); vector<double> v; bool ok = true; while (true) { while (*s == ' ' || *s == '\t') s++; if (!*s) break; char* q; double x = strtod(s, &q); if (q == s || (*q && *q != ' ' && *q != '\t')) { ok = false; break; } v.push_back(x); s = q; }
    if (!ok || (int)v.size() != nvar + 3 + nCR) { char b[300]; snprintf(b, sizeof b, "line %d has not the documented columns: \"%.200s\"", n, t.c_str()); c.problem = b; return c; }
    L.p.assign(v.begin(), v.begin() + nvar); L.p[0] -= ox; L.p[1] -= oy; L.lik = v[nvar]; L.burn = (int)v[nvar + 1]; L.pcr.assign(v.begin() + nvar + 2, v.begin() + nvar + 2 + nCR); L.acc = (int)v.back();
    if ((v[nvar + 1] != 0 && v[nvar + 1] != 1) || (v.back() != 0 && v.back() != 1)) { c.problem = "line " + std::to_string(n) + ": burn-in or accept column is neither 0 nor 1"; return c; }
    c.l.push_back(L);
  }
  return c;
}
static bool eq(double a, double b, double off) { return fabs(a - b) <= 1e-9 * (fabs(a) + fabs(b) + 2 * fabs(off)) + 1e-11; }      // ten digits are written
static bool eqv(const Run& r, const vector<double>& a, const vector<double>& b) { for (int j = 0; j < r.c.nvar; j++) if (!eq(a[j], b[j], j == 0 ? r.c.ox : j == 1 ? r.c.oy : 0)) return false; return true; }
static string show(const vector<double>& v) { string s = "("; char b[40]; for (size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, "%s%.10g", i ? ", " : "", v[i]); s += b; } return s + ")"; }
// every line of the chains from generation g0 on is an admissible state reached by an accepted proposal (or an outlier's move to the best chain)
static void judgeLines(const Run& r, const vector<Chain>& ch, int g0, const string& where, bool onlyPrefix = false) {
  int nc = ch.size(); size_t N = ch[0].l.size(); for (auto& c : ch) MC_CHECK(onlyPrefix || c.l.size() == N, where + "lengths", "chain files have %zu and %zu lines", N, c.l.size());
  std::map<std::pair<int, int>, vector<const Call*>> pr; for (auto& k : r.calls) { for (int j = 0; j < r.c.nvar; j++) MC_CHECK(r.lock[j] ? eq(k.p[j], r.lo[j], j < 2 ? r.c.ox + r.c.oy : 0) : k.p[j] >= r.lo[j] - (k.recalc || k.gen >= 0 ? 1e-8 : 0) && k.p[j] <= r.hi[j] + (k.recalc || k.gen >= 0 ? 1e-8 : 0), where + (r.lock[j] ? "fixed" : "outside"), "likelihood asked for parameter %d = %.12g (limits %g to %g)", j, k.p[j], r.lo[j], r.hi[j]); if (!k.recalc) pr[{k.chain, k.gen}].push_back(&k); }
  for (int i = 0; i < nc; i++) for (size_t t = g0; t < ch[i].l.size(); t++) {
    const Line& L = ch[i].l[t]; string at = "chain " + std::to_string(i + 1) + ", generation " + std::to_string(t) + ": ";
    for (int j = 0; j < r.c.nvar; j++) { double off = j == 0 ? r.c.ox : j == 1 ? r.c.oy : 0; if (r.lock[j]) MC_CHECK(eq(L.p[j], r.lo[j], off), where + "fixed", "%sfixed parameter %d is %.12g instead of %.12g", at.c_str(), j, L.p[j], r.lo[j]); else MC_CHECK((L.p[j] >= r.lo[j] || eq(L.p[j], r.lo[j], off)) && (L.p[j] <= r.hi[j] || eq(L.p[j], r.hi[j], off)), where + "outside", "%sparameter %d is %.12g, limits %g to %g", at.c_str(), j, L.p[j], r.lo[j], r.hi[j]); }
    double w = r.like(L.p.data()), tol = 1e-9 * (1 + fabs(w)); for (int j = 0; j < r.c.nvar; j++) { vector<double> q = L.p; double h = 2e-10 * (fabs(q[j]) + (j == 0 ? r.c.ox : j == 1 ? r.c.oy : 0)) + 1e-12; q[j] += h; tol += 3 * fabs(r.like(q.data()) - w); } MC_CHECK(std::isfinite(L.lik) && (!std::isfinite(w) || !std::isfinite(tol) || fabs(L.lik - w) <= tol), where + "likelihood", "%slog-likelihood %.12g, but that of its parameters %s is %.12g", at.c_str(), L.lik, show(L.p).c_str(), w);
    double sp = 0; for (double x : L.pcr) { MC_CHECK(x >= 0 && x <= 1, where + "pcr", "%scrossover probability %g", at.c_str(), x); sp += x; } MC_CHECK(fabs(sp - 1) < 1e-9, where + "pcr", "%scrossover probabilities sum to %.12g", at.c_str(), sp);
    if (t == 0) { bool hit = false; for (auto k : pr[{i, -1}]) if (eqv(r, k->p, L.p)) hit = true; MC_CHECK(hit, where + "initial", "%snot an initial state whose likelihood was computed", at.c_str()); continue; }
    const Line& P = ch[i].l[t - 1]; const vector<const Call*>& pk = pr[{i, (int)t}]; MC_CHECK(pk.size() <= 1, where + "proposals", "%s%zu proposals", at.c_str(), pk.size());
    bool isProp = pk.size() && eqv(r, pk[0]->p, L.p), isPrev = eqv(r, P.p, L.p);
    bool ok = (L.acc && isProp) || (!L.acc && isPrev) || (L.acc && isPrev && pk.empty());
    bool moved = false; if (!ok && r.c.outliers) {          // moved to the state of the best chain?
      vector<double> ml; int b = 0; int t0 = t / 2; for (int q = 0; q < nc; q++) { double s = 0; for (size_t u = t0; u < t; u++) s += ch[q].l[u].lik; ml.push_back(s / (t - t0)); if (ml[q] > ml[b]) b = q; }
      vector<double> so = ml; std::sort(so.begin(), so.end()); auto quant = [&](double f) { double ix = f * (so.size() - 1); size_t k = (size_t)ix; double d = ix - k; return k + 1 < so.size() ? (1 - d) * so[k] + d * so[k + 1] : so[k]; }; double Q1 = quant(0.25), Q3 = quant(0.75);
      for (int q = 0; q < nc; q++) if (q != i && ml[q] >= ml[b] - 1e-9 * (1 + fabs(ml[b])) && eqv(r, ch[q].l[t].p, L.p) && L.lik == ch[q].l[t].lik && ml[i] < Q1 - 2 * (Q3 - Q1) + 1e-9 * fabs(Q1) && t < r.c.reenter * r.c.gens) { ok = moved = true; mc::count("outlier_moves"); break; }
    }
    MC_CHECK(ok, where + "transition", "%sstate %s (accept = %d) is neither its predecessor %s%s%s", at.c_str(), show(L.p).c_str(), L.acc, show(P.p).c_str(), pk.size() ? " nor an accepted proposal " : "", pk.size() ? show(pk[0]->p).c_str() : "");
    if (pk.size()) { double nv = pk[0]->v; double pl = P.lik; if (!(nv == nv) || nv == -INFINITY) MC_CHECK(!L.acc, where + "accepts-impossible", "%sproposal with log-likelihood %g accepted", at.c_str(), nv); else if (nv > pl + 1e-9 * (1 + fabs(pl))) MC_CHECK(L.acc, where + "rejects-better", "%sproposal with log-likelihood %.12g rejected; the current state has %.12g", at.c_str(), nv, pl); }
    else if (L.acc) MC_CHECK(isPrev || moved, where + "accept-flag", "%saccepted without a proposal", at.c_str());
  }
}
// Metropolis rule with the random numbers actually used (when they can be told apart)
static void judgeAcceptance(const Run& r, const vector<Chain>& ch, int g0, const string& where) {
  int nc = ch.size(); size_t N = ch[0].l.size();
  for (size_t t = std::max(1, g0); t < N; t++) {
    size_t lastCall = 0; bool any = false; vector<const Call*> pk(nc, nullptr); for (size_t k = 0; k < r.calls.size(); k++) if (r.calls[k].gen == (int)t && !r.calls[k].recalc) { pk[r.calls[k].chain] = &r.calls[k]; lastCall = k; any = true; } else if (r.calls[k].gen == (int)t && r.calls[k].recalc && ch[r.calls[k].chain].l.size() > t && !any) lastCall = k;
    if (!any) continue; size_t e = 0; while (e < r.ev.size() && r.ev[e].ncall < lastCall + 1) e++; vector<double> us; for (; e < r.ev.size() && r.ev[e].kind == 'u'; e++) us.push_back(r.ev[e].u);
    vector<int> down; for (int i = 0; i < nc; i++) if (pk[i] && std::isfinite(pk[i]->v) && pk[i]->v < ch[i].l[t - 1].lik - 1e-9 * (1 + fabs(pk[i]->v))) down.push_back(i); else if (pk[i] && (pk[i]->v != pk[i]->v || fabs(pk[i]->v - ch[i].l[t - 1].lik) <= 1e-9 * (1 + fabs(pk[i]->v)))) { down.clear(); down.push_back(-1); break; }
    if (down.size() != us.size() || (down.size() && down[0] < 0)) continue;
    for (size_t q = 0; q < us.size(); q++) { int i = down[q]; double d = pk[i]->v - ch[i].l[t - 1].lik, lu = log(us[q]); if (fabs(lu - d) < 1e-7 * (1 + fabs(d))) continue; MC_CHECK(ch[i].l[t].acc == (lu < d), where + "metropolis", "chain %d, generation %zu: proposal with log-likelihood %.10g (current %.10g) %s with random number %.10g", i + 1, t, pk[i]->v, ch[i].l[t - 1].lik, ch[i].l[t].acc ? "accepted" : "rejected", us[q]); mc::count("metropolis_decisions"); }
  }
}
static vector<Chain> readChains(const Run& r, const string& where, int nc = 0) { vector<Chain> v; for (int i = 0; i < (nc ? nc : r.c.chains); i++) { v.push_back(parseChain(slurp(chainName(r.root, i)), r.c.nvar, r.c.nCR, r.c.ox, r.c.oy)); MC_CHECK(v.back().problem.empty(), where + "malformed", "chain file %d: %s", i + 1, v.back().problem.c_str()); } return v; }
static void removeChains(const string& root) { for (int i = 0; i < 12; i++) remove(chainName(root, i).c_str()); }
#endif
