// P13 (P14 with -DP14): the minimisers, run against every landscape / start point / constraint pattern of
// a bounded family, with every evaluation monitored; P14 adds a fault (interrupt, NaN, infinity) at every
// single evaluation.
#define MC_DEFINE_MAIN
#define MC_NO_STOPFLAG
#include "mc.h"
#include <cmath>
#include <csignal>
#include <random>
#include "capture.h"
#include "definitions.h"
#include "model_object.h"
#include "param_struct.h"
#include "solver_results.h"
#include "dispatch_solver.h"
#include "mpfit.h"
#include "DESolver.h"
#include "nlopt_fit.h"
#include <nlopt.h>
using std::string; using std::vector;
volatile sig_atomic_t stopSignal_flag = 0;

struct Lim { int kind; double lo, hi; };   // kind 0 none, 1 both, 2 fixed, 3 lower only, 4 upper only
// residuals of the landscapes; the statistic is the sum of squares
struct LS { const char* name; int n; int m; void (*r)(const double*, double*); bool convex; };
static void l_lin1(const double* p, double* r) { r[0] = 2 * (p[0] - 1.25); r[1] = 0.5; }
static void l_lin2(const double* p, double* r) { r[0] = p[0] - 1.25; r[1] = 3 * (p[1] + 0.75); r[2] = 1; }
static void l_cpl2(const double* p, double* r) { r[0] = p[0] + p[1] - 1; r[1] = p[0] - 2 * p[1] + 0.5; r[2] = 0.25; }
static void l_ros2(const double* p, double* r) { r[0] = 1 - p[0]; r[1] = 3 * (p[1] - p[0] * p[0]); r[2] = 0; }
static void l_flat2(const double* p, double* r) { r[0] = 1; r[1] = -1; r[2] = 2; }
static void l_degen2(const double* p, double* r) { r[0] = p[0] - 0.5; r[1] = 1; r[2] = 0; }
static void l_exp2(const double* p, double* r) { r[0] = exp(p[0]) - 2; r[1] = p[1] * p[1] - 1; r[2] = p[0] * p[1]; }
static void l_cliff2(const double* p, double* r) { r[0] = p[0] - 1; r[1] = p[1] > 0.6 ? 30 + p[1] : p[1]; r[2] = 0.1; }
static void l_lin3(const double* p, double* r) { r[0] = p[0] - 1.25; r[1] = 3 * (p[1] + 0.75); r[2] = 0.5 * (p[2] - 2); r[3] = 0.1; }
static void l_cpl3(const double* p, double* r) { r[0] = p[0] + p[1] + p[2]; r[1] = p[0] - p[1] + 1; r[2] = p[2] - 0.5; r[3] = p[0] * p[2] - 1; }
static void l_big1(const double* p, double* r) { r[0] = 1e11 * (p[0] - 1.25); r[1] = 1e11; }
static void l_abs2(const double* p, double* r) { r[0] = sqrt(fabs(p[0] - 0.3)); r[1] = sqrt(fabs(p[1] - 0.6)); r[2] = 1; }
static void l_scale2(const double* p, double* r) { r[0] = 1e-6 * (p[0] - 1.25); r[1] = 1e4 * (p[1] - 0.75); r[2] = 0; }
static const vector<LS>& lands() {
  static const vector<LS> L = {{"linear1", 1, 2, l_lin1, true}, {"linear2", 2, 3, l_lin2, true}, {"coupled2", 2, 3, l_cpl2, true}, {"rosenbrock2", 2, 3, l_ros2, false}, {"flat2", 2, 3, l_flat2, false}, {"degenerate2", 2, 3, l_degen2, false},
    {"exp2", 2, 3, l_exp2, false}, {"cliff2", 2, 3, l_cliff2, false}, {"linear3", 3, 4, l_lin3, true}, {"product3", 3, 4, l_cpl3, false}, {"huge1", 1, 2, l_big1, true}, {"cusp2", 2, 3, l_abs2, false}, {"scales2", 2, 3, l_scale2, false}};
  return L;
}
enum Fault { NONE, SIG, FNAN, FINF, NANFROM, NANHALF };
class Land : public ModelObject {
 public:
  const LS* ls; Fault fault = NONE; long at = -1; long calls = 0; long afterSig = 0;
  vector<double> start, lo, hi; vector<char> fixed, hasLo, hasHi;
  double best = INFINITY, bestIn = INFINITY; string what; long deCalls = 0; bool sawBad = false, touched = false; const char* who = "";
  vector<double> lastP, bestP;
  explicit Land(const LS* l) : ls(l) {}
  double clean(const double* p) { double r[4]; ls->r(p, r); double s = 0; for (int i = 0; i < ls->m; i++) s += r[i] * r[i]; return s; }
  void monitor(const double* p) {
    for (int i = 0; i < ls->n; i++) {
      MC_CHECK(std::isfinite(p[i]), "evaluated-nonfinite", "%s: the model is evaluated with parameter %d = %g", what.c_str(), i, p[i]);
      if (fixed[i]) MC_CHECK(p[i] == start[i], "evaluated-fixed", "%s: fixed parameter %d = %.17g during evaluation %ld (should be %.17g)", what.c_str(), i, p[i], calls, start[i]);
      if (!fixed[i] && hasLo[i]) MC_CHECK(p[i] >= lo[i], "evaluated-outside", "%s: parameter %d = %.17g below its limit %.17g in evaluation %ld", what.c_str(), i, p[i], lo[i], calls);
      if (!fixed[i] && hasHi[i]) MC_CHECK(p[i] <= hi[i], "evaluated-outside", "%s: parameter %d = %.17g above its limit %.17g in evaluation %ld", what.c_str(), i, p[i], hi[i], calls);
    }
    for (int i = 0; i < ls->n; i++) touched |= (hasLo[i] && p[i] <= lo[i]) || (hasHi[i] && p[i] >= hi[i]);
    mc::count("transitions");
    lastP.assign(p, p + ls->n);
  }
  // returns 0 normal, 1 nan, 2 inf
  int hit(const double* p) {
    calls++; int k = 0;
    if (fault == SIG && calls >= at) { if (stopSignal_flag) afterSig++; stopSignal_flag = 1; }
    if (fault == FNAN && calls == at) k = 1;
    if (fault == FINF && calls == at) k = 2;
    if (fault == NANFROM && calls >= at) k = 1;
    if (fault == NANHALF && p[0] > start[0] + 0.05 * at) k = 1;
    if (k) sawBad = true;
    return k;
  }
  double GetFitStatistic(double params[]) override {
    monitor(params); int k = hit(params); double v = clean(params);
    if (k == 0 && v < best) { best = v; bestP = lastP; }
    return k == 1 ? NAN : k == 2 ? INFINITY : v;
  }
  void ComputeDeviates(double y[], double params[]) override {
    monitor(params); int k = hit(params); ls->r(params, y); double v = clean(params);
    if (k == 0 && v < best) { best = v; bestP = lastP; }
    if (k == 1) y[0] = NAN; if (k == 2) y[0] = INFINITY;
  }
};
struct Solver { int id; const char* name; bool lhs; bool local; bool de; };
static const vector<Solver>& solvers() {
  static const vector<Solver> S = {{MPFIT_SOLVER, "LM", false, true, false}, {NMSIMPLEX_SOLVER, "N-M", false, true, false}, {DIFF_EVOLN_SOLVER, "DE", false, false, true}, {DIFF_EVOLN_SOLVER, "DE-LHS", true, false, true},
    {GENERIC_NLOPT_SOLVER, "COBYLA", false, true, false}, {GENERIC_NLOPT_SOLVER, "BOBYQA", false, true, false}, {GENERIC_NLOPT_SOLVER, "NEWUOA", false, true, false}, {GENERIC_NLOPT_SOLVER, "PRAXIS", false, true, false}, {GENERIC_NLOPT_SOLVER, "NM", false, true, false}, {GENERIC_NLOPT_SOLVER, "SBPLX", false, true, false}};
  return S;
}
struct Out { int status; vector<double> p; double init, best; int nev; bool errs; vector<double> err; int npar, nfree, npegged, calls; };
static Out run(Land& L, const Solver& S, const vector<Lim>& lims, double ftol, unsigned long seed, int verbose = -1, bool forceLims = false) {
  int n = L.ls->n; vector<mp_par> pi(n); bool any = forceLims; int nfree = n;
  L.lo.assign(n, 0); L.hi.assign(n, 0); L.fixed.assign(n, 0); L.hasLo.assign(n, 0); L.hasHi.assign(n, 0);
  for (int i = 0; i < n; i++) {
    memset(&pi[i], 0, sizeof(mp_par));
    if (lims[i].kind) any = true;
    if (lims[i].kind == 2) { pi[i].fixed = 1; L.fixed[i] = 1; nfree--; }
    if (lims[i].kind == 1 || lims[i].kind == 3) { pi[i].limited[0] = 1; pi[i].limits[0] = L.lo[i] = lims[i].lo; L.hasLo[i] = 1; }
    if (lims[i].kind == 1 || lims[i].kind == 4) { pi[i].limited[1] = 1; pi[i].limits[1] = L.hi[i] = lims[i].hi; L.hasHi[i] = 1; }
  }
  Out o; o.p = L.start; SolverResults res; string nm = S.name; stopSignal_flag = (L.fault == SIG && L.at == 0) ? 1 : 0;
  L.what = mc::scratch().empty() ? "" : ""; 
  L.what = string(S.name) + " on " + L.ls->name + " from (";
  for (int i = 0; i < n; i++) { char b[96]; snprintf(b, sizeof b, "%s%g%s", i ? ", " : "", L.start[i], lims[i].kind == 2 ? " fixed" : ""); L.what += b; if (L.hasLo[i]) { snprintf(b, sizeof b, " >=%g", L.lo[i]); L.what += b; } if (L.hasHi[i]) { snprintf(b, sizeof b, " <=%g", L.hi[i]); L.what += b; } }
  L.what += ")"; if (L.fault) { char b[64]; snprintf(b, sizeof b, " with %s %ld", (const char*[]){"", "interrupt at evaluation", "NaN at evaluation", "infinity at evaluation", "NaN from evaluation", "NaN beyond"}[L.fault], L.at); L.what += b; }
  Capture c1(1), c2(2);
  mc::phase(S.name); nlopt_srand(12345);     // PRAXIS draws from the library's own generator
  o.status = DispatchToSolver(S.id, n, nfree, L.ls->m, o.p.data(), pi, &L, ftol, any, verbose, &res, nm, seed, S.lhs);
  mc::phase(""); stopSignal_flag = 0;
  c1.done(); c2.done();
  o.init = S.de ? NAN : res.GetInitialStatisticValue(); o.best = res.GetBestfitStatisticValue(); o.nev = res.GetNFunctionEvals(); o.calls = (int)L.calls;
  o.errs = res.ErrorsPresent(); o.err.assign(n, 0); if (o.errs) res.GetErrors(o.err.data());
  if (S.id == MPFIT_SOLVER) { mp_result* r = res.GetMPResults(); o.npar = r->npar; o.nfree = r->nfree; o.npegged = r->npegged; }
  return o;
}
static bool admissible(const Land& L, const vector<double>& p, string& why) {
  char b[128];
  for (int i = 0; i < L.ls->n; i++) {
    if (!std::isfinite(p[i])) { snprintf(b, sizeof b, "parameter %d = %g", i, p[i]); why = b; return false; }
    if (L.fixed[i] && p[i] != L.start[i]) { snprintf(b, sizeof b, "fixed parameter %d = %.17g instead of %.17g", i, p[i], L.start[i]); why = b; return false; }
    if (!L.fixed[i] && ((L.hasLo[i] && p[i] < L.lo[i]) || (L.hasHi[i] && p[i] > L.hi[i]))) { snprintf(b, sizeof b, "parameter %d = %.17g outside its limits", i, p[i]); why = b; return false; }
  }
  return true;
}
// error bars: sqrt of the diagonal of the inverse of J^T J over the parameters free and not pegged
static bool refErrors(Land& L, const vector<double>& p, vector<double>& e) {
  int n = L.ls->n, m = L.ls->m; vector<int> f; for (int i = 0; i < n; i++) if (!L.fixed[i]) f.push_back(i);
  vector<vector<double>> J; vector<int> keep;
  double r0[4]; L.ls->r(p.data(), r0);
  for (int i : f) {
    vector<double> a = p, b = p; double h = 1e-5; a[i] += h; b[i] -= h; double ra[4], rb[4]; L.ls->r(a.data(), ra); L.ls->r(b.data(), rb);
    vector<double> col(m); double g = 0; for (int k = 0; k < m; k++) { col[k] = (ra[k] - rb[k]) / (2 * h); g += col[k] * r0[k]; }
    bool lp = L.hasLo[i] && p[i] == L.lo[i], up = L.hasHi[i] && p[i] == L.hi[i];
    if ((lp && g > 1e-7) || (up && g < -1e-7)) continue;
    if (lp || up) return false;         // on a limit with no definite gradient: unspecified
    J.push_back(col); keep.push_back(i);
  }
  int q = (int)keep.size(); e.assign(n, 0); if (!q) return true;
  vector<vector<double>> A(q, vector<double>(2 * q, 0));
  for (int a = 0; a < q; a++) { for (int b = 0; b < q; b++) for (int k = 0; k < m; k++) A[a][b] += J[a][k] * J[b][k]; A[a][q + a] = 1; }
  for (int c = 0; c < q; c++) { int pv = c; for (int r = c; r < q; r++) if (fabs(A[r][c]) > fabs(A[pv][c])) pv = r; if (fabs(A[pv][c]) < 1e-6) return false; std::swap(A[c], A[pv]); double d = A[c][c]; for (auto& x : A[c]) x /= d; for (int r = 0; r < q; r++) if (r != c) { double t = A[r][c]; for (int k = 0; k < 2 * q; k++) A[r][k] -= t * A[c][k]; } }
  for (int a = 0; a < q; a++) e[keep[a]] = sqrt(A[a][q + a]);
  return true;
}
static const double STARTS[] = {0.5, -1.0, 0.0, 2.0, 1.25, -0.1};
static const vector<vector<double>>& limitSets() {     // kind, lo, hi
  static const vector<vector<double>> V = {{0, 0, 0}, {1, -3, 3}, {2, 0, 0}, {1, 0.3, 1.0}, {1, -1, 0.5}, {3, -1.5, 0}, {4, 0, 1.0}, {1, 1.0, 4.0}, {1, 0, 2}};
  return V;
}
static bool pickProblem(Land*& L, vector<Lim>& lim, int nland, int nstart, const vector<int>& sets) {
  const LS* ls = &lands()[mc::choose(nland)]; L = new Land(ls); lim.clear();
  for (int i = 0; i < ls->n; i++) {
    const auto& v = limitSets()[sets[mc::choose((int)sets.size())]]; if (i == 0) mc::shard();
    double s = STARTS[mc::choose(ls->n == 3 ? std::min(nstart, 3) : nstart)];
    lim.push_back({(int)v[0], v[1], v[2]}); L->start.push_back(s);
    bool lo = v[0] == 1 || v[0] == 3, hi = v[0] == 1 || v[0] == 4;
    if ((lo && s < v[1]) || (hi && s > v[2])) { delete L; mc::prune(); return false; }
  }
  return true;
}
static void common(Land& L, const Solver& S, const Out& o, const vector<Lim>& lims) {
  string why; mc::Hash h; h(L.what); mc::state(h.h); (void)lims;
  MC_CHECK(admissible(L, o.p, why), "result-inadmissible", "%s: status %d, %s", L.what.c_str(), o.status, why.c_str());
}

#ifndef P14
static void fullCheck(Land& L, const Solver& S, const vector<Lim>& lims, const Out& o) {
  common(L, S, o, lims);
  int n = L.ls->n; int nfixed = 0; for (char f : L.fixed) nfixed += f;
  double fin = L.clean(o.p.data()), ini = L.clean(L.start.data());
  bool lmRefused = S.id == MPFIT_SOLVER && o.status <= 0;
  bool oneSided = false; for (auto& l : lims) oneSided |= l.kind >= 3 || l.kind == 0;
  if (S.de && o.status == -2) { MC_CHECK(o.p == L.start, "refused-changed", "%s: refused, but the parameters were changed", L.what.c_str()); bool need = false; for (auto& l : lims) need |= l.kind == 0 || l.kind >= 3; MC_CHECK(need, "refused", "%s: refused although all parameters are limited", L.what.c_str()); return; }
  if (S.de) { bool need = false; for (auto& l : lims) need |= l.kind == 0 || l.kind >= 3; MC_CHECK(!need, "not-refused", "%s: differential evolution without limits was run", L.what.c_str()); }
  if (lmRefused) { MC_CHECK(o.p == L.start, "refused-changed", "%s: status %d, but the parameters were changed", L.what.c_str(), o.status); MC_CHECK(nfixed == n, "refused", "%s: refused with status %d", L.what.c_str(), o.status); return; }
  if (o.status > 0 || o.calls > 0) {
    MC_CHECK(mc::close(o.best, fin, 1e-12, 1e-300), "reported-statistic", "%s: reported best statistic %.17g, but the returned parameters have %.17g (status %d)", L.what.c_str(), o.best, fin, o.status);
    if (S.local) MC_CHECK(fin <= ini, "worse-than-start", "%s: result %.17g is worse than the start %.17g (status %d)", L.what.c_str(), fin, ini, o.status);
    if (!S.de) MC_CHECK(mc::close(o.init, ini, 1e-12, 1e-300), "initial-statistic", "%s: reported initial statistic %.17g, should be %.17g", L.what.c_str(), o.init, ini);
    if (S.de || S.id == NMSIMPLEX_SOLVER) MC_CHECK(fin <= L.best, "not-best", "%s: returned %.17g, but %.17g was evaluated", L.what.c_str(), fin, L.best);
  }
  if (S.id == MPFIT_SOLVER) {
    MC_CHECK(o.npar == n && o.nfree == n - nfixed, "counts", "%s: %d parameters, %d free reported", L.what.c_str(), o.npar, o.nfree);
    MC_CHECK(o.nev == o.calls, "evaluations", "%s: %d evaluations reported, %d made", L.what.c_str(), o.nev, o.calls);
    MC_CHECK(o.errs, "no-errors", "%s: no error bars", L.what.c_str());
    for (int i = 0; i < n; i++) MC_CHECK(std::isfinite(o.err[i]) && o.err[i] >= 0 && (!L.fixed[i] || o.err[i] == 0), "errors", "%s: error bar %g of parameter %d", L.what.c_str(), o.err[i], i);
    vector<double> e;      // (once a limit has been met, LM's Jacobian may be that of the pegged problem)
    if (!L.touched && L.ls->convex && o.status >= 1 && o.status <= 4 && refErrors(L, o.p, e)) for (int i = 0; i < n; i++) MC_CHECK(mc::close(o.err[i], e[i], 1e-4, 1e-12), "errors", "%s: error bar of parameter %d is %.9g, should be %.9g", L.what.c_str(), i, o.err[i], e[i]);
  } else if (!S.de) MC_CHECK(o.nev == o.calls || o.nev == o.calls - 1, "evaluations", "%s: %d evaluations reported, %d made", L.what.c_str(), o.nev, o.calls);
  // on quadratic landscapes LM must actually find the minimum unless a limit got in its way
  if (S.id == MPFIT_SOLVER && !L.touched && L.ls->convex && L.ls->r != l_big1 && o.status > 0 && nfixed < n) {
    vector<double> t = L.start; double step = 4;      // reference: cyclic coordinate search by golden section on the box [-8,8] intersected with the limits
    for (int it = 0; it < 60; it++) for (int i = 0; i < n; i++) { if (L.fixed[i]) continue; double a = L.hasLo[i] ? L.lo[i] : -8, b = L.hasHi[i] ? L.hi[i] : 8; for (int k = 0; k < 80; k++) { double c = a + (b - a) * 0.381966, d = a + (b - a) * 0.618034; vector<double> u = t, v = t; u[i] = c; v[i] = d; if (L.clean(u.data()) <= L.clean(v.data())) b = d; else a = c; } t[i] = 0.5 * (a + b); }
    (void)step; double ref = L.clean(t.data());
    MC_CHECK(fin <= ref + 1e-3 * (fabs(ref) + 1e-3), "not-minimum", "%s: final statistic %.9g, but %.9g is attainable (status %d)", L.what.c_str(), fin, ref, o.status);
  }
}
MC_PART(problems) {       // every landscape x start x constraint pattern x solver
  const Solver& S = solvers()[mc::choose((int)solvers().size())]; Land* L; vector<Lim> lims;
  bool two = S.de; vector<int> sets; if (two) sets = mc::thorough() ? vector<int>{1, 2, 3, 4, 8, 0} : vector<int>{1, 2, 3, 0}; else sets = mc::thorough() ? vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8} : vector<int>{0, 1, 2, 3, 5, 6};
  if (!pickProblem(L, lims, (int)lands().size(), two ? 2 : mc::tier(3, 4), sets)) return;
  double ftol = 1e-8; Out o = run(*L, S, lims, ftol, 17);
  fullCheck(*L, S, lims, o); delete L;
}
MC_PART(seeds) {          // differential evolution: many seeds
  const Solver& S = solvers()[2 + mc::choose(2)]; Land* L; vector<Lim> lims; int seed = 1 + mc::choose(mc::tier(12, 60)); mc::shard();
  if (!pickProblem(L, lims, mc::tier(4, 10), 1, {1, 2, 3})) return;
  Out o = run(*L, S, lims, 1e-8, seed); fullCheck(*L, S, lims, o); delete L;
}
MC_PART(repeated) {       // a fit gives the same results whatever fits were done before it
  int n = mc::tier(2, 3); auto one = [&](int s, int k) { const Solver& S = solvers()[s]; const LS* ls = &lands()[k]; Land L(ls); vector<Lim> lims; for (int i = 0; i < ls->n; i++) { L.start.push_back(STARTS[i]); lims.push_back({1, -3, 3}); } return run(L, S, lims, 1e-8, 5); };
  static vector<vector<Out>> fresh; static const vector<int> ks = {1, 3};
  static std::map<std::pair<int, int>, Out> ref;
  vector<std::pair<int, int>> h; for (int i = 0; i < n; i++) { h.push_back({mc::choose((int)solvers().size()), ks[mc::choose((int)ks.size())]}); if (i == 0) mc::shard(); }
  mc::Hash hh; for (auto& q : h) hh(q.first)(q.second); mc::state(hh.h);
  for (size_t i = 0; i < h.size(); i++) {
    Out o = one(h[i].first, h[i].second); if (!ref.count(h[i])) ref[h[i]] = o; const Out& r = ref[h[i]];
    bool de = solvers()[h[i].first].de; (void)de;
    MC_CHECK(o.p == r.p && o.status == r.status && o.best == r.best && o.nev == r.nev && o.calls == r.calls, "history", "%s on %s: repeated fit differs (status %d/%d, best %.17g/%.17g, %d/%d evaluations reported, %d/%d made)", solvers()[h[i].first].name, lands()[h[i].second].name, o.status, r.status, o.best, r.best, o.nev, r.nev, o.calls, r.calls);
  }
}
MC_PART(tolerances) {     // extreme tolerances and verbosity
  static const double T[] = {1e-8, 1e-14, 1e-2, 0.5, 1e-5}; const Solver& S = solvers()[mc::choose((int)solvers().size())]; Land* L; vector<Lim> lims; double t = T[mc::choose(5)]; mc::shard();
  if (!pickProblem(L, lims, S.de ? 2 : (int)lands().size(), 1, {1, 3})) return;
  Out o = run(*L, S, lims, t, 3, -1);
  common(*L, S, o, lims); double fin = L->clean(o.p.data());
  MC_CHECK(mc::close(o.best, fin, 1e-12, 1e-300), "reported-statistic", "%s, tolerance %g: reported best statistic %.17g, but the returned parameters have %.17g (status %d)", L->what.c_str(), t, o.best, fin, o.status);
  if (S.local) MC_CHECK(fin <= L->clean(L->start.data()), "worse-than-start", "%s, tolerance %g: result worse than the start", L->what.c_str(), t);
  delete L;
}
#endif

static long g_draw = 0, g_force = -1; static double g_val = 0;
extern "C" double __real__Z13genrand_real1v();
extern "C" double __real__Z13genrand_real2v();
extern "C" double __wrap__Z13genrand_real1v() { double v = __real__Z13genrand_real1v(); return g_draw++ == g_force ? g_val : v; }
extern "C" double __wrap__Z13genrand_real2v() { double v = __real__Z13genrand_real2v(); return g_draw++ == g_force ? std::min(g_val, 4294967295.0 / 4294967296.0) : v; }

#ifndef P14
MC_PART(draws) {          // differential evolution with one extreme random number, at every place of the stream
  const Solver& S = solvers()[2 + mc::choose(2)]; const LS* ls = &lands()[mc::choose(2) ? 1 : 8]; Land L(ls); vector<Lim> lims;
  for (int i = 0; i < ls->n; i++) { L.start.push_back(STARTS[i]); lims.push_back({i == 2 ? 2 : 1, -3, 3}); }
  g_force = mc::choose(mc::tier(250, 1500)); mc::shard(); g_val = mc::flip() ? 1.0 : 0.0; g_draw = 0;
  Out o = run(L, S, lims, 1e-8, 4); L.what += " with draw " + std::to_string(g_force) + (g_val ? " = 1" : " = 0"); long f = g_force; g_force = -1;
  mc::state(mc::Hash()(L.what)(f).h);
  string why; MC_CHECK(admissible(L, o.p, why), "result-inadmissible", "%s: status %d, %s", L.what.c_str(), o.status, why.c_str());
  double fin = L.clean(o.p.data()); MC_CHECK(mc::close(o.best, fin, 1e-12, 1e-300) && fin <= L.best, "reported-statistic", "%s: reported %.17g, returned parameters have %.17g, best evaluated %.17g", L.what.c_str(), o.best, fin, L.best);
}
#else
// ---------------- P14 ----------------
static void faultRun(const Solver& S, int land, const vector<Lim>& lims, const vector<double>& start, Fault f, long at, const Out& clean, unsigned seed) {
  Land L(&lands()[land]); L.start = start; L.fault = f; L.at = at;
  Out o = run(L, S, lims, 1e-8, seed);
  common(L, S, o, lims);
  bool refused = (S.de && o.status == -2);
  if (refused) return;
  double fin = L.clean(o.p.data()), ini = L.clean(L.start.data());
  int nfree = 0; for (char c : L.fixed) nfree += !c;
  if (f == SIG) {
    bool sig = o.status == (S.id == MPFIT_SOLVER ? MP_SIGINT : S.de ? DE_SIGINT : -5);
    bool same = o.status == clean.status && o.calls == clean.calls && o.p == clean.p;
    MC_CHECK(sig || same || L.calls < at, "interrupt-status", "%s: status %d after %d evaluations (undisturbed: status %d after %d)", L.what.c_str(), o.status, o.calls, clean.status, clean.calls);
    long lim = S.id == MPFIT_SOLVER ? nfree + 2 : S.de ? 8 * nfree : 3;
    MC_CHECK(L.afterSig <= lim, "interrupt-late", "%s: %ld evaluations after the interrupt", L.what.c_str(), L.afterSig);
    if (S.local) MC_CHECK(fin <= ini, "worse-than-start", "%s: result %.17g is worse than the start %.17g (status %d)", L.what.c_str(), fin, ini, o.status);
    if (S.de || S.id == NMSIMPLEX_SOLVER) MC_CHECK(fin <= L.best, "not-best", "%s: returned %.17g, but %.17g was evaluated before the interrupt", L.what.c_str(), fin, L.best);
    if (std::isfinite(L.best)) MC_CHECK(mc::close(o.best, fin, 1e-12, 1e-300), "reported-statistic", "%s: reported best statistic %.17g, but the returned parameters have %.17g (status %d)", L.what.c_str(), o.best, fin, o.status);
    return;
  }
  // non-finite values
  if (S.de && std::isfinite(L.best)) MC_CHECK(fin <= L.best, "not-best", "%s: returned %.17g, but the valid value %.17g was evaluated", L.what.c_str(), fin, L.best);
  if (S.local && !(f == NANHALF)) MC_CHECK(fin <= ini, "worse-than-start", "%s: result %.17g is worse than the start %.17g (status %d)", L.what.c_str(), fin, ini, o.status);
  if (S.id == NMSIMPLEX_SOLVER && std::isfinite(L.best)) MC_CHECK(fin <= L.best, "not-best", "%s: returned %.17g, but the valid value %.17g was evaluated", L.what.c_str(), fin, L.best);
  if (f == NANHALF && o.status > 0 && std::isfinite(L.best)) MC_CHECK(!(o.p[0] > L.start[0] + 0.05 * at), "result-nan", "%s: the returned parameters have no valid statistic (status %d)", L.what.c_str(), o.status);
  if (o.status > 0 && o.status != 100 && std::isfinite(L.best)) MC_CHECK(mc::close(o.best, fin, 1e-12, 1e-300), "reported-statistic", "%s: reported best statistic %.17g, but the returned parameters have %.17g (status %d)", L.what.c_str(), o.best, fin, o.status);
  if (!std::isfinite(L.best) && !S.de) MC_CHECK(o.status <= 0 || o.status == 5, "converged-on-nan", "%s: status %d although no evaluation was valid", L.what.c_str(), o.status);
}
MC_PART(faults) {
  const Solver& S = solvers()[mc::choose((int)solvers().size())];
  static const int LQ[] = {0, 1, 3, 8, 6, 2, 5, 4, 7, 9, 11, 12}; int land = LQ[mc::choose(S.de ? mc::tier(2, 5) : mc::tier(4, 12))]; int n = lands()[land].n;
  vector<Lim> lims; vector<double> st; int pat = mc::choose(S.de ? 2 : 4); Fault f = (Fault)(1 + mc::choose(5)); mc::shard();
  for (int i = 0; i < n; i++) {
    int kind = pat == 0 ? 1 : pat == 1 ? (i == n - 1 && n > 1 ? 2 : 1) : pat == 2 ? 0 : (i == 0 ? 3 : 1);
    bool tight = pat == 3; lims.push_back({kind, tight ? -1.0 : -3, tight ? 1.0 : 3}); st.push_back(STARTS[i]);
  }
  Out clean; { Land L(&lands()[land]); L.start = st; clean = run(L, S, lims, 1e-8, 9); }
  long at;
  if (f == NANHALF) at = -20 + mc::choose(41);
  else {
    long cap = std::min<long>(clean.calls + 1, S.de ? mc::tier(60, 400) : S.id == MPFIT_SOLVER ? 400 : mc::tier(120, 600));
    int k = mc::choose((int)cap + 6); at = k < cap ? k + 1 : clean.calls - (k - cap) * (S.de ? 7 : 3);
    if (k >= cap && at <= cap) { mc::prune(); return; }
  }
  faultRun(S, land, lims, st, f, at, clean, 9);
}
MC_PART(twofaults) {      // an interrupt together with a non-finite value
  const Solver& S = solvers()[mc::choose(3)]; int land = mc::choose(2) ? 1 : 3; vector<Lim> lims; vector<double> st; for (int i = 0; i < 2; i++) { lims.push_back({1, -3, 3}); st.push_back(STARTS[i]); }
  long a = 1 + mc::choose(mc::tier(20, 40)); mc::shard(); long b = 1 + mc::choose(mc::tier(20, 40));
  Land L(&lands()[land]); L.start = st; L.fault = FNAN; L.at = a;
  struct L2 : Land { long sig; L2(const LS* l) : Land(l) {} double GetFitStatistic(double p[]) override { double v = Land::GetFitStatistic(p); if (calls == sig) stopSignal_flag = 1; return v; } void ComputeDeviates(double y[], double p[]) override { Land::ComputeDeviates(y, p); if (calls == sig) stopSignal_flag = 1; } };
  L2 M(&lands()[land]); M.start = st; M.fault = FNAN; M.at = a; M.sig = b;
  Out o = run(M, S, lims, 1e-8, 9); M.what += " and an interrupt at " + std::to_string(b);
  common(M, S, o, lims);
  if (S.de) MC_CHECK(M.clean(o.p.data()) <= M.best, "not-best", "%s: returned %.17g, but the valid value %.17g was evaluated", M.what.c_str(), M.clean(o.p.data()), M.best);
  else MC_CHECK(M.clean(o.p.data()) <= M.clean(st.data()), "worse-than-start", "%s: result worse than the start (status %d)", M.what.c_str(), o.status);
}
MC_PART(preset) {         // the interrupt arrived before the fit started
  const Solver& S = solvers()[mc::choose((int)solvers().size())]; int land = mc::choose((int)lands().size()); mc::shard(); int n = lands()[land].n; vector<Lim> lims; vector<double> st; for (int i = 0; i < n; i++) { lims.push_back({1, -3, 3}); st.push_back(STARTS[i]); }
  Out clean; { Land L(&lands()[land]); L.start = st; clean = run(L, S, lims, 1e-8, 9); }
  faultRun(S, land, lims, st, SIG, 0, clean, 9);
}
#endif
