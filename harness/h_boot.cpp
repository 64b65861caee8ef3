// P21: bootstrap resampling: what is drawn, what is fitted, what is reported.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include "refmodel.h"
#include "capture.h"
#include "model_object_multimage.h"
#include "bootstrap_errors.h"
#include "statistics.h"
#include "definitions.h"
#include "definitions_multimage.h"
#include "mersenne_twister.h"
#include "solver_results.h"
#include <functional>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>

// ---- controlled random numbers: the harness decides every uniform deviate
static std::function<double()> rng;
extern "C" double __real__Z13genrand_real2v();
extern "C" double __wrap__Z13genrand_real2v() { return rng ? rng() : __real__Z13genrand_real2v(); }
// ---- controlled solvers: the harness decides the outcome of every fit
struct FitCall { string solver; int np, nfree, ndev; double* p; vector<mp_par> lim; ModelObject* m; double ftol; bool limExist; };
static std::function<int(const FitCall&)> fitHook;
#define LMSYM _Z9LevMarFitiiiPdSt6vectorI13mp_par_structSaIS1_EEP11ModelObjectdbiP13SolverResults
#define NMSYM _Z12NMSimplexFitiPdSt6vectorI13mp_par_structSaIS1_EEP11ModelObjectdiP13SolverResults
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
int realLM(int, int, int, double*, vector<mp_par>, ModelObject*, double, const bool, const int, SolverResults*) asm("__real__Z9LevMarFitiiiPdSt6vectorI13mp_par_structSaIS1_EEP11ModelObjectdbiP13SolverResults");
int wrapLM(int, int, int, double*, vector<mp_par>, ModelObject*, double, const bool, const int, SolverResults*) asm("__wrap__Z9LevMarFitiiiPdSt6vectorI13mp_par_structSaIS1_EEP11ModelObjectdbiP13SolverResults");
int realNM(int, double*, vector<mp_par>, ModelObject*, double, const int, SolverResults*) asm("__real__Z12NMSimplexFitiPdSt6vectorI13mp_par_structSaIS1_EEP11ModelObjectdiP13SolverResults");
int wrapNM(int, double*, vector<mp_par>, ModelObject*, double, const int, SolverResults*) asm("__wrap__Z12NMSimplexFitiPdSt6vectorI13mp_par_structSaIS1_EEP11ModelObjectdiP13SolverResults");
int wrapLM(int a, int b, int c, double* p, vector<mp_par> l, ModelObject* m, double t, const bool le, const int v, SolverResults* r) { if (fitHook) return fitHook({"LM", a, b, c, p, l, m, t, le}); return realLM(a, b, c, p, l, m, t, le, v, r); }
int wrapNM(int a, double* p, vector<mp_par> l, ModelObject* m, double t, const int v, SolverResults* r) { if (fitHook) return fitHook({"NM", a, -1, -1, p, l, m, t, false}); return realNM(a, p, l, m, t, v, r); }

enum { CHI, MODELERR, CASH, PMLR };
struct Sys {                          // one image, or several in a ModelObjectMultImage
  vector<std::unique_ptr<vector<double>>> keep; std::unique_ptr<ModelObject> own; ModelObject* m = nullptr; vector<ModelObject*> im; int nImages = 1; bool multi = false; int mode = CHI; vector<double> best; vector<mp_par> lim; vector<double> off; vector<string> labels; int c, r;
};
static ModelObject* oneImage(Sys& s, int c, int r, int mode, const vector<double>& data, const vector<double>* mask, int psf, int ox, int oy) {
  ModelObject* m = new ModelObject(); m->SetVerboseLevel(-1); m->SetMaxThreads(1); auto keep = [&](vector<double> v) { s.keep.emplace_back(new vector<double>(v)); return s.keep.back()->data(); };
  if (psf) { Psf p(3, 2, 0); m->AddPSFVector(6, 3, 2, keep(p.v), true); }
  m->AddImageDataVector(keep(data), c, r); m->AddImageOffsets(ox, oy); m->AddImageCharacteristics(2, 3, 1, 1, 1);
  if (mask) m->AddMaskVector(c * r, c, r, keep(*mask), MASK_ZERO_IS_GOOD);
  if (mode == MODELERR) m->UseModelErrors(); if (mode == CASH) m->UseCashStatistic(); if (mode == PMLR) m->UsePoissonMLR();
  m->AddFunction(new TFun(3)); m->AddFunction(new TFun(1)); vector<int> st = {0, 1}; m->DefineFunctionSets(st); m->PopulateParameterNames(); m->FinalModelSetup();
  return m;
}
static void build(Sys& s, int nIm, bool multi, int mode, int c, int r, const vector<vector<double>>& masks, int psf, bool offsets) {
  s.nImages = nIm; s.multi = multi; s.mode = mode; s.c = c; s.r = r; int n = c * r;
  for (int q = 0; q < nIm; q++) {
    vector<double> d; for (int i = 0; i < n; i++) d.push_back(9 + 4.5 * ((i * 3 + q) % n) + 0.37 * i * i + 2 * q);
    s.im.push_back(oneImage(s, c, r, mode, d, masks.empty() ? nullptr : &masks[q], psf, offsets ? 10 + 7 * q : 0, offsets ? 21 + 5 * q : 0));
  }
  if (!multi) { s.m = s.im[0]; s.own.reset(s.m); }
  else {
    ModelObjectMultImage* mm = new ModelObjectMultImage(); mm->SetVerboseLevel(-1); for (auto x : s.im) mm->AddModelObject(x);
    mm->AddFunction(new TFun(3)); mm->AddFunction(new TFun(1)); vector<int> st = {0, 1}; mm->DefineFunctionSets(st); mm->PopulateParameterNames(); mm->FinalModelSetup();
    if (mode == CASH) mm->UseCashStatistic(); if (mode == PMLR) mm->UsePoissonMLR(); s.m = mm; s.own.reset(mm);
  }
  for (int q = 1; q < nIm; q++) { for (double v : {1.1, 20.0 * q, 1.3, 1.25 + q, 0.9}) s.best.push_back(v); for (const char* l : {"PIXEL_SCALE", "ROTATION", "FLUX_SCALE", "X0", "Y0"}) s.labels.push_back(l); for (int j = 0; j < 3; j++) s.off.push_back(0); s.off.push_back(offsets ? 10 + 7 * q : 0); s.off.push_back(offsets ? 21 + 5 * q : 0); }
  double ox = offsets ? 10 : 0, oy = offsets ? 21 : 0;
  for (double v : {1.7, 1.2, 11.0, 2.4, 1.9, 6.0, 0.5, 0.2}) s.best.push_back(v);
  for (const char* l : {"X0", "Y0", "I_sky", "X0", "Y0", "I", "dx", "dy"}) s.labels.push_back(l);
  for (double v : {ox, oy, 0.0, ox, oy, 0.0, 0.0, 0.0}) s.off.push_back(v);
  s.lim.resize(s.best.size()); for (auto& l : s.lim) bzero(&l, sizeof l);
  int st = s.m->FinalSetupForFitting(); MC_CHECK(st == 0, "refused", "FinalSetupForFitting returned %d", st);
  MC_CHECK(s.m->GetNParams() == (int)s.best.size(), "nparams", "%d parameters instead of %zu", s.m->GetNParams(), s.best.size());
}
static vector<double> maskOf(int bits, int n) { vector<double> m; for (int i = 0; i < n; i++) m.push_back((bits >> i) & 1); return m; }
// contribution of a single pixel of image q to the statistic: everything else masked
static double term(int nIm, bool multi, int mode, int c, int r, int psf, int q, int pix) {
  static std::map<vector<int>, double> memo; vector<int> k = {nIm, multi, mode, c, r, psf, q, pix}; auto it = memo.find(k); if (it != memo.end()) return it->second;
  Sys s; int n = c * r; vector<vector<double>> mk; for (int i = 0; i < nIm; i++) mk.push_back(maskOf(i == q ? ~(1 << pix) : ~1, n)); build(s, nIm, multi, mode, c, r, mk, psf, false); double a = s.m->GetFitStatistic(s.best.data());
  if (nIm > 1) { Sys o; build(o, nIm, multi, mode, c, r, mk, psf, false); auto keep = rng; rng = nullptr; rng = keep; // pixel 0 of the other images also counts: subtract it
    vector<vector<double>> m0; for (int i = 0; i < nIm; i++) m0.push_back(maskOf(~1, n)); Sys z; build(z, nIm, multi, mode, c, r, m0, psf, false); vector<double> y((size_t)n * nIm, 0.0);
    if (mode == CASH) mc::prune();
    s.m->ComputeDeviates(y.data(), s.best.data()); a = y[(size_t)q * n + pix] * y[(size_t)q * n + pix]; }
  return memo[k] = a;
}
static const int SH[3][2] = {{3, 1}, {2, 2}, {1, 4}};

// every possible sequence of draws of one resampling
MC_PART(draws) {
  int mode = mc::choose(4), sh = mc::choose(3), psf = mc::choose(2); mc::shard(); int c = SH[sh][0], r = SH[sh][1], n = c * r, bits = mc::choose((1 << n) - 1); if (psf && !mc::thorough() && n > 3 && bits == 0) mc::prune();
  vector<vector<double>> mk = {maskOf(bits, n)}; Sys s, t; build(s, 1, false, mode, c, r, mk, psf, false); build(t, 1, false, mode == CASH ? CHI : mode, c, r, mk, psf, false);   // t: its deviates tell which pixels have been drawn
  double s0 = s.m->GetFitStatistic(s.best.data()); int nv = (int)s.m->GetNValidPixels(); vector<double> us; int nbad = 0; static const double in[] = {0.0, 0.5, 1.0 - 1e-12};
  auto validPix = [&](double u) { return !((bits >> std::min(n - 1, (int)(u * n))) & 1); };
  rng = [&] { int k, e; do { k = mc::choose(n); e = mc::choose(mc::thorough() || n < 4 ? 3 : 1); } while (0); double u = (k + in[e]) / n; if (!validPix(u)) { if (nbad >= 1 || e) mc::prune(); nbad++; } us.push_back(u); if (us.size() > (size_t)nv + 3) mc::prune(); return u; };
  int st = s.m->UseBootstrap(); MC_CHECK(st == 0, "status", "UseBootstrap returned %d", st);
  size_t at = 0; vector<double> first = us; rng = [&] { MC_CHECK(at < first.size(), "draws", "more random numbers than before"); return first[at++]; };
  t.m->UseBootstrap(); rng = nullptr;
  vector<double> y(nv, -999.0); t.m->ComputeDeviates(y.data(), t.best.data());
  int tm = mode == CASH ? CHI : mode; vector<int> drawn; double want = 0, sc = 0;
  for (int j = 0; j < nv; j++) { int hit = -1; for (int i = 0; i < n; i++) if (!((bits >> i) & 1) && mc::close(y[j] * y[j], term(1, false, tm, c, r, psf, 0, i), 1e-9, 1e-12)) hit = i; MC_CHECK(hit >= 0, "not-a-valid-pixel", "deviate %d (%g) does not belong to any unmasked pixel", j, y[j]); drawn.push_back(hit); double v = term(1, false, mode, c, r, psf, 0, hit); want += v; sc += fabs(v); }
  double got = s.m->GetFitStatistic(s.best.data()); MC_CHECK(fabs(got - want) <= 1e-9 * sc, "resampled-statistic", "statistic of the resampled data is %.12g, the sum over the pixels drawn %.12g", got, want);
  mc::count("transitions", 3);
  // a new sample replaces the old one; leaving bootstrap mode gives the original statistic
  if (nbad == 0) { at = 0; rng = [&] { return first[at++]; }; s.m->MakeBootstrapSample(); rng = nullptr; MC_CHECK(s.m->GetFitStatistic(s.best.data()) == got, "resample", "the same draws give another statistic"); }
  s.m->EndBootstrap(); double s1 = s.m->GetFitStatistic(s.best.data()); MC_CHECK(s1 == s0, "after", "statistic after the bootstrap is %.12g, before %.12g", s1, s0);
  mc::Hash h; h(mode)(sh)(psf)(bits); for (int d : drawn) h(d); mc::state(h.h);
}
// every pixel is as likely as every other one
MC_PART(uniform) {
  int sh = mc::choose(3); mc::shard(); int c = SH[sh][0], r = SH[sh][1], n = c * r, bits = mc::choose((1 << n) - 1); vector<vector<double>> mk = {maskOf(bits, n)}; Sys s; build(s, 1, false, CHI, c, r, mk, 0, false); int nv = (int)s.m->GetNValidPixels();
  vector<vector<int>> cnt(nv, vector<int>(n, 0)); int G = 24 * n, good = -1; for (int i = 0; i < n; i++) if (!((bits >> i) & 1)) good = i;
  for (int j = 0; j < nv; j++) for (int g = 0; g < G; g++) {
    int k = 0, bad = 0; bool rej = false; int calls = 0; rng = [&] { if (++calls > 400) return ((calls * 5) % (7 * n) + 0.5) / (7 * n); double u = k == j && !bad ? (g + 0.5) / G : (good + 0.5) / n; if (k == j && !bad) { int p = (int)(u * n); if ((bits >> p) & 1) { bad = 1; rej = true; k--; } } k++; return u; };
    if (j == 0 && g == 0) s.m->UseBootstrap(); else s.m->MakeBootstrapSample();
    vector<double> y(nv); s.m->ComputeDeviates(y.data(), s.best.data()); if (rej) continue;
    for (int i = 0; i < n; i++) if (mc::close(y[j] * y[j], term(1, false, CHI, c, r, 0, 0, i), 1e-9, 1e-12)) cnt[j][i]++;
    mc::count("transitions");
  }
  rng = nullptr;
  for (int j = 0; j < nv; j++) for (int i = 0; i < n; i++) { bool ok = !((bits >> i) & 1); MC_CHECK(ok ? cnt[j][i] == 24 : cnt[j][i] == 0, "not-uniform", "draw %d picks pixel %d for %d of %d equally spaced random numbers instead of %d", j, i, cnt[j][i], G, ok ? 24 : 0); }
  mc::state((mc::Hash()(sh)(bits)(5)).h);
}
// deviates and statistic of several images under resampling
MC_PART(multi) {
  int nIm = 1 + mc::choose(mc::tier(2, 3)), mode = mc::choose(2) ? PMLR : CHI, psf = mc::choose(2); mc::shard(); int c = 3, r = 1, n = 3; vector<vector<double>> mk; vector<int> bits; int tot = 0;
  for (int q = 0; q < nIm; q++) { bits.push_back(mc::choose(q == 2 ? 2 : 7)); mk.push_back(maskOf(bits[q], n)); tot += n - __builtin_popcount(bits[q]); }
  Sys s; build(s, nIm, true, mode, c, r, mk, psf, false); double s0 = s.m->GetFitStatistic(s.best.data());
  MC_CHECK(s.m->GetNValidPixels() == tot, "nvalid", "%ld valid pixels instead of %d", s.m->GetNValidPixels(), tot);
  int rot = mc::choose(n); auto mkRng = [&](int start) { int k = start; return [k, n]() mutable { int p = k++; return ((p * 2 + p / 3) % n + 0.5) / n; }; };
  rng = mkRng(rot); int st = s.m->UseBootstrap(); MC_CHECK(st == 0, "status", "UseBootstrap returned %d", st); if (mc::flip()) s.m->MakeBootstrapSample(); rng = nullptr;
  std::unique_ptr<double[]> y(new double[tot]); for (int i = 0; i < tot; i++) y[i] = -999; s.m->ComputeDeviates(y.get(), s.best.data());     // exactly as many as the solver provides room for
  int at = 0; double sum = 0; for (int q = 0; q < nIm; q++) for (int j = 0; j < n - __builtin_popcount(bits[q]); j++, at++) { bool hit = false; for (int i = 0; i < n; i++) if (!((bits[q] >> i) & 1) && mc::close(y[at] * y[at], term(nIm, true, mode, c, r, psf, q, i), 1e-9, 1e-12)) hit = true; MC_CHECK(hit, "deviates", "deviate %d (%g) does not belong to any unmasked pixel of image %d", at, y[at], q + 1); sum += y[at] * y[at]; }
  double g = s.m->GetFitStatistic(s.best.data()); MC_CHECK(mc::close(g, sum, 1e-9, 1e-12), "resampled-statistic", "statistic %.12g, sum of squared deviates %.12g", g, sum);
  s.m->EndBootstrap(); double s1 = s.m->GetFitStatistic(s.best.data()); MC_CHECK(s1 == s0, "after", "statistic after the bootstrap is %.12g, before %.12g", s1, s0);
  mc::count("transitions", 4); mc::state((mc::Hash()(nIm)(mode)(psf)(bits)(rot)(9)).h);
}

// ---- the whole procedure with controlled fits
static vector<double> outcome(const Sys& s, int it, int v) { vector<double> p = s.best; for (size_t i = 0; i < p.size(); i++) if (!s.lim[i].fixed) p[i] += (v == 0 ? -0.125 : v == 1 ? 0.25 : v == 2 ? 0.0 : 0.03125 * v) * (1 + 0.1 * i) + 0.001 * it; return p; }
static void num(const string& line, const char* pat, int n, double* o, const string& what) {
  size_t p = 0; int k = 0; const char* s = line.c_str(); (void)pat;
  while (s[p] && k < n) { char* e; if ((isdigit(s[p]) || ((s[p] == '-' || s[p] == '+') && (isdigit(s[p + 1]) || s[p + 1] == '.' || s[p + 1] == '-'))) && (p == 0 || !isalnum(s[p - 1]))) { const char* q = s + p; if ((*q == '+' || *q == '-') && q[1] == '-') q++; else if (*q == '-' && p > 1 && s[p - 1] == '-') {} double v = strtod(q, &e); o[k++] = v; p = e - s; } else p++; }
  MC_CHECK(k == n, "summary:line", "cannot find %d numbers in \"%s\" (%s)", n, line.c_str(), what.c_str());
}
static bool near6(double printed, double v, double scale = 0) { return fabs(printed - v) <= 2e-5 * fabs(v) + 1e-9 * scale + 1e-12; }
static void judgeSummary(const Sys& s, const string& out, const vector<vector<double>>& succ) {
  int n = (int)succ.size(); bool have = out.find("Statistics for parameter values") != string::npos;
  if (n < 3) { MC_CHECK(!have && out.find("Not enough successful") != string::npos, "summary:too-few", "%d successful iterations: statistics printed, or no warning", n); char b[40]; snprintf(b, sizeof b, "(%d)", n); MC_CHECK(out.find(b) != string::npos, "summary:count", "the number of successful iterations is not reported"); return; }
  MC_CHECK(have, "summary:missing", "%d successful iterations, but no statistics were printed", n);
  char b[60]; snprintf(b, sizeof b, "(%d successful iterations)", n); MC_CHECK(out.find(b) != string::npos, "summary:count", "%d successful iterations, but the summary says otherwise: %.150s", n, out.substr(out.find("Statistics for")).c_str());
  size_t at = out.find("Best-fit\t\t"); MC_CHECK(at != string::npos, "summary:format", "no table"); at = out.find('\n', at) + 1; size_t ip = 0; int im = 1;
  while (at < out.size() && ip < s.best.size()) {
    size_t e = out.find('\n', at); string l = out.substr(at, e - at); at = e + 1; if (l.empty()) continue;
    if (l[0] == '#') { if (l.find("Image-description") != string::npos) { im++; snprintf(b, sizeof b, "image %d:", im); MC_CHECK(l.find(b) != string::npos && ip == (size_t)(im - 2) * 5, "summary:heading", "heading \"%s\" before parameter %zu", l.c_str(), ip); } else MC_CHECK(l.find("Model parameters") != string::npos && ip == (size_t)(s.nImages - 1) * 5, "summary:heading", "heading \"%s\" before parameter %zu", l.c_str(), ip); continue; }
    size_t eq = l.find(" = "); MC_CHECK(eq != string::npos, "summary:line", "line \"%s\"", l.c_str());
    string name = l.substr(0, eq); double bf = s.best[ip] + s.off[ip]; MC_CHECK(name == s.labels[ip], "summary:label", "parameter %zu is called \"%s\" instead of \"%s\"", ip, name.c_str(), s.labels[ip].c_str());
    if (s.lim[ip].fixed) { double v; num(l.substr(eq + 3), "", 1, &v, "fixed"); MC_CHECK(near6(v, bf) && l.find("fixed") != string::npos, "summary:fixed", "fixed parameter %zu: \"%s\"", ip, l.c_str()); }
    else {
      vector<double> v; double mean = 0, sd = 0; for (auto& x : succ) { v.push_back(x[ip] + s.off[ip]); mean += v.back(); } mean /= n; for (double x : v) sd += (x - mean) * (x - mean); sd = sqrt(sd / (n - 1)); std::sort(v.begin(), v.end());
      int lo = std::max(0, (int)lround(0.1585 * n) - 1), hi = std::min(n - 1, (int)lround(0.8415 * n)); double g[8]; string rest = l.substr(eq + 3); for (size_t k = 0; (k = rest.find("--", k)) != string::npos;) { if (k && rest[k - 1] == ' ' && rest[k + 2] == ' ') { rest.replace(k, 2, "  "); } else k += 2; } for (size_t k = 0; (k = rest.find("+/-", k)) != string::npos;) rest.replace(k, 3, "   ");
      num(rest, "", 8, g, "free"); double w[8] = {bf, v[hi] - bf, bf - v[lo], v[lo], v[hi], (v[hi] - v[lo]) / 2, mean, sd}; double sg[8]; for (int k = 0; k < 8; k++) sg[k] = g[k];
      // "+a, -b": the sign before a and b is punctuation
      { const char* p = strchr(rest.c_str(), '+'); if (p) { sg[1] = strtod(p + 1, nullptr); const char* c = strchr(p, ','); c = c ? strchr(c, '-') : nullptr; if (c) sg[2] = strtod(c + 1, nullptr); } }
      static const char* W[] = {"best-fit value", "plus", "minus", "lower bound", "upper bound", "half-width", "mean", "standard deviation"};
      for (int k = 0; k < 8; k++) MC_CHECK(near6(sg[k], w[k], fabs(bf) + 1), string("summary:") + W[k], "parameter %zu (%s): %s is printed as %g instead of %g (%d successful iterations): \"%s\"", ip, name.c_str(), W[k], sg[k], w[k], n, l.c_str());
    }
    ip++;
  }
  MC_CHECK(ip == s.best.size(), "summary:incomplete", "the summary lists %zu of %zu parameters", ip, s.best.size());
}
struct Run { int nIter; vector<int> ok; vector<int> val; };
static void pipeline(Sys& s, const Run& R, int api, bool limits) {
  int it = 0; vector<vector<double>> succ; vector<double> best0 = s.best; double s0 = s.m->GetFitStatistic(s.best.data()); int nfree = (int)s.best.size(); for (auto& l : s.lim) if (l.fixed) nfree--;
  int stat = s.m->WhichFitStatistic(); long nvalid = s.m->GetNValidPixels(); int draw = 0; double last = -1; vector<double> seen;
  rng = [&] { int n = s.c * s.r; return ((it + (draw++ % 3 == 0) + draw / 4096) % n + 0.5) / n; };
  fitHook = [&](const FitCall& f) {
    MC_CHECK(it < R.nIter, "iterations", "more than %d fits", R.nIter);
    MC_CHECK(f.solver == (s.mode == CASH ? "NM" : "LM"), "solver", "solver %s for statistic %d", f.solver.c_str(), s.mode);
    MC_CHECK(f.np == (int)s.best.size() && f.m == s.m && f.ftol == 1e-8, "solver-args", "wrong arguments for the solver"); if (f.solver == "LM") MC_CHECK(f.nfree == nfree && f.ndev == nvalid && f.limExist == limits, "solver-args", "solver called with %d free parameters, %d deviates (instead of %d, %ld)", f.nfree, f.ndev, nfree, nvalid);
    for (size_t i = 0; i < s.best.size(); i++) { MC_CHECK(f.p[i] == s.best[i], "start", "iteration %d: the fit starts from %g instead of %g for parameter %zu", it, f.p[i], s.best[i], i); MC_CHECK(f.lim[i].fixed == s.lim[i].fixed, "limits", "parameter %zu: other limits", i); }
    double now = s.m->GetFitStatistic(f.p); seen.push_back(now); (void)last; last = now;
    vector<double> p = outcome(s, it, R.val[it]); for (size_t i = 0; i < p.size(); i++) f.p[i] = p[i]; bool ok = R.ok[it] > 0; if (ok) succ.push_back(p); return R.ok[it++];
  };
  string out, file; int ret; vector<double> arr; size_t np = s.best.size();
  { Capture cap; FILE* fp = nullptr; string fn = mc::scratch() + "/boot.dat"; if (api == 1) fp = fopen(fn.c_str(), "w");
    if (api < 2) ret = BootstrapErrors(s.best.data(), s.lim, limits, s.m, 1e-8, R.nIter, nfree, stat, fp, 5, s.multi);
    else { arr.assign(np * R.nIter, -7777.0); ret = BootstrapErrorsArrayOnly(s.best.data(), s.lim, limits, s.m, 1e-8, R.nIter, nfree, stat, arr.data(), 5, api == 3); }
    if (fp) { fclose(fp); FILE* f = fopen(fn.c_str(), "r"); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) file.append(b, k); fclose(f); }
    out = cap.done(); }
  fitHook = nullptr; rng = nullptr;
  MC_CHECK(it == R.nIter, "iterations", "%d fits instead of %d", it, R.nIter); MC_CHECK(ret == (int)succ.size(), "returned", "%d successful iterations reported, %zu happened", ret, succ.size());
  MC_CHECK(s.best == best0, "best-fit-changed", "the best-fit parameters were modified");
  double s1 = s.m->GetFitStatistic(s.best.data()); MC_CHECK(s1 == s0, "after", "after the bootstrap the fit statistic of the best fit is %.12g, before %.12g", s1, s0);
  if (s.c * s.r > 1 && R.nIter >= 2) { bool diff = false; for (size_t i = 1; i < seen.size(); i++) diff |= seen[i] != seen[0]; MC_CHECK(diff || R.nIter < 4, "no-resampling", "all iterations fitted the same data"); }
  if (api >= 2) { for (size_t k = 0; k < succ.size(); k++) for (size_t i = 0; i < np; i++) MC_CHECK(mc::close(arr[k * np + i], succ[k][i] + s.off[i], 1e-13, 1e-13), "array", "row %zu parameter %zu is %g instead of %g", k, i, arr[k * np + i], succ[k][i] + s.off[i]); for (size_t k = succ.size() * np; k < arr.size(); k++) MC_CHECK(arr[k] == -7777.0 || arr[k] == 0, "array:rest", "entry %zu beyond the successful iterations is %g", k, arr[k]); if (api == 2) MC_CHECK(out.empty(), "array:output", "output although not verbose: %.100s", out.c_str()); }
  else judgeSummary(s, out, succ);
  if (api == 1) {
    vector<vector<double>> rows; string hdr; char want[80]; size_t a = 0; bool said = false; snprintf(want, sizeof want, "(%d iterations requested)", R.nIter);
    while (a < file.size()) { size_t e = file.find('\n', a); if (e == string::npos) e = file.size(); string l = file.substr(a, e - a); a = e + 1; if (l.empty()) continue; if (l[0] == '#') { hdr = l; said |= l.find(want) != string::npos; continue; } vector<double> v; const char* p = l.c_str(); char* q; for (;;) { double x = strtod(p, &q); if (q == p) break; v.push_back(x); p = q; } while (*p == ' ' || *p == '\t') p++; MC_CHECK(!*p, "saved:line", "unreadable line \"%s\"", l.c_str()); rows.push_back(v); }
    MC_CHECK(said, "saved:header", "number of iterations is not in the file header"); MC_CHECK(rows.size() == succ.size(), "saved:rows", "%zu rows saved instead of %zu", rows.size(), succ.size());
    int cols = 0; { bool w = false; for (char ch : hdr.substr(1)) { bool g = ch != ' ' && ch != '\t'; if (g && !w) cols++; w = g; } } MC_CHECK(cols == (int)np, "saved:columns", "header with %d columns for %zu parameters: %s", cols, np, hdr.c_str());
    for (size_t k = 0; k < rows.size(); k++) { MC_CHECK(rows[k].size() == np, "saved:columns", "row %zu has %zu values instead of %zu", k, rows[k].size(), np); for (size_t i = 0; i < np; i++) MC_CHECK(mc::close(rows[k][i], succ[k][i] + s.off[i], 1e-9, 1e-9), "saved:value", "row %zu, parameter %zu (%s): saved as %.10g instead of %.10g", k, i, s.labels[i].c_str(), rows[k][i], succ[k][i] + s.off[i]); }
  }
  mc::count("transitions", R.nIter);
}
static void sysFor(Sys& s, int kind, int mode, bool offs, int fixedKind) {
  int nIm = kind == 0 ? 1 : kind; build(s, nIm, kind > 0, mode, 2, 2, vector<vector<double>>(nIm, maskOf(fixedKind == 2 ? 4 : 0, 4)), 0, offs);
  if (fixedKind) for (size_t i = 0; i < s.lim.size(); i++) if (i % 3 == (size_t)(fixedKind - 1)) s.lim[i].fixed = 1;
}
// every success/failure pattern and every pattern of fitted values
MC_PART(outcomes) {
  int kind = mc::choose(4), mode = mc::choose(4), offs = mc::choose(2), fx = mc::choose(3); mc::shard(); if (kind == 3 && (mode || fx == 1)) mc::prune(); if (!mc::thorough() && kind && mode == MODELERR) mc::prune();
  int api = mc::choose(4); Run R; R.nIter = 1 + mc::choose(mc::tier(4, 5)); bool rich = (kind == 0 && mode == CHI) || mc::thorough();
  for (int i = 0; i < R.nIter; i++) { static const int st[] = {1, 0, -3, 4}; int k = mc::choose(rich && i < 2 ? 4 : 2); R.ok.push_back(st[k]); R.val.push_back(st[k] > 0 && i < 4 ? mc::choose(R.nIter > 4 || (kind && i > 2) ? 1 : 2) : i % 3); }
  Sys s; sysFor(s, kind, mode, offs, fx); pipeline(s, R, api, mc::flip());
  mc::state((mc::Hash()(kind)(mode)(offs)(fx)(api)(R.ok)(R.val)).h);
}
// the statistics of longer runs: every number of iterations to 40 (120), every single failure, all orders of values
MC_PART(longer) {
  int kind = mc::choose(3), n = 3 + mc::choose(mc::tier(38, 118)); mc::shard(); int fail = mc::choose(mc::thorough() ? 7 : 4), ord = mc::choose(mc::tier(3, 6));
  Sys s; sysFor(s, kind, CHI, mc::flip(), 2); Run R; R.nIter = n; for (int i = 0; i < n; i++) { bool f = fail && (fail == 1 ? i == 0 : fail == 2 ? i == n - 1 : i % fail == 1); R.ok.push_back(f ? -1 : 1); R.val.push_back(ord == 0 ? i : ord == 1 ? n - i : 3 + (i * (5 + 2 * ord)) % 17); }
  pipeline(s, R, fail % 2, true); mc::state((mc::Hash()(kind)(n)(fail)(ord)(44)).h);
}
// statistics.cpp
MC_PART(statistics) {
  int n = 1 + mc::choose(mc::tier(7, 9)); mc::shard(); static const double V[] = {-1.5, 0.25, 4}; vector<double> v; for (int i = 0; i < n; i++) v.push_back(V[mc::choose(3)] + 0.0);
  vector<double> w = v, t = v; double m = 0, sd = 0; for (double x : v) m += x; m /= n; for (double x : v) sd += (x - m) * (x - m);
  MC_CHECK(mc::close(Mean(w.data(), n), m, 1e-14, 1e-14), "mean", "mean of %d values", n); if (n > 1) MC_CHECK(mc::close(StandardDeviation(w.data(), n), sqrt(sd / (n - 1)), 1e-14, 1e-14), "sd", "standard deviation of %d values", n); MC_CHECK(w == v, "changed", "input changed");
  std::sort(t.begin(), t.end()); auto ci = ConfidenceInterval(w.data(), n); int lo = std::max(0, (int)lround(0.1585 * n) - 1), hi = std::min(n - 1, (int)lround(0.8415 * n));
  MC_CHECK(std::get<0>(ci) == t[lo] && std::get<1>(ci) == t[hi], "interval", "interval [%g, %g] instead of [%g, %g]", std::get<0>(ci), std::get<1>(ci), t[lo], t[hi]);
  mc::count("transitions", 3); mc::state((mc::Hash()(v)(8)).h);
}
MC_PART(criteria) {
  static const double L[] = {-1e4, -3.25, 0, 1e-3, 17, 123456.75}; double l = L[mc::choose(6)]; mc::shard(); int k = 1 + mc::choose(12), chi = mc::choose(2); static const long N[] = {20, 33, 1000, 4000000, 3000000000L}; long n = N[mc::choose(5)];
  double m2 = chi ? l : -2 * l, aic = m2 + 2.0 * k + 2.0 * k * (k + 1) / ((double)n - k - 1), bic = m2 + k * log((double)n);
  MC_CHECK(mc::close(AIC_corrected(l, k, n, chi), aic, 1e-12, 1e-12), "aic", "AIC(%g,%d,%ld,%d) is %.12g instead of %.12g", l, k, n, chi, AIC_corrected(l, k, n, chi), aic);
  MC_CHECK(mc::close(BIC(l, k, n, chi), bic, 1e-12, 1e-12), "bic", "BIC(%g,%d,%ld,%d) is %.12g instead of %.12g", l, k, n, chi, BIC(l, k, n, chi), bic);
  mc::count("transitions", 2); mc::state((mc::Hash()(l)(k)(n)(chi)).h);
}
// real solvers: the seed decides everything, and the fits really use the resampled data
MC_PART(seeds) {
  int mode = mc::choose(4), seed = 1 + mc::choose(mc::tier(3, 12)); mc::shard(); int kind = mc::choose(2); if (kind && mode == CASH) mc::prune(); vector<vector<double>> rows[3]; int np = 0;
  for (int k = 0; k < 3; k++) { Sys s; build(s, kind ? 2 : 1, kind > 0, mode, 4, 3, vector<vector<double>>(kind ? 2 : 1, maskOf(0x20, 12)), 0, false); np = (int)s.best.size(); for (int i = 0; i < np; i++) s.lim[i].fixed = s.labels[i] != "I_sky" && s.labels[i] != "I"; vector<double> a((size_t)np * 4, 0.0); { Capture c; BootstrapErrorsArrayOnly(s.best.data(), s.lim, true, s.m, 1e-6, 4, 2, s.m->WhichFitStatistic(), a.data(), k == 2 ? seed + 1000 : seed, false); } for (int i = 0; i < 4; i++) rows[k].push_back(vector<double>(a.begin() + i * np, a.begin() + (i + 1) * np)); 
    for (auto& r : rows[k]) for (int i = 0; i < np; i++) if (s.lim[i].fixed) MC_CHECK(r[i] == s.best[i] || r[i] == 0, "fixed", "fixed parameter %d changed", i); }
  MC_CHECK(rows[0] == rows[1], "seed", "two runs with the same seed differ"); MC_CHECK(rows[0] != rows[2], "seed-ignored", "runs with different seeds are identical"); bool diff = false; for (int i = 1; i < 4; i++) diff |= rows[0][i] != rows[0][0]; MC_CHECK(diff, "no-resampling", "all iterations give the same result");
  mc::count("transitions", 3); mc::state((mc::Hash()(mode)(seed)(kind)(61)).h);
}
