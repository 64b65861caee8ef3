// P14, programs: imfit and multimfit run from main() and Ctrl-C (SIGINT) arrives during any evaluation of the model - of the fit,
// of the reports after it, of any bootstrap fit. (The PSF makes every evaluation call fftw_execute: the signal is raised there.)
#define OPTIONS_COMMON_ONLY
#define MC_NO_STOPFLAG
extern volatile int stopSignal_flag;       // sig_atomic_t; the program's own
#include "h_options.cpp"
#include <signal.h>
#include <set>
#include <map>
extern "C" void __real_fftw_execute(const fftw_plan); static long calls, sigAt; static bool second; static vector<long> fitStart;
static bool armed() { struct sigaction s; sigaction(SIGINT, nullptr, &s); return s.sa_handler != SIG_DFL && s.sa_handler != SIG_IGN; }
extern "C" void __wrap_fftw_execute(const fftw_plan p) { if (armed()) { calls++; if (calls == sigAt || (second && calls == sigAt + 3)) raise(SIGINT); } __real_fftw_execute(p); }
struct SolverResults; class ModelObject;
#define LM_SYM _Z9LevMarFitiiiPdSt6vectorI13mp_par_structSaIS1_EEP11ModelObjectdbiP13SolverResults
#define NM_SYM _Z12NMSimplexFitiPdSt6vectorI13mp_par_structSaIS1_EEP11ModelObjectdiP13SolverResults
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
extern "C" int CAT(__real_, LM_SYM)(int, int, int, double*, vector<mp_par>*, ModelObject*, double, bool, int, SolverResults*); extern "C" int CAT(__real_, NM_SYM)(int, double*, vector<mp_par>*, ModelObject*, double, int, SolverResults*);
// (a vector passed by value is passed as the address of a temporary)
extern "C" int CAT(__wrap_, LM_SYM)(int a, int b, int c, double* d, vector<mp_par>* e, ModelObject* f, double g, bool h, int i, SolverResults* j) { fitStart.push_back(calls); return CAT(__real_, LM_SYM)(a, b, c, d, e, f, g, h, i, j); }
extern "C" int CAT(__wrap_, NM_SYM)(int a, double* d, vector<mp_par>* e, ModelObject* f, double g, int i, SolverResults* j) { fitStart.push_back(calls); return CAT(__real_, NM_SYM)(a, d, e, f, g, i, j); }
#ifdef MULTI
extern int multimfit_main_entry(int, char**);
#define ENTRY multimfit_main_entry
#else
#define ENTRY imfit_main_entry
#endif
struct Sc { const char* name; vector<string> a; int mode; bool de, boot, nmboot; };
static const vector<Sc>& scenarios() {
  static const vector<Sc> s = {{"LM", {}, DATAERR, false, false, false}, {"NM", {"--nm"}, DATAERR, false, false, false}, {"DE", {"--de", "--seed", "5", "--ftol", "0.05"}, DATAERR, true, false, false},
    {"LM, MLR, bootstrap", {"--mlr", "--bootstrap", "4", "--seed", "3", "--ftol", "1e-4"}, MLR, false, true, false}, {"NM, bootstrap", {"--nm", "--bootstrap", "4", "--seed", "3"}, DATAERR, false, true, false}, {"NM, Cash, bootstrap", {"--nm", "--cashstat", "--bootstrap", "3", "--seed", "9", "--ftol", "1e-3"}, CASH, false, true, true},
    {"LM, model errors, bootstrap", {"--model-errors", "--bootstrap", "5", "--seed", "8", "--ftol", "1e-3"}, MODELERR, false, true, false},
#ifndef MULTI
    {"DE-LHS", {"--de-lhs", "--seed", "6", "--ftol", "0.05"}, DATAERR, true, false, false}, {"BOBYQA", {"--nlopt", "BOBYQA"}, DATAERR, false, false, false}, {"COBYLA", {"--nlopt", "COBYLA", "--ftol", "1e-4"}, DATAERR, false, false, false}, {"SBPLX, Cash", {"--cashstat", "--nlopt", "SBPLX", "--ftol", "1e-3"}, CASH, false, false, false}, {"NEWUOA", {"--nlopt", "NEWUOA", "--ftol", "1e-3"}, DATAERR, false, false, false},
#endif
  }; return s; }
struct Res { int st; string out, err; long calls; vector<long> fits; std::set<string> files; V p; string pfile; vector<string> rows; string ptext; };
static V values(const string& fn) { V p; for (auto& l : lines(slurp(fn))) { if (l.empty() || l[0] == '#' || l.find("FUNCTION") == 0) continue; char n[80]; double v; if (sscanf(l.c_str(), "%79s %lf", n, &v) == 2) p.push_back(v); } return p; }
static Res go(int k, long n, bool twice) {
  prepare(); std::set<string> before; for (auto& f : ls(".")) before.insert(f); const Sc& s = scenarios()[k]; spit("cfg", BODY);
#ifdef MULTI
  spit("info", "IMAGE_START\nDATA img.fits\nPSF psf.fits\nIMAGE_START\nDATA img.fits\nPSF psf.fits\nPIXEL_SCALE 1 fixed\nIMAGE_PA 0 fixed\nFLUX_SCALE 1 fixed\nX0 4.2 fixed\nY0 3.7 fixed\n"); before.insert("info");
  vector<string> a = {"multimfit", "-c", "cfg", "-i", "info", "--max-threads", "1", "--save-params-root", "out/p", "--save-model", "out/m"};
#else
  vector<string> a = {"imfit", "img.fits", "-c", "cfg", "--psf", "psf.fits", "--max-threads", "1", "--save-params", "out/a.dat", "--save-model", "out/m.fits", "--save-residual", "out/r.fits", "--save-weights", "out/w.fits"};
#endif
  before.insert("cfg"); a.insert(a.end(), s.a.begin(), s.a.end()); if (s.boot) { a.push_back("--save-bootstrap"); a.push_back("out/b.dat"); } vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr); Res r; signal(SIGINT, SIG_DFL); stopSignal_flag = 0; calls = 0; sigAt = n; second = twice; fitStart.clear();
  { Capture c1, c2(2); jmp_buf jb; mc::exitJump() = &jb; if (setjmp(jb)) r.st = mc::exitStatus(); else { r.st = ENTRY((int)a.size(), v.data()); mc::exitJump() = nullptr; } r.err = c2.done(); r.out = c1.done(); } signal(SIGINT, SIG_DFL); stopSignal_flag = 0; r.calls = calls; r.fits = fitStart; if (chdir(D().c_str())) abort(); mc::count("transitions");
  for (auto& f : ls("out")) r.files.insert("out/" + f); for (auto& f : ls(".")) if (!before.count(f) && f != "out") r.files.insert(f);
#ifdef MULTI
  r.pfile = "out/p_refimage.dat";
#else
  r.pfile = "out/a.dat"; if (!r.files.count(r.pfile)) for (auto& f : r.files) if (f.find("out/") != 0) r.pfile = f;
#endif
  if (r.files.count(r.pfile)) { r.p = values(r.pfile); r.ptext = slurp(r.pfile); } if (s.boot && r.files.count("out/b.dat")) for (auto& l : lines(slurp("out/b.dat"))) if (!l.empty() && l[0] != '#') r.rows.push_back(l); for (auto& f : r.files) if (f.find("out/") != 0) remove(f.c_str()); return r;
}
static const Res& baseline(int k) { static std::map<int, Res> m; if (!m.count(k)) { mc::note("%s, undisturbed", scenarios()[k].name); m[k] = go(k, 0, false); } return m[k]; }
static double statOf(int k, const V& p) { O o; o.psf = 1; o.mode = scenarios()[k].mode; Stat s = statistic(o, refModel(o, p)); int copies = 1;
#ifdef MULTI
  copies = 2;     // the second image is the same as the first; its centre stays where it was, so this only holds for the initial X0
#endif
  return copies * s.stat; }
static void judge(int k, long n, bool twice) {
  const Res& b = baseline(k); const Sc& s = scenarios()[k]; mc::note("%s, SIGINT at transform %ld of %ld%s", s.name, n, b.calls, twice ? ", and again" : ""); Res r = go(k, n, twice); mc::note("status %d\n%s", r.st, r.out.c_str());
  MC_CHECK(r.st == 0, "status", "%s: interrupted, ends with status %d\n%s", s.name, r.st, r.err.c_str());
  MC_CHECK(r.p.size() == P0.size(), "no-parameters", "%s: interrupted, and %zu parameters have been saved (%s)", s.name, r.p.size(), r.pfile.c_str());
  for (size_t i = 0; i < P0.size(); i++) { int f = -1; for (int q = 0; q < 4; q++) if (FREE[q] == (int)i) f = q; if (f < 0) MC_CHECK(fabs(r.p[i] - P0[i]) <= 1e-9, "fixed", "%s: interrupted, fixed parameter %s = %.9g", s.name, PNAME[i], r.p[i]); else MC_CHECK(std::isfinite(r.p[i]) && r.p[i] >= LO[f] - 1e-4 && r.p[i] <= HI[f] + 1e-4, "limits", "%s: interrupted, %s = %.9g is outside its limits", s.name, PNAME[i], r.p[i]); }
#ifndef MULTI
  bool inFit = r.pfile != "out/a.dat"; int np = 0; for (auto& f : r.files) np += f.find(".dat") != string::npos && f != "out/b.dat"; MC_CHECK(np == 1, "files", "%s: interrupted, %d parameter files", s.name, np);
  if (inFit) { for (auto& f : r.files) MC_CHECK(f == r.pfile, "files", "%s: the fit was interrupted, but %s has been written", s.name, f.c_str()); }
  else { MC_CHECK(r.p == b.p && r.files == b.files, "unfinished", "%s: interrupted, and saved as best fit, but it is not the best fit", s.name); for (const char* f : {"out/m.fits", "out/r.fits", "out/w.fits"}) MC_CHECK(r.files.count(f), "files", "%s: interrupted after the fit, %s is missing", s.name, f); }
  double S = statOf(k, r.p), S0 = statOf(k, P0); if (!s.de) MC_CHECK(S <= S0 + 1e-6 * fabs(S0) + 1e-6, "worse", "%s: interrupted, and the saved parameters are worse than the initial ones: %.9g > %.9g", s.name, S, S0);
  const char* key = s.mode == CASH ? "CASH STATISTIC = " : s.mode == MLR ? "POISSON-MLR STATISTIC = " : "CHI-SQUARE = "; if (r.out.find(key) != string::npos) same(after(r.out, key), S, 2e-4 * (1 + fabs(S)), "statistic", string(s.name) + ": the statistic printed after the interrupt"); string saved = r.ptext; if (saved.find("Best-fit value: ") != string::npos) same(after(saved, "Best-fit value: "), S, 2e-4 * (1 + fabs(S)), "statistic", string(s.name) + ": the statistic saved after the interrupt");
  MC_CHECK(n > 0 || !inFit, "phantom", "%s: nothing interrupted the fit", s.name);
#else
  bool inFit = s.boot && !r.files.count("out/b.dat"); for (auto& f : b.files) if (f != "out/b.dat") MC_CHECK(r.files.count(f), "files", "%s: interrupted, %s is missing", s.name, f.c_str());
#endif
  if (s.boot) { MC_CHECK(!inFit || r.rows.empty(), "bootstrap", "%s: bootstrap resampling of an interrupted fit", s.name); if (!inFit) {
    MC_CHECK(r.rows.size() <= b.rows.size(), "bootstrap", "%s: %zu rows", s.name, r.rows.size()); for (size_t i = 0; i < r.rows.size(); i++) MC_CHECK(r.rows[i] == b.rows[i], "bootstrap-row", "%s: interrupted during bootstrap resampling, row %zu of %zu is not a completed fit:\n  %s\nundisturbed:\n  %s", s.name, i + 1, r.rows.size(), r.rows[i].c_str(), b.rows[i].c_str());
    size_t full = b.rows.size(); if (b.fits.size() == full + 1) { size_t done = 0; for (size_t i = 1; i <= full; i++) { long end = i < full ? b.fits[i + 1] : b.calls + 1; if (end < n) done = i; } MC_CHECK(r.rows.size() >= done, "bootstrap-lost", "%s: %zu bootstrap fits were complete, %zu have been saved", s.name, done, r.rows.size()); }
    char t[60]; snprintf(t, sizeof t, "(%zu successful iterations)", r.rows.size()); char u[60]; snprintf(u, sizeof u, "bootstrap iterations (%zu)", r.rows.size()); MC_CHECK(r.out.find(r.rows.size() >= 3 ? t : u) != string::npos, "bootstrap-count", "%s: %zu bootstrap fits have been saved, but the report says otherwise:\n%s", s.name, r.rows.size(), r.out.c_str()); } }
  mc::state((mc::Hash()(k)(n)(twice)).h);
}

#ifdef MULTI
MC_PART(ctrlcmulti)
#else
MC_PART(ctrlc)
#endif
{
  int k = mc::choose((int)scenarios().size()); const Res& b = baseline(k); bool twice = mc::flip(); MC_CHECK(b.st == 0 && b.calls > 20 && (!scenarios()[k].boot || b.rows.size() >= 3), "baseline", "%s: status %d, %ld transforms, %zu rows\n%s%s", scenarios()[k].name, b.st, b.calls, b.rows.size(), b.out.c_str(), b.err.c_str());
  std::set<long> N; long dense = mc::tier(64, 1200), step = std::max(1L, b.calls / mc::tier(80, 2000)); for (long x = 1; x <= b.calls; x++) if (x <= dense || (x - dense) % step == 0 || x > b.calls - 16) N.insert(x); for (long f : b.fits) for (long d = -4; d <= 8; d++) if (f + d >= 1 && f + d <= b.calls) N.insert(f + d); vector<long> v(N.begin(), N.end()); long n = mc::pick(v); mc::shard(); if (twice && n % 5) mc::prune(); judge(k, n, twice);
}
