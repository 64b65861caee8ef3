// P27: what the programs compute is what their options say. imfit, imfit-mcmc and makeimage run from main() over every
// combination of the options that shape the computation; the printed statistic, the saved parameters, the saved images and the
// MCMC chains are compared with a model set up by hand and with statistics computed from their definitions.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include "capture.h"
#include "image_io.h"
#include "refmodel.h"
#include "add_functions.h"
#include <dirent.h>
#include <sys/stat.h>
#include <fftw3.h>
extern int imfit_main_entry(int, char**); extern int mcmc_main_entry(int, char**); extern int makeimage_main_entry(int, char**);
typedef vector<double> V; struct Img { int c = 0, r = 0; V v; };
static string num(double x) { char t[40]; snprintf(t, sizeof t, "%.15g", x); return t; }
static void put(const string& fn, const Img& i) { Capture c1, c2(2); vector<string> h; V v = i.v; if (SaveVectorAsImage(v.data(), fn, i.c, i.r, h)) abort(); }
static Img get(const string& fn) { Img i; Capture c1, c2(2); double* p = ReadImageAsVector(fn, &i.c, &i.r); MC_CHECK(p != nullptr, "missing-output", "no (usable) output %s", fn.c_str()); i.v.assign(p, p + (size_t)i.c * i.r); fftw_free(p); return i; }
static float f32(double x) { return (float)x; }
enum { NC = 9, NR = 8 };
static Img make(int c, int r, int kind) { Img m; m.c = c; m.r = r; for (int y = 1; y <= r; y++) for (int x = 1; x <= c; x++) { double p = 0; switch (kind) {
  case 0: p = 100 + 60 * exp(-0.5 * ((x - 4.4) * (x - 4.4) + (y - 3.9) * (y - 3.9)) / 2.0) + 2 * ((x * 5 + y * 3) % 7) - 5; break;
  case 1: p = (x + 3 * y) % 7 == 0 ? 1 + x % 2 : 0; break; case 2: p = (x * 2 + y) % 6 != 0; break;    // mask: nonzero is bad / zero is bad
  case 3: p = 6 + (x * y) % 5 + 0.25 * x; break;
  case 4: p = exp(-0.4 * (x - 3) * (x - 3) - 0.3 * (y - 3) * (y - 3) - 0.05 * (x - 3) * y) + 0.02 * x; break;   // PSF, not symmetric, not normalised
  case 5: p = 0.5 + exp(-0.2 * (x - 2) * (x - 2) - 0.5 * (y - 3) * (y - 3)) + 0.05 * y; break; } m.v.push_back(f32(p)); } return m; }
static Img &DATA() { static Img i = make(NC, NR, 0); return i; } static Img& MASKB() { static Img i = make(NC, NR, 1); return i; } static Img& MASKZ() { static Img i = make(NC, NR, 2); return i; }
static Img &NOISE() { static Img i = make(NC, NR, 3); return i; } static Img& PSF() { static Img i = make(5, 5, 4); return i; } static Img& OP1() { static Img i = make(5, 7, 5); return i; } static Img& OP2() { static Img i = make(3, 5, 4); return i; }
static string D() { return mc::scratch() + "/o"; }
static vector<string> ls(const string& d) { vector<string> v; DIR* p = opendir(d.c_str()); while (dirent* e = readdir(p)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(p); return v; }
static void prepare() {
  static bool done = false; if (!done) { done = true; mkdir(D().c_str(), 0700); if (chdir(D().c_str())) abort(); mkdir("out", 0700);
    put("img.fits", DATA()); put("maskb.fits", MASKB()); put("maskz.fits", MASKZ()); put("noise.fits", NOISE()); put("psf.fits", PSF()); put("op1.fits", OP1()); put("op2.fits", OP2()); Img ref; ref.c = 7; ref.r = 6; ref.v.assign(42, 1.0); put("ref.fits", ref); Img big; big.c = 12; big.r = 11; big.v.assign(132, 0.0); for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) big.v[(size_t)(y + 4) * 12 + x + 5] = PSF().v[y * 5 + x]; put("psfbig.fits", big); }
  if (chdir(D().c_str())) abort(); for (auto& f : ls("out")) remove(("out/" + f).c_str()); for (auto& f : ls(".")) if (f != "out" && (f.size() < 6 || f.substr(f.size() - 5) != ".fits" || f.find("expanded") == 0)) remove(f.c_str());
}
// ---- the options
struct Chr { const char *opt, *key; double cli, cfg, dflt; };
static const Chr CH[5] = {{"gain", "GAIN", 2.5, 4, 1}, {"readnoise", "READNOISE", 3.5, 7, 0}, {"exptime", "EXPTIME", 20, 1.5, 1}, {"ncombined", "NCOMBINED", 3, 2, 1}, {"sky", "ORIGINAL_SKY", 40, 15.5, 0}};
enum { DATAERR, MODELERR, SIGMA, VARIANCE, WEIGHT, CASH, MLR, NMODE };
struct O { bool sec = false; int mask = 0, mode = 0, psf = 0, over = 0; bool sub = true; int chr[5] = {0, 0, 0, 0, 0}; int c = NC, r = NR, x0 = 0, y0 = 0;
  double val(int k) const { return chr[k] & 1 ? CH[k].cli : chr[k] & 2 ? CH[k].cfg : CH[k].dflt; }
  void section() { sec = true; c = 6; r = 5; x0 = 2; y0 = 1; }
  string secText() const { return sec ? "[3:8,2:6]" : ""; } };
static const char* BODY = "X0 4.2 2.5,6\nY0 3.7 fixed\nFUNCTION Gaussian # LABEL one\nPA 30 fixed\nell 0.1 fixed\nI_0 55 5,400\nsigma 1.5 fixed\nFUNCTION FlatSky\nI_sky 96 5,400\nX0 5.6 fixed\nY0 5.1 3,6\nFUNCTION Exponential # LABEL two\nPA 100 fixed\nell 0.3 fixed\nI_0 21 fixed\nh 1.2 fixed\n";
static const V P0 = {4.2, 3.7, 30, 0.1, 55, 1.5, 96, 5.6, 5.1, 100, 0.3, 21, 1.2};
static const char* PNAME[] = {"X0", "Y0", "PA", "ell", "I_0", "sigma", "I_sky", "X0", "Y0", "PA", "ell", "I_0", "h"};
static const int FREE[] = {0, 4, 6, 8}; static double LO[] = {2.5, 5, 5, 3}, HI[] = {6, 400, 400, 6};
static string body(bool tight) { string s = BODY; LO[0] = tight ? 3.9 : 2.5; HI[0] = tight ? 4.25 : 6; LO[3] = tight ? 5.05 : 3; if (tight) { auto R = [&](const string& a, const string& b) { size_t i = s.find(a); if (i == string::npos) abort(); s.replace(i, a.size(), b); }; R("2.5,6", "3.9,4.25"); R("5.1 3,6", "5.1 5.05,6"); } return s; }   // tight: the best fit lies outside the limits
static string header(const O& o) { string s; for (int k = 0; k < 5; k++) if (o.chr[k] & 2) s += string(CH[k].key) + " " + num(CH[k].cfg) + "\n"; return s; }
static void args(const O& o, vector<string>& a, bool image = true) {
  auto A = [&](std::initializer_list<string> l) { a.insert(a.end(), l.begin(), l.end()); };
  if (image) { A({"img.fits" + o.secText(), "-c", "cfg"});
    if (o.mask == 1) A({"--mask", "maskb.fits" + o.secText()}); if (o.mask == 2) A({"--mask-zero-is-bad", "--mask", "maskz.fits" + o.secText()});
    if (o.mode >= SIGMA && o.mode <= WEIGHT) { A({"--noise", "noise.fits" + o.secText()}); if (o.mode == VARIANCE) A({"--errors-are-variances"}); if (o.mode == WEIGHT) A({"--errors-are-weights"}); }
    if (o.mode == MODELERR) A({"--model-errors"}); if (o.mode == CASH) A({"--cashstat"}); if (o.mode == MLR) A({o.sec ? "--poisson-mlr" : "--mlr"});
    for (int k = 0; k < 5; k++) if (o.chr[k] & 1) A({string("--") + CH[k].opt, num(CH[k].cli)}); }
  if (o.psf == 1) A({"--psf", "psf.fits"}); if (o.psf == 2) A({"--psf", "psf.fits", "--no-normalize"}); if (o.psf == 3) A({"--psf", "psfbig.fits[6:10,5:9]"});
  if (o.over == 1) A({"--overpsf", "op1.fits", "--overpsf_scale", "3", "--overpsf_region", "4:6,3:5"});
  if (o.over == 2) A({"--overpsf", "op1.fits", "--overpsf_scale", "2", "--overpsf_region", "4:5,3:5", "--overpsf", "op2.fits", "--overpsf_scale", "3", "--overpsf_region", "7:7,3:4"});
  if (o.over == 3) A({"--overpsf", "op1.fits", "--overpsf_scale", "2", "--overpsf_region", "4:5,3:5", "--overpsf_region", "7:7,3:4"});
  if (!o.sub) A({"--no-subsampling"});
}
// ---- the model by hand: parameters in the coordinates of the full image
static Img refModel(const O& o, const V& par, int only = -1, bool norm2 = true) {
  Built b; b.m.reset(new ModelObject()); b.m->SetVerboseLevel(-1); b.m->SetMaxThreads(1); Img out; out.c = o.c; out.r = o.r; Capture c1, c2(2);
  auto unit = [](V v) { double s = 0; for (double x : v) s += x; for (double& x : v) x /= s; return v; };
  if (o.psf) { b.psf = o.psf == 2 ? PSF().v : unit(PSF().v); b.m->AddPSFVector(25, 5, 5, b.psf.data(), false); }
  b.m->SetupModelImage(o.c, o.r);
  struct R { const Img* p; int s; int x1, x2, y1, y2; }; vector<R> rs; if (o.over == 1) rs = {{&OP1(), 3, 4, 6, 3, 5}}; if (o.over == 2) rs = {{&OP1(), 2, 4, 5, 3, 5}, {&OP2(), 3, 7, 7, 3, 4}}; if (o.over == 3) rs = {{&OP1(), 2, 4, 5, 3, 5}, {&OP1(), 2, 7, 7, 3, 4}};
  b.osamp.reserve(4); for (auto& g : rs) { b.osamp.push_back(unit(g.p->v)); char t[60]; snprintf(t, sizeof t, "%d:%d,%d:%d", g.x1 - o.x0, g.x2 - o.x0, g.y1 - o.y0, g.y2 - o.y0); b.infos.emplace_back(new PsfOversamplingInfo(b.osamp.back().data(), g.p->c, g.p->r, g.s, t, 0, 0, false, false)); b.m->AddOversampledPsfInfo(b.infos.back().get()); }
  static const vector<string> N = {"Gaussian", "FlatSky", "Exponential"}; static const vector<vector<int>> PI = {{2, 3, 4, 5}, {6}, {9, 10, 11, 12}};
  vector<string> fn, lab; vector<int> st; V p; vector<std::map<string, string>> ex; for (int f = 0; f < 3; f++) if (only < 0 || f == only) { if (f == 2 || fn.empty()) { st.push_back((int)fn.size()); p.push_back(par[f == 2 ? 7 : 0] - o.x0); p.push_back(par[f == 2 ? 8 : 1] - o.y0); } fn.push_back(N[f]); lab.push_back(""); ex.push_back({}); for (int i : PI[f]) p.push_back(par[i]); }
  AddFunctions(b.m.get(), fn, lab, st, o.sub, -1, ex); b.m->CreateModelImage(p.data()); double* q = b.m->GetModelImageVector(); out.v.assign(q, q + (size_t)o.c * o.r); return out;
}
static double at(const O& o, const Img& full, int i) { return full.v[(size_t)(i / o.c + o.y0) * full.c + i % o.c + o.x0]; }
struct Stat { double stat = 0; long n = 0; V w; double scale = 0; };
static Stat statistic(const O& o, const Img& m) {
  Stat S; double g = o.val(0) * o.val(2) * o.val(3), rn2 = o.val(3) * o.val(1) * o.val(1) / (g * g), sky = o.val(4);
  for (int i = 0; i < o.c * o.r; i++) {
    bool ok = o.mask == 0 ? true : o.mask == 1 ? at(o, MASKB(), i) == 0 : at(o, MASKZ(), i) == 1; double d = at(o, DATA(), i), y = m.v[i], w = 0, e = at(o, NOISE(), i), t = 0;
    switch (o.mode) { case DATAERR: w = 1 / ((d + sky) / g + rn2); break; case MODELERR: w = 1 / ((y + sky) / g + rn2); break; case SIGMA: w = 1 / (e * e); break; case VARIANCE: w = 1 / e; break; case WEIGHT: w = e; break; default: w = 1; }
    if (o.mode < CASH) t = w * (d - y) * (d - y); else { double M = g * (y + sky), N = g * (d + sky); t = 2 * (M - N * log(M) + (o.mode == MLR ? N * log(N) - N : 0)); }
    S.w.push_back(ok ? w : 0); if (ok) { S.n++; S.stat += t; S.scale += fabs(t); if (o.mode >= CASH) { double N = g * (d + sky); S.scale += 2 * N * log(N); } } }
  return S;
}
static int run(int (*f)(int, char**), vector<string> a, string& out) {
  string line; for (auto& x : a) line += (line.empty() ? "" : " ") + x; mc::note("%s", line.c_str()); if (getenv("MC_STDERR")) fprintf(stderr, "%s\n", line.c_str());
  vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr); int st; stopSignal_flag = 0; string e;
  { Capture c1, c2(2); jmp_buf jb; mc::exitJump() = &jb; if (setjmp(jb)) st = mc::exitStatus(); else { st = f((int)a.size(), v.data()); mc::exitJump() = nullptr; } e = c2.done(); out = c1.done(); }
  if (chdir(D().c_str())) abort(); mc::count("transitions"); MC_CHECK(st == 0, "failed", "%s: exit status %d\n%s%s", line.c_str(), st, out.c_str(), e.c_str()); return st;
}
static double after(const string& t, const string& key) { size_t i = t.find(key); MC_CHECK(i != string::npos, "no-value", "\"%s\" is not in the output:\n%s", key.c_str(), t.c_str()); return atof(t.c_str() + i + key.size()); }
static void same(double got, double want, double tol, const char* key, const string& what) { MC_CHECK(fabs(got - want) <= tol, key, "%s is %.12g instead of %.12g", what.c_str(), got, want); }
static void cmp(const string& fn, const Img& want, double tol, const char* key) { Img g = get(fn); MC_CHECK(g.c == want.c && g.r == want.r, string(key) + ":size", "%s has %dx%d pixels instead of %dx%d", fn.c_str(), g.c, g.r, want.c, want.r); for (size_t i = 0; i < g.v.size(); i++) MC_CHECK(fabs(g.v[i] - want.v[i]) <= tol * (1 + fabs(want.v[i])), key, "%s: pixel (%d,%d) is %.9g instead of %.9g", fn.c_str(), (int)i % g.c + 1, (int)i / g.c + 1, g.v[i], want.v[i]); }
static string modeKey(const O& o) { static const char* n[] = {"data errors", "model errors", "sigmas", "variances", "weights", "Cash", "MLR"}; return n[o.mode]; }

#ifndef OPTIONS_COMMON_ONLY
static void fitstat(const O& o) {
  prepare(); spit("cfg", header(o) + BODY); vector<string> a = {"imfit"}; args(o, a); a.push_back("--fitstat-only"); a.push_back("--max-threads"); a.push_back("1"); string out; run(imfit_main_entry, a, out);
  Img m = refModel(o, P0); Stat S = statistic(o, m); double s = after(out, o.mode == CASH ? "CASH STATISTIC = " : o.mode == MLR ? "POISSON-MLR STATISTIC = " : "CHI-SQUARE = "), tol = 1e-9 * S.scale + 2e-6;
  same(s, S.stat, tol, ("statistic:" + modeKey(o)).c_str(), "the printed statistic"); double k = 4; if (o.mode != CASH) same(after(out, o.mode == MLR ? "Reduced Chi^2 equivalent = " : "Reduced Chi^2 = "), S.stat / (S.n - k), tol, "reduced", "the reduced statistic"); if (o.mode < CASH) { size_t i = out.find("CHI-SQUARE"); same(after(out.substr(i), "("), S.n - k, 0, "dof", "the number of degrees of freedom"); }
  same(after(out, "AIC = "), S.stat + 2 * k + 2 * k * (k + 1) / (S.n - k - 1), tol + 1e-6, "aic", "AIC"); same(after(out, "BIC = "), S.stat + k * log((double)S.n), tol + 1e-6, "bic", "BIC");
}
static void seen(const O& o, int extra = 0) { mc::Hash h; h(o.sec)(o.mask)(o.mode)(o.psf)(o.over)(o.sub)(extra); for (int k : o.chr) h(k); mc::state(h.h); }
// every combination of image, mask, error, statistic and PSF options, with the image characteristics from nowhere, the command line, the file or both
MC_PART(statistic) {
  O o; o.mode = mc::choose(NMODE); o.mask = mc::choose(3); if (mc::flip()) o.section(); mc::shard(); o.psf = mc::choose(4); o.over = mc::choose(4); o.sub = !mc::flip(); int c = mc::choose(4); for (int& k : o.chr) k = c; if (o.psf == 2 && o.over) mc::prune();     // whether --no-normalize concerns oversampled PSFs is not specified
  seen(o); fitstat(o);
}
// every combination of origins of the five image characteristics
MC_PART(characteristics) {
  O o; o.mode = mc::pick(vector<int>{DATAERR, MODELERR, CASH, MLR}); for (int k = 0; k < 5; k++) { o.chr[k] = mc::choose(4); if (k == 1) mc::shard(); } seen(o); fitstat(o);
}
// fits: the saved parameters, the saved images and the reported statistic belong together
MC_PART(fit) {
  static const vector<vector<string>> SOLV = {{}, {"--nm"}, {"--de", "--seed", "7"}, {"--nlopt", "BOBYQA"}}; O o; o.mode = mc::choose(NMODE); o.mask = mc::choose(3); if (mc::flip()) o.section(); int sv = mc::choose(mc::tier(3, 4)); mc::shard(); bool all = mc::thorough() || sv == 0; o.psf = mc::choose(2); o.over = all ? mc::choose(2) : o.psf; int c = mc::thorough() ? mc::choose(4) : all ? mc::pick(vector<int>{0, 3}) : 3; for (int& k : o.chr) k = c; bool boot = all && sv != 2 && mc::flip(); if (o.mode == CASH && sv == 0) mc::prune();
  bool tight = (sv == 0 || mc::thorough()) ? mc::flip() : o.sec; seen(o, sv * 4 + boot * 2 + tight); prepare(); spit("cfg", header(o) + body(tight)); vector<string> a = {"imfit"}; args(o, a); for (auto& x : SOLV[sv]) a.push_back(x); for (string x : {"--max-threads", "1", "--save-params", "out/p.dat", "--save-model", "out/m.fits", "--save-residual", "out/r.fits", "--save-weights", "out/w.fits", "--ftol", "1e-6"}) a.push_back(sv == 2 && x == "1e-6" ? "0.02" : x); if (boot) for (string x : {"--bootstrap", "2", "--save-bootstrap", "out/b.dat"}) a.push_back(x);
  if (boot) for (string x : {"--seed", "3"}) a.push_back(x);
  string out; run(imfit_main_entry, a, out);
  auto row = [&](const V& p, const string& what, double tol) { for (size_t i = 0; i < P0.size(); i++) { int f = -1; for (int q = 0; q < 4; q++) if (FREE[q] == (int)i) f = q; if (f < 0) same(p[i], P0[i], 1e-9, ("fixed:" + what).c_str(), what + ": fixed parameter " + PNAME[i]); else MC_CHECK(p[i] >= LO[f] - tol && p[i] <= HI[f] + tol, "limits:" + what, "%s: %s = %.9g is outside its limits", what.c_str(), PNAME[i], p[i]); } };
  V p; string txt = slurp("out/p.dat"); for (auto& l : lines(txt)) { if (l.empty() || l[0] == '#' || l.find("FUNCTION") == 0) continue; char n[80]; double v; if (sscanf(l.c_str(), "%79s %lf", n, &v) != 2) continue; MC_CHECK(p.size() < P0.size() && string(n) == PNAME[p.size()], "names", "unexpected line in the saved parameters: %s", l.c_str()); p.push_back(v); }
  MC_CHECK(p.size() == P0.size(), "names", "%zu saved parameters\n%s", p.size(), txt.c_str()); row(p, "best fit", 1e-5);
  Img m = refModel(o, p); cmp("out/m.fits", m, 1e-4 /* the saved coordinates have four decimals */, "model-image"); Img g = get("out/m.fits"); Img res = g; for (size_t i = 0; i < g.v.size(); i++) res.v[i] = at(o, DATA(), (int)i) - g.v[i]; Img rr = get("out/r.fits"); for (size_t i = 0; i < res.v.size(); i++) same(rr.v[i], res.v[i], 1e-4, "residual", "pixel " + std::to_string(i) + " of the residual image");
  Stat S = statistic(o, g); Img w; w.c = o.c; w.r = o.r; w.v = S.w; cmp("out/w.fits", w, 1e-4, ("weights:" + modeKey(o)).c_str());
  same(after(txt, "Best-fit value: "), S.stat, 1e-6 * S.scale + 1e-3 * (1 + (o.mode < CASH ? sqrt(S.scale * S.n) : S.n)), ("best-fit-value:" + modeKey(o)).c_str(), "the best-fit value of the parameter file"); same(after(out, o.mode == CASH ? "  CASH STATISTIC = " : o.mode == MLR ? "  POISSON-MLR STATISTIC = " : "  CHI-SQUARE = "), after(txt, "Best-fit value: "), 1e-9 * S.scale + 2e-6, "printed-best-fit", "the printed best-fit value");
  Stat S0 = statistic(o, refModel(o, P0)); MC_CHECK(S.stat <= S0.stat * (1 + 1e-9) + 1e-6 * S0.scale || sv == 2, "worse", "the fit made the statistic worse: %.9g -> %.9g", S0.stat, S.stat);
  if (sv == 0) { MC_CHECK(S.stat < S0.stat - 1e-9 * S0.scale, "no-fit", "the fit found nothing better than the initial values\n%s", out.c_str()); size_t i = out.find("INITIAL "); MC_CHECK(i != string::npos, "initial", "no initial statistic"); same(after(out.substr(i), "= "), S0.stat, 1e-8 * S0.scale + 2e-6, "initial", "the reported initial statistic"); }
  if (boot) { int n = 0; for (auto& l : lines(slurp("out/b.dat"))) { if (l.empty() || l[0] == '#') continue; V q; std::istringstream is(l); double x; while (is >> x) q.push_back(x); MC_CHECK(q.size() == P0.size(), "bootstrap:columns", "%zu columns: %s", q.size(), l.c_str()); row(q, "bootstrap", 1e-5); n++; } MC_CHECK(n <= 2, "bootstrap:rows", "%d rows for two iterations", n); mc::count("bootstrap_rows", n); }
}
// the states of MCMC chains have the likelihoods that the options define
MC_PART(mcmc) {
  O o; o.mode = mc::choose(NMODE); o.mask = mc::choose(3); if (mc::flip()) o.section(); mc::shard(); o.psf = mc::choose(mc::tier(2, 4)); o.over = mc::choose(mc::tier(2, 4)); o.sub = !mc::flip(); int c = mc::choose(4); for (int& k : o.chr) k = c; if (o.psf == 2 && o.over) mc::prune(); seen(o);
  prepare(); spit("cfg", header(o) + body(false)); vector<string> a = {"imfit-mcmc"}; args(o, a); for (string x : {"-o", "out/ch", "--max-chain-length", "3", "--burnin-length", "2", "--nchains", "4", "--seed", "11", "--max-threads", "1"}) a.push_back(x); string out; run(mcmc_main_entry, a, out); int rows = 0;
  { vector<string> want = {"4.2000 2.5,6", "3.7000 fixed", "5.6000 fixed", "5.1000 3,6"}; size_t n = 0; for (auto& l : lines(slurp("out/ch.1.txt"))) { char c[8], v[40], z[40]; if (sscanf(l.c_str(), "#%1[XY]0 %39s %39s", c, v, z) == 3) { string got = string(v) + " " + z; MC_CHECK(n < 4 && got == want[n], "chain-header", "header line '%s'", l.c_str()); n++; } } MC_CHECK(n == 4, "chain-header", "%zu coordinates in the header", n); }
  for (int ch = 1; ch <= 4; ch++) for (auto& l : lines(slurp("out/ch." + std::to_string(ch) + ".txt"))) {
    if (l.empty() || l[0] == '#') continue; std::istringstream is(l); V q; double x; while (q.size() < P0.size() + 1 && is >> x) q.push_back(x); MC_CHECK(q.size() == P0.size() + 1, "columns", "short line %s", l.c_str()); if (rows++ > 8 && rows % 4) continue;
    for (size_t i = 0; i < P0.size(); i++) { int f = -1; for (int k = 0; k < 4; k++) if (FREE[k] == (int)i) f = k; if (f < 0) same(q[i], P0[i], 1e-9, "fixed:chain", string("fixed parameter ") + PNAME[i]); else MC_CHECK(q[i] >= LO[f] - 1e-9 && q[i] <= HI[f] + 1e-9, "limits:chain", "%s = %.9g is outside its limits", PNAME[i], q[i]); }
    Stat S = statistic(o, refModel(o, q)); same(q.back(), -S.stat / 2, 1e-8 * S.scale + 1e-6, ("likelihood:" + modeKey(o)).c_str(), "the likelihood of a state"); mc::count("states_judged"); }
  MC_CHECK(rows > 4, "rows", "%d rows in the chains", rows);
}
// makeimage: the size, the PSF options and the requested images
MC_PART(makeimage) {
  int size = mc::choose(7); O o; o.psf = mc::choose(4); mc::shard(); o.over = mc::choose(4); o.sub = !mc::flip(); bool fn = mc::flip(), ex = mc::flip(), fl = mc::flip(); if (o.psf == 2 && o.over) mc::prune(); seen(o, size * 8 + fn * 4 + ex * 2 + fl); prepare(); vector<string> a = {"makeimage", "cfg"}; string hd; auto A = [&](std::initializer_list<string> l) { a.insert(a.end(), l.begin(), l.end()); };
  switch (size) { case 0: A({"--ncols", "8", "--nrows", "7"}); o.c = 8; o.r = 7; break; case 1: hd = "NCOLS 9\nNROWS 6\n"; o.c = 9; o.r = 6; break; case 2: hd = "NCOLS 9\nNROWS 6\n"; A({"--ncols", "8", "--nrows", "7"}); o.c = 8; o.r = 7; break; case 3: hd = "NROWS 6\n"; A({"--ncols", "8"}); o.c = 8; o.r = 6; break; case 4: A({"--refimage", "img.fits"}); break; case 5: A({"--refimage", "img.fits[2:9,1:6]"}); o.c = 8; o.r = 6; break; case 6: hd = "NCOLS 9\nNROWS 6\n"; A({"--nrows", "7"}); o.c = 9; o.r = 7; break; }
  args(o, a, false); A({"--max-threads", "1"}); if (ex) { A({"--save-expanded"}); A({"-o", "m.fits"}); } else A({"-o", "out/m.fits"}); if (fn) A({"--output-functions", "out/fn_"}); if (fl) A({"--save-fluxes", "out/fl.dat", "--estimation-size", "30"}); string body; for (auto& l : lines(BODY)) { string z = l; size_t i = z.find(" fixed"); if (i != string::npos) z = z.substr(0, i); body += z + "\n"; } spit("cfg", hd + BODY);
  string out; run(makeimage_main_entry, a, out); Img m = refModel(o, P0); cmp(ex ? "m.fits" : "out/m.fits", m, 1e-6, "image");
  if (ex) { Img g = get("expanded_m.fits"); int e = o.psf ? 5 : 0; MC_CHECK(g.c == o.c + 2 * e && g.r == o.r + 2 * e, "expanded:size", "expanded image %dx%d", g.c, g.r); if (!o.over) for (int y = 0; y < o.r; y++) for (int x = 0; x < o.c; x++) same(g.v[(size_t)(y + e) * g.c + x + e], m.v[(size_t)y * o.c + x], 1e-5 * fabs(m.v[y * o.c + x]), "expanded", "pixel of the expanded image"); remove("m.fits"); remove("expanded_m.fits"); }
  if (fn) { const char* n[] = {"Gaussian", "FlatSky", "Exponential"}; for (int f = 0; f < 3; f++) cmp("out/fn_" + std::to_string(f + 1) + "_" + n[f] + ".fits", refModel(o, P0, f), 1e-6, "single-function"); }
  if (fl) MC_CHECK(slurp("out/fl.dat").find("Gaussian") != string::npos, "fluxes", "no fluxes saved");
}
#endif
