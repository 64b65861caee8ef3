// P05/P06: fit statistics, deviates, weights and masks of ModelObject against their definitions.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include "refmodel.h"
#include "setup_model_object.h"
#include "options_base.h"
#include "options_imfit.h"
#include "mersenne_twister.h"
#ifdef P05
#define PID 5
#else
#define PID 6
#endif

struct TabFun : FunctionObject {      // a component whose pixel values are a table
  vector<double> t; int c, r; double f = 1;
  TabFun(const vector<double>& v, int c_, int r_) : t(v), c(c_), r(r_) { nParams = 1; doSubsampling = false; functionName = shortFunctionName = "Tab"; parameterLabels = {"f"}; parameterUnits = {""}; }
  void Setup(double p[], int o, double, double) { f = p[o]; }
  double GetValue(double x, double y) { int i = (int)lround(x) - 1, j = (int)lround(y) - 1; return i < 0 || j < 0 || i >= c || j >= r ? 0 : f * t[(size_t)j * c + i]; }
};
enum { DATA, MODEL, SIGMA, VARIANCE, WEIGHT, CASH, PMLR, NMODES };
static const char* MN[] = {"data errors", "model errors", "sigmas", "variances", "weights", "Cash", "PMLR"};
struct Det { double gain, rn, t; int nc; double sky; };
static const vector<Det>& dets() { static vector<Det> d = {{1, 0, 1, 1, 0}, {2.5, 3, 1, 1, 10}, {0.5, 0, 20, 3, 4}, {4.5, 7, 2, 5, 0}, {1, 5, 1, 2, 100}, {1e-3, 0.1, 1, 1, 0.5}, {3, 2, 0.25, 1, 1e4}}; return d; }
struct Case { int c, r, mode; Det det; vector<double> data, err, mask, model; int fmt = -1; Psf psf; bool viaSetup = false; };
struct Ref { vector<int> valid; vector<double> term, w2; double stat = 0; bool unspecified = false, negTerm = false, badWeights = false; long nvalid = 0; };

static double modelAt(const Case& k, int i) {
  if (!k.psf.c) return k.model[i];
  vector<double> u = k.psf.used(); double s = 0; int x = i % k.c, y = i / k.c;
  for (int b = 0; b < k.psf.r; b++) for (int a = 0; a < k.psf.c; a++) { int X = x - (a - k.psf.c / 2), Y = y - (b - k.psf.r / 2); if (X >= 0 && Y >= 0 && X < k.c && Y < k.r) s += u[b * k.psf.c + a] * k.model[(size_t)Y * k.c + X]; }
  return s;
}
static Ref reference(const Case& k) {
  Ref R; int n = k.c * k.r; double eg = k.det.gain * k.det.t * k.det.nc;
  for (int i = 0; i < n; i++) {
    bool ok = true; if (k.fmt >= 0) { double m = k.mask[i]; ok = std::isfinite(m) && (k.fmt == MASK_ZERO_IS_GOOD ? m == 0 : m >= 1); }
    if (!std::isfinite(k.data[i])) ok = false;
    double w2 = 0;
    if (ok) {
      double rn2 = k.det.nc * k.det.rn * k.det.rn / (eg * eg);
      if (k.mode == DATA) { double fl = k.data[i] + k.det.sky; if (fl < 0) fl = 0; double v = fl / eg + rn2; if (v <= 0) R.badWeights = true; w2 = 1 / v; }
      if (k.mode == MODEL) { double v = (modelAt(k, i) + k.det.sky) / eg + rn2; if (!(v > 1e-9 * rn2 + 1e-12)) R.unspecified = true; w2 = 1 / v; }
      if (k.mode == SIGMA) { double e = k.err[i]; if (e < 0) R.badWeights = true; w2 = 1 / (e * e); if (!std::isfinite(1 / e)) ok = false; }
      if (k.mode == VARIANCE) { double e = k.err[i]; w2 = 1 / e; if (!std::isfinite(1 / sqrt(e))) ok = false; }
      if (k.mode == WEIGHT) { double e = k.err[i]; w2 = e; if (!std::isfinite(sqrt(e))) ok = false; }
      if (k.mode >= CASH) w2 = 1;
    }
    R.valid.push_back(ok); R.nvalid += ok; double t = 0;
    if (ok) {
      double m = modelAt(k, i), d = k.data[i];
      if (k.mode < CASH) t = w2 * (d - m) * (d - m);
      else { double M = eg * (m + k.det.sky), D = eg * (d + k.det.sky), lm = M <= 0 ? 1e-25 /* documented replacement of log(m) */ : log(M), ex = k.mode == PMLR && D > 0 ? D * log(D) - D : 0; t = 2 * (M - D * lm + ex);
        if (k.mode == PMLR && D < 0) R.unspecified = true; if (k.mode == PMLR && M <= 0) R.negTerm = true; }       // PMLR of negative data is undefined
    }
    R.term.push_back(t); R.w2.push_back(ok ? w2 : 0); R.stat += t;
  }
  return R;
}
struct Obj { std::unique_ptr<ModelObject> m; vector<double> data, err, mask, psf; int status = 0; };
static bool setup(Obj& o, const Case& k) {
  o.data = k.data; o.err = k.err; o.mask = k.mask; o.psf = k.psf.v; int n = k.c * k.r;
  if (k.viaSetup) {
    auto op = std::make_shared<ImfitOptions>(); op->gain = k.det.gain; op->readNoise = k.det.rn; op->expTime = k.det.t; op->nCombined = k.det.nc; op->originalSky = k.det.sky; op->maxThreadsSet = true; op->maxThreads = 1;
    op->noiseImagePresent = k.mode >= SIGMA && k.mode <= WEIGHT; op->errorType = k.mode == SIGMA ? WEIGHTS_ARE_SIGMAS : k.mode == VARIANCE ? WEIGHTS_ARE_VARIANCES : WEIGHTS_ARE_WEIGHTS;
    op->useModelForErrors = k.mode == MODEL; op->useCashStatistic = k.mode == CASH; op->usePoissonMLR = k.mode == PMLR; op->solver = NMSIMPLEX_SOLVER;
    op->maskImagePresent = k.fmt >= 0; if (k.fmt >= 0) op->maskFormat = k.fmt; op->psfImagePresent = k.psf.c > 0; op->normalizePSF = k.psf.norm;
    vector<int> cr = {k.c, k.r}; if (k.psf.c) { cr.push_back(k.psf.c); cr.push_back(k.psf.r); }
    o.m.reset(SetupModelObject(op, cr, o.data.data(), k.psf.c ? o.psf.data() : nullptr, k.fmt >= 0 ? o.mask.data() : nullptr, op->noiseImagePresent ? o.err.data() : nullptr, {}));
    o.m->SetVerboseLevel(-1);
  } else {
    o.m.reset(new ModelObject()); o.m->SetVerboseLevel(-1); o.m->SetMaxThreads(1);
    if (k.psf.c) o.m->AddPSFVector(k.psf.c * k.psf.r, k.psf.c, k.psf.r, o.psf.data(), k.psf.norm);
    o.m->AddImageDataVector(o.data.data(), k.c, k.r);
    o.m->AddImageCharacteristics(k.det.gain, k.det.rn, k.det.t, k.det.nc, k.det.sky);
    if (k.fmt >= 0) o.m->AddMaskVector(n, k.c, k.r, o.mask.data(), k.fmt);
    if (k.mode == MODEL) o.m->UseModelErrors();
    if (k.mode >= SIGMA && k.mode <= WEIGHT) o.m->AddErrorVector(n, k.c, k.r, o.err.data(), k.mode == SIGMA ? WEIGHTS_ARE_SIGMAS : k.mode == VARIANCE ? WEIGHTS_ARE_VARIANCES : WEIGHTS_ARE_WEIGHTS);
    if (k.mode == CASH) o.m->UseCashStatistic();
    if (k.mode == PMLR) o.m->UsePoissonMLR();
  }
  o.m->AddFunction(new TabFun(k.model, k.c, k.r)); vector<int> st = {0}; o.m->DefineFunctionSets(st); o.m->PopulateParameterNames(); o.m->FinalModelSetup();
  o.status = o.m->FinalSetupForFitting();
  return o.status == 0;
}
static string show(const vector<double>& v) { string s; char b[40]; for (double x : v) { snprintf(b, sizeof b, "%s%.6g", s.empty() ? "" : " ", x); s += b; } return s; }
static void judge(const Case& k) {
  if (mc::verbose()) mc::note("%s image %dx%d data [%s] model [%s] errors [%s] mask fmt %d [%s] PSF %dx%d gain %g rn %g t %g N %d sky %g%s", MN[k.mode], k.c, k.r, show(k.data).c_str(), show(k.model).c_str(), k.mode >= SIGMA && k.mode <= WEIGHT ? show(k.err).c_str() : "", k.fmt, show(k.mask).c_str(), k.psf.c, k.psf.r, k.det.gain, k.det.rn, k.det.t, k.det.nc, k.det.sky, k.viaSetup ? " (SetupModelObject)" : "");
  Ref R = reference(k); Obj o; bool ok = setup(o, k); int n = k.c * k.r; string mn = MN[k.mode]; for (char& ch : mn) if (ch == ' ') ch = '-';
  if (R.nvalid == 0 || R.badWeights) { if (R.nvalid == 0 && !R.badWeights) MC_CHECK(!ok, "no-valid-pixels-accepted", "no valid pixel, but FinalSetupForFitting succeeded"); if (R.badWeights) MC_CHECK(!ok, "bad-weights-accepted", "infinite or negative weights accepted"); return; }
  MC_CHECK(ok, "refused", "valid set-up refused with status %d", o.status);
  MC_CHECK(o.m->GetNValidPixels() == R.nvalid, "nvalid", "GetNValidPixels is %ld instead of %ld", o.m->GetNValidPixels(), R.nvalid);
  MC_CHECK(o.m->GetNDataValues() == n, "ndata", "GetNDataValues is %ld", o.m->GetNDataValues());
  if (R.unspecified) return;
  double p[3] = {1, 1, 1}, sc = 0; for (double t : R.term) sc += fabs(t); double tol = 1e-9 * sc + 1e-12;
  if (k.mode >= CASH) { double mxx = 0; for (int i = 0; i < n; i++) if (R.valid[i]) { double eg = k.det.gain * k.det.t * k.det.nc, D = eg * (k.data[i] + k.det.sky), M = eg * (modelAt(k, i) + k.det.sky); mxx += fabs(D * (D > 0 ? log(D) : 1)) + fabs(M) + fabs(D) * (M > 0 ? fabs(log(M)) : 60); } tol = 1e-9 * mxx + 1e-12; }
  double f1 = o.m->GetFitStatistic(p); mc::count("transitions");
  MC_CHECK(fabs(f1 - R.stat) <= tol, "statistic:" + mn, "statistic is %.12g instead of %.12g", f1, R.stat);
  int ft = o.m->WhichFitStatistic(false), fv = o.m->WhichFitStatistic(true);
  int wt = k.mode == CASH ? FITSTAT_CASH : k.mode == PMLR ? FITSTAT_POISSON_MLR : FITSTAT_CHISQUARE, wv = k.mode >= CASH ? wt : k.mode == MODEL ? FITSTAT_CHISQUARE_MODEL : k.mode == DATA ? FITSTAT_CHISQUARE_DATA : FITSTAT_CHISQUARE_USER;
  MC_CHECK(ft == wt && fv == wv, "which", "WhichFitStatistic is %d/%d instead of %d/%d", ft, fv, wt, wv);
  if (k.mode != CASH) {
    vector<double> y(n, -777.0); o.m->ComputeDeviates(y.data(), p); double s = 0;
    for (int i = 0; i < n; i++) { s += y[i] * y[i]; MC_CHECK(fabs(y[i] * y[i] - fabs(R.term[i])) <= tol, "deviate:" + mn, "deviate of pixel %d is %.12g, its square should be %.12g", i, y[i], R.term[i]); }
    if (!R.negTerm) MC_CHECK(fabs(s - R.stat) <= 2 * tol, "deviates:" + mn, "sum of squared deviates is %.12g, statistic %.12g", s, R.stat);
  }
  double* w = o.m->GetWeightImageVector(); MC_CHECK(w, "weights:null", "no weight image");
  for (int i = 0; i < n; i++) MC_CHECK(mc::close(w[i], R.w2[i], 1e-9, 0), "weights:" + mn, "weight-image pixel %d is %.12g instead of %.12g", i, w[i], R.w2[i]);
  double f2 = o.m->GetFitStatistic(p); MC_CHECK(f1 == f2, "repeat:" + mn, "second evaluation gives %.17g, first %.17g", f2, f1);
  double* res = o.m->GetResidualImageVector();
  for (int i = 0; i < n; i++) if (R.valid[i]) { double m = modelAt(k, i); MC_CHECK(mc::close(res[i], k.data[i] - m, 1e-9, 1e-9 * (fabs(m) + fabs(k.data[i])) + 1e-9), "residual", "residual %d is %g instead of %g", i, res[i], k.data[i] - m); }
  mc::count("transitions", 4);
}
static Psf psfFor(int k) { return k == 0 ? Psf() : k == 1 ? Psf(3, 2, 0) : Psf(2, 3, 0, false); }

#if PID == 6
// every pair of pixel values (data, model, error) x statistic x detector parameters, one or two pixels
MC_PART(values) {
  static const double D[] = {0, 1, 2.5, -1, 100, 1e6, 1e-6, -30}, M[] = {1, 0, 2.5, 100, 1e-9, 1e6, 0.3, -0.5}, E[] = {1, 0.5, 4, 1e-4, 1e3};
  int mode = mc::choose(NMODES), di = mc::choose((int)dets().size()); mc::shard(); int n = 1 + mc::choose(2); bool ext = mode >= SIGMA && mode <= WEIGHT;
  Case k; k.c = n; k.r = 1; k.mode = mode; k.det = dets()[di];
  for (int i = 0; i < n; i++) { int nd = i && !mc::thorough() ? 3 : 8; k.data.push_back(D[mc::choose(nd)]); k.model.push_back(M[mc::choose(nd)]); if (ext) k.err.push_back(E[mc::choose(mc::tier(i ? 2 : 4, i ? 3 : 5))]); }
  if (mc::flip()) { std::swap(k.c, k.r); }
  judge(k);
  mc::state((mc::Hash()(mode)(di)(k.data)(k.model)(k.err)).h);
}
// small images: shapes x PSF x statistic x detector parameters x mask, both ways of setting up
MC_PART(images) {
  static const int sh[4][2] = {{3, 2}, {1, 5}, {4, 1}, {2, 4}}; int q = mc::choose(4), mode = mc::choose(NMODES), pk = mc::choose(3); mc::shard(); int di = mc::choose((int)dets().size());
  Case k; k.c = sh[q][0]; k.r = sh[q][1]; k.mode = mode; k.det = dets()[di]; k.psf = psfFor(pk); k.viaSetup = mc::flip(); int n = k.c * k.r, mk = mc::choose(4), cont = mc::choose(mc::tier(3, 4));
  for (int i = 0; i < n; i++) { k.data.push_back(cont == 0 ? 5 + 3 * i : cont == 1 ? 100.0 / (1 + i) : cont == 2 ? (i * 7) % 5 + 0.5 : 1e5 + 17 * i); k.model.push_back(cont == 0 ? 4 + 2.5 * i : cont == 1 ? 90.0 / (1.5 + i) : cont == 2 ? (i * 3) % 4 + 0.75 : 1e5 - 11 * i); k.err.push_back(0.5 + 0.25 * i); }
  if (mk) { k.fmt = mk == 1 ? MASK_ZERO_IS_GOOD : MASK_ZERO_IS_BAD; for (int i = 0; i < n; i++) { bool good = mk == 3 ? i != 0 : i % 3 != 1; k.mask.push_back(good == (mk == 1) ? 0 : 1 + i); } }
  judge(k);
  mc::state((mc::Hash()(q)(mode)(pk)(di)(mk)(cont)((int)k.viaSetup)(2)).h);
}
#else
// every assignment of pixel states to a small image
MC_PART(pixels) {
  static const int sh[3][2] = {{2, 2}, {3, 1}, {1, 4}}; int q = mc::choose(3), mode = mc::choose(NMODES); mc::shard(); int fmt = mc::choose(3) - 1; int pk = mc::choose(2); bool ext = mode >= SIGMA && mode <= WEIGHT;
  Case k; k.c = sh[q][0]; k.r = sh[q][1]; k.mode = mode; k.det = mode == PMLR || mode == CASH ? Det{2.5, 3, 1, 2, 10} : Det{2.5, 3, 2, 1, 10}; k.psf = psfFor(pk); int n = k.c * k.r;
  int f = fmt < 0 ? -1 : fmt == 0 ? MASK_ZERO_IS_GOOD : MASK_ZERO_IS_BAD; k.fmt = f;
  double good = f == MASK_ZERO_IS_BAD ? 1 : 0, bad = f == MASK_ZERO_IS_BAD ? 0 : 1;
  if (q == 2 && !mc::thorough() && (pk || fmt == 1)) mc::prune();
  for (int i = 0; i < n; i++) {
    // 0 ordinary, 1 NaN data, 2 +inf data, 3 -inf data; then, with a mask: 4 masked ordinary, 5 masked huge, 6 masked NaN, 7 masked inf, 8 mask NaN, 9 mask inf; with errors: 10 error NaN, 11 error 0, 12 masked, error NaN, 13 masked, error 0 or negative
    vector<int> al = {0, 1, 2}; if (mc::thorough()) al.push_back(3); if (f >= 0) for (int s : {4, 5, 6, 7, 8}) al.push_back(s); if (f >= 0 && mc::thorough()) al.push_back(9); if (ext) { al.push_back(10); al.push_back(11); } if (ext && f >= 0) { al.push_back(12); al.push_back(13); }
    int s = mc::pick(al); double d = 7 + 4 * i, e = 0.75 + 0.5 * i, m = good;
    switch (s) { case 1: d = NAN; break; case 2: d = INFINITY; break; case 3: d = -INFINITY; break; case 4: m = bad; break; case 5: m = bad; d = i % 2 ? -1e300 : 1e300; break; case 6: m = bad; d = NAN; break; case 7: m = bad; d = i % 2 ? INFINITY : -INFINITY; break;
      case 8: m = NAN; break; case 9: m = INFINITY; break; case 10: e = NAN; break; case 11: e = mode == WEIGHT ? -1.0 : 0; break; case 12: m = bad; e = NAN; break; case 13: m = bad; e = i % 2 ? 0 : -3; break; }
    k.data.push_back(d); k.err.push_back(e); if (f >= 0) k.mask.push_back(m); k.model.push_back(6.5 + 3.2 * i);
  }
  k.viaSetup = q == 1;
  judge(k);
  mc::state((mc::Hash()(q)(mode)(fmt)(pk)(k.data)(k.err)(k.mask)).h);
}
// changing what is under the mask changes nothing, bit for bit
MC_PART(influence) {
  int mode = mc::choose(NMODES), where = mc::choose(4); mc::shard(); int pk = mc::choose(3), second = mc::choose(5); bool boot = mc::flip();
  static const double DV[] = {0, -5, 1e300, -1e300, NAN, INFINITY, -INFINITY, 3e-310}, EV[] = {1, 0, -2, NAN, INFINITY, 1e-300};
  static const double MV[] = {1, 1e30, -1e30, 0};
  Case a; a.c = 2; a.r = 2; a.mode = mode; a.det = {2.5, 3, 2, 1, 10}; a.psf = psfFor(0); a.fmt = MASK_ZERO_IS_GOOD;
  for (int i = 0; i < 4; i++) { a.data.push_back(5 + 2 * i); a.err.push_back(1 + i); a.model.push_back(4 + 3 * i); a.mask.push_back(i == where || (second < 4 && i == second) ? 1 : 0); }
  if (pk) a.psf = psfFor(pk);
  Case b = a; b.data[where] = DV[mc::choose(8)]; b.err[where] = EV[mc::choose(6)]; if (!pk) b.model[where] = MV[mc::choose(4)];     // with a PSF the model value under the mask belongs to its neighbours too
  mc::note("%s pixel %d masked: data %g error %g model %g%s", MN[mode], where, b.data[where], b.err[where], b.model[where], boot ? " bootstrap" : "");
  Obj o1, o2; bool k1 = setup(o1, a), k2 = setup(o2, b); MC_CHECK(k1 && k2, "refused", "valid set-up refused (%d, %d)", o1.status, o2.status);
  double p[3] = {1, 1, 1};

  for (int e = 0; e < 2; e++) {
    if (boot) { init_genrand(7 + e); if (!e) o1.m->UseBootstrap(); else o1.m->MakeBootstrapSample(); init_genrand(7 + e); if (!e) o2.m->UseBootstrap(); else o2.m->MakeBootstrapSample(); }
    double f1 = o1.m->GetFitStatistic(p), f2 = o2.m->GetFitStatistic(p); MC_CHECK(f1 == f2, "influence:statistic", "statistic %.17g becomes %.17g", f1, f2);
    if (mode != CASH) { vector<double> y1(4, 0.0), y2(4, 0.0); o1.m->ComputeDeviates(y1.data(), p); o2.m->ComputeDeviates(y2.data(), p); for (int i = 0; i < 4; i++) MC_CHECK(y1[i] == y2[i], "influence:deviates", "deviate %d: %.17g becomes %.17g", i, y1[i], y2[i]); }
    MC_CHECK(o1.m->GetNValidPixels() == o2.m->GetNValidPixels(), "influence:nvalid", "number of valid pixels changed");
    double *w1 = o1.m->GetWeightImageVector(), *w2 = o2.m->GetWeightImageVector(); for (int i = 0; i < 4; i++) MC_CHECK(w1[i] == w2[i], "influence:weights", "weight %d: %.17g becomes %.17g", i, w1[i], w2[i]);
    mc::count("transitions", 4);
  }
  mc::state((mc::Hash()(mode)(where)(pk)(second)((int)boot)(b.data)(b.err)(b.model)(4)).h);
}
#endif
