// P12: PSF interpolators and the PointSource functions.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include "refmodel.h"
#include "func_pointsource-rot.h"
#include <gsl/gsl_spline2d.h>

static const int SHP[8][2] = {{4, 4}, {5, 4}, {4, 6}, {5, 5}, {7, 4}, {6, 7}, {8, 5}, {9, 9}};
static double lz(double d, int n) { d = fabs(d); if (d < 1e-6) return 1; if (d > n) return 0; return n * sin(M_PI * d) * sin(M_PI * d / n) / (M_PI * M_PI * d * d); }
// documented: interpolation of the PSF image about its centre (n-1)/2, zero outside; kind 0 bicubic, 2/3 Lanczos
static double refVal(int kind, const vector<double>& px, int c, int r, double x, double y) {
  double hx = (c - 1) / 2.0, hy = (r - 1) / 2.0;
  if (x < -hx || x > hx || y < -hy || y > hy) return 0;
  if (kind == 0) {
    vector<double> xa(c), ya(r); for (int i = 0; i < c; i++) xa[i] = i - hx; for (int i = 0; i < r; i++) ya[i] = i - hy;
    gsl_spline2d* s = gsl_spline2d_alloc(gsl_interp2d_bicubic, c, r); gsl_spline2d_init(s, xa.data(), ya.data(), px.data(), c, r);
    double v = gsl_spline2d_eval(s, x, y, nullptr, nullptr); gsl_spline2d_free(s); return v;
  }
  double v = 0; for (int j = 0; j < r; j++) for (int i = 0; i < c; i++) v += px[(size_t)j * c + i] * lz(x - (i - hx), kind) * lz(y - (j - hy), kind);
  return v;
}
static PsfInterpolator* mk(int kind, vector<double>& px, int c, int r) { return makeInterp(kind == 2 ? "lanczos2" : kind == 3 ? "lanczos3" : "bicubic", px, c, r); }
static const int KINDS[3] = {0, 2, 3};

// every PSF shape x interpolator x PSF content (each single pixel, and all pixels distinct) x all positions of a sub-pixel grid reaching outside
MC_PART(interp) {
  int k = mc::choose(mc::tier(6, 8)), c = SHP[k][0], r = SHP[k][1], kind = KINDS[mc::choose(3)]; mc::shard();
  int e = mc::choose(c * r + 1); vector<double> px((size_t)c * r, 0.0);
  if (e == c * r) for (int i = 0; i < c * r; i++) px[i] = 0.1 + i + ((i * 7) % 5) * 0.3; else px[e] = 1;
  mc::note("%dx%d PSF, interpolator %d, content %d", c, r, kind, e);
  std::unique_ptr<PsfInterpolator> ip(mk(kind, px, c, r)); vector<double> cp = px;
  int st = mc::tier(3, 5);
  for (int q = -st * (r / 2 + 1); q <= st * (r / 2 + 1); q++) for (int p = -st * (c / 2 + 1); p <= st * (c / 2 + 1); p++) {
    double x = (double)p / st + (c % 2 ? 0 : 0.5), y = (double)q / st + (r % 2 ? 0 : 0.5);
    double hx = (c - 1) / 2.0, hy = (r - 1) / 2.0;
    if ((fabs(fabs(x) - hx) < 1e-9 && fabs(x) != hx) || (fabs(fabs(y) - hy) < 1e-9 && fabs(y) != hy)) continue;
    double g = ip->GetValue(x, y), w = refVal(kind, px, c, r, x, y);
    MC_CHECK(mc::close(g, w, 1e-8, 1e-9), "value", "%dx%d PSF, interpolator %d, content %d: value at (%g,%g) is %.12g instead of %.12g", c, r, kind, e, x, y, g, w);
    double ix = x + hx, iy = y + hy;      // at PSF pixel centres: the PSF pixel itself
    if (fabs(ix - round(ix)) < 1e-12 && fabs(iy - round(iy)) < 1e-12 && fabs(x) <= hx && fabs(y) <= hy)
      MC_CHECK(mc::close(g, px[(size_t)((int)round(iy)) * c + (int)round(ix)], 1e-6, 1e-6), "node", "%dx%d PSF, interpolator %d, content %d: pixel (%g,%g) not reproduced: %g", c, r, kind, e, ix, iy, g);
    mc::count("transitions");
  }
  MC_CHECK(cp == px, "psf-changed", "the PSF image was changed");
  mc::state((mc::Hash()(k)(kind)(e)(1)).h);
}
static std::string methodName(int m) { static const char* n[] = {"", "bicubic", "lanczos2", "lanczos3", "Bicubic", "Lanczos2", "Lanczos3"}; return n[m]; }
static int methodKind(int m) { return m == 2 || m == 5 ? 2 : m == 3 || m == 6 ? 3 : 0; }

// one PointSource / PointSourceRot in a model image: position, PSF shape, method, normalisation, flux, angle
MC_PART(source) {
  static const double fr[5] = {0, 0.5, 0.25, -0.3, 1.0 / 3};
  bool rot = mc::flip(); int m = mc::choose(7), k = mc::choose(mc::tier(6, 8)); mc::shard(); bool norm = !mc::flip();
  int c = 9, r = 7, pc = SHP[k][0], pr = SHP[k][1]; if (mc::flip()) c = 3, r = 11;
  int px_ = mc::choose(mc::tier(3, 5)), py_ = mc::choose(mc::tier(3, 5)); double x0 = (mc::flip() ? c : 2) + fr[px_], y0 = 3 + fr[py_], PA = 0;
  static const double angs[6] = {0, 30, 90, -200, 361.5, 45}; if (rot) PA = angs[mc::choose(mc::tier(4, 6))];
  Psf psf(pc, pr, mc::choose(2), norm); vector<double> u = psf.used();
  ModelObject mo; mo.SetVerboseLevel(-1); mo.SetMaxThreads(1); vector<double> pp = psf.v;
  MC_CHECK(mo.AddPSFVector(pc * pr, pc, pr, pp.data(), norm) >= 0, "psf", "PSF refused");
  mo.SetupModelImage(c, r);
  FunctionObject* f; if (rot) f = new PointSourceRot(); else f = new PointSource();
  if (m) { std::map<string, string> e; e["method"] = methodName(m); int s = f->SetExtraParams(e); MC_CHECK(s == 1, "method", "method %s refused (%d)", methodName(m).c_str(), s); }
  MC_CHECK(mo.AddFunction(f) == 0, "add", "AddFunction failed");
  vector<int> st = {0}; mo.DefineFunctionSets(st); mo.PopulateParameterNames(); mo.FinalModelSetup();
  mc::note("%s method '%s' PSF %dx%d at (%g,%g) PA %g normalised %d", rot ? "PointSourceRot" : "PointSource", methodName(m).c_str(), pc, pr, x0, y0, PA, norm);
  for (int rep = 0; rep < 2; rep++) {
    double I = rep ? 250.0 : 3.0; vector<double> p = {x0, y0}; if (rot) p.push_back(PA); p.push_back(I);
    vector<double> w((size_t)c * r); double a = (PA + 90) * M_PI / 180, mx = 0;
    vector<char> edge((size_t)c * r, 0);
    for (int y = 1; y <= r; y++) for (int x = 1; x <= c; x++) { double dx = x - x0, dy = y - y0; if (rot) { double X = dx * cos(a) + dy * sin(a), Y = -dx * sin(a) + dy * cos(a); dx = X; dy = Y; }
      size_t i = (size_t)(y - 1) * c + x - 1; w[i] = I * refVal(methodKind(m), u, pc, pr, dx, dy); mx = std::max(mx, fabs(w[i]));
      edge[i] = fabs(fabs(dx) - (pc - 1) / 2.0) < 1e-7 || fabs(fabs(dy) - (pr - 1) / 2.0) < 1e-7; }
    mo.CreateModelImage(p.data()); double* g = mo.GetModelImageVector();
    for (int pass = 0; pass < 2; pass++) {
      for (size_t i = 0; i < w.size(); i++) if (!(rot && edge[i]) && !(edge[i] && (px_ == 4 || py_ == 4 || px_ == 3 || py_ == 3)))
        MC_CHECK(fabs(g[i] - w[i]) <= 1e-8 * (mx + 1e-3), pass ? "single" : "image", "pixel (%d,%d) is %.12g instead of %.12g", (int)(i % c) + 1, (int)(i / c) + 1, g[i], w[i]);
      g = mo.GetSingleFunctionImage(p.data(), 0);
    }
    mc::count("transitions", 2);
  }
  // the PSF's own total: a source at a position where PSF pixel centres fall on image pixels reproduces the PSF image
  mc::state((mc::Hash()(m)(k)((int)norm)(c)(x0)(y0)(PA)(psf.v)).h);
}
// several sources, each with its own interpolation method, flux and position, with an ordinary component between them
MC_PART(mixed) {
  int n = 2 + mc::choose(mc::tier(2, 3)); vector<int> ms; for (int i = 0; i < n; i++) ms.push_back(1 + mc::choose(3)); mc::shard();
  int between = mc::choose(3); bool osamp = mc::flip(); int c = 7, r = 6, pc = 5, pr = 4;
  Psf psf(pc, pr, 0); vector<double> u = psf.used(), pp = psf.v, po = Psf(4, 5, 1).v; ModelObject mo; mo.SetVerboseLevel(-1); mo.SetMaxThreads(1);
  mo.AddPSFVector(pc * pr, pc, pr, pp.data(), true); mo.SetupModelImage(c, r); std::unique_ptr<PsfOversamplingInfo> info;
  if (osamp) { info.reset(new PsfOversamplingInfo(po.data(), 4, 5, 2, "1:1,1:1", 0, 0, false, true)); MC_CHECK(mo.AddOversampledPsfInfo(info.get()) == 0, "region", "region refused"); }
  vector<double> p, w((size_t)c * r, 0.0); vector<int> st; vector<int> kinds; vector<double> X, Y; int nf = 0;
  auto add = [&](int m, double x, double y, double I) {
    FunctionObject* f; if (m) { f = new PointSource(); std::map<string, string> e; e["method"] = methodName(m); f->SetExtraParams(e); } else f = new TFun(1);
    mo.AddFunction(f); st.push_back(nf++); p.push_back(x); p.push_back(y); p.push_back(I); if (!m) { p.push_back(0.5); p.push_back(0.25); }
    for (int yy = 1; yy <= r; yy++) for (int xx = 1; xx <= c; xx++) {
      double v; if (m) v = I * refVal(methodKind(m), u, pc, pr, xx - x, yy - y); else { Fn fn{1, {I, 0.5, 0.25}, ""}; v = convAt(fn, x, y, xx, yy, u, pc, pr, 1); }
      w[(size_t)(yy - 1) * c + xx - 1] += v; } };
  for (int i = 0; i < n; i++) { if (i == between) add(0, 3.3, 2.2, 1.5); add(ms[i], 2.25 + 1.5 * i, 4.4 - 0.7 * i, 5.0 + 3 * i); }
  mo.DefineFunctionSets(st); mo.PopulateParameterNames(); mo.FinalModelSetup();
  mc::note("methods %d %d%s", ms[0], ms[1], osamp ? " with oversampled region" : "");
  for (int rep = 0; rep < 2; rep++) {
    mo.CreateModelImage(p.data()); double* g = mo.GetModelImageVector();
    for (size_t i = osamp ? 1 : 0; i < w.size(); i++) MC_CHECK(mc::close(g[i], w[i], 1e-9, 1e-9), "mixed-methods", "pixel (%d,%d) is %.12g instead of %.12g", (int)(i % c) + 1, (int)(i / c) + 1, g[i], w[i]);
    mc::count("transitions");
  }
  mc::state((mc::Hash()(n)(ms[0])(ms[1])(n > 2 ? ms[2] : 0)(n > 3 ? ms[3] : 0)(between)((int)osamp)(3)).h);
}
// the flux of a point source inside an oversampled region
MC_PART(osamp_flux) {
  int sc = 1 + mc::choose(mc::tier(3, 4)); mc::shard(); int k = mc::choose(4); bool unit = mc::flip(); int c = 11, r = 9; static const int shp[4][2] = {{5, 5}, {7, 5}, {4, 4}, {5, 7}};
  int pc = shp[k][0], pr = shp[k][1]; Psf main(5, 5, 1), os(pc, pr, 2); double sum = 0; for (double v : os.v) sum += v;
  if (unit) { for (double& v : os.v) v /= sum; sum = 1; }
  Spec s; s.c = c; s.r = r; s.psf = main; s.fns = {{2, {6.0}, ""}}; s.start = {0}; s.cx = {6.06}; s.cy = {5.04}; Region g; g.x1 = 1; g.x2 = c; g.y1 = 1; g.y2 = r; g.scale = sc; g.psf = os; s.regs = {g};
  std::unique_ptr<Built> b(build(s)); vector<double> p = s.params(); b->m->CreateModelImage(p.data()); double* im = b->m->GetModelImageVector();
  double t = 0; for (int i = 0; i < c * r; i++) t += im[i];
  double sc0; vector<double> pinned = refImage(s, -1, &sc0); double tp = 0; for (double v : pinned) tp += v;
  mc::note("scale %d, oversampled PSF %dx%d with sum %g: total flux %g for I_tot = 6", sc, pc, pr, sum, t);
  mc::state((mc::Hash()(sc)(k)((int)unit)(4)).h);
  if (fabs(t - 6.0) <= 0.15 * 6.0) return;    // interpolation between pixels is not exactly flux-conserving
  MC_CHECK(fabs(t - tp) <= 1e-9 * fabs(tp), "osamp-flux-other", "total flux %g instead of 6 (scale %d)", t, sc);
  mc::fail("pointsource-osamp-flux", "total flux of a point source inside an oversampled region is %g instead of 6 (scale %d, PSF sum %g)", t, sc, sum);
}
// no PSF, a PSF that is too small, wrong methods: reported, no crash
MC_PART(refused) {
  int pc = mc::choose(6), pr = mc::choose(6); mc::shard(); bool rot = mc::flip(); int m = mc::choose(4);
  ModelObject mo; mo.SetVerboseLevel(-1); mo.SetMaxThreads(1); vector<double> px((size_t)pc * pr, 0.25);
  if (pc && pr) mo.AddPSFVector(pc * pr, pc, pr, px.data(), true);
  mo.SetupModelImage(4, 4); FunctionObject* f; if (rot) f = new PointSourceRot(); else f = new PointSource();
  std::map<string, string> e; if (m == 1) e["method"] = "nearest"; if (m == 2) e["methods"] = "bicubic"; if (m == 3) e["method"] = "lanczos3";
  if (m) { int s = f->SetExtraParams(e); MC_CHECK((s == 1) == (m == 3), "extra", "SetExtraParams returned %d in case %d", s, m); }
  int st = mo.AddFunction(f); bool ok = pc >= 4 && pr >= 4;
  MC_CHECK((st == 0) == ok, "small-psf", "PSF %dx%d: AddFunction returned %d", pc, pr, st);
  mc::state((mc::Hash()(pc)(pr)((int)rot)(m)(5)).h);
}
