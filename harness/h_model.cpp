// P07: a model image is the sum of its components, PSF applied where it belongs.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include "refmodel.h"
#include "add_functions.h"

static Fn mkFn(int kind, int i) {
  switch (kind) { case 0: return {0, {1.5 + i, 0.5 - 0.2 * i}, ""}; case 1: return {1, {4.0 - i, 0.5 * i, 0.25 + 0.3 * i}, ""}; case 2: return {2, {3.0 + 2 * i}, i % 2 ? "" : "lanczos2"}; case 3: return {3, {0.75 + i}, ""}; default: return {4, {2.0 + 0.5 * i}, ""}; }
}
static void runAll(Spec& s, bool singles) {
  std::unique_ptr<Built> b(build(s)); MC_CHECK(b->status == 0, "refused", "valid model refused (%d)", b->status);
  MC_CHECK(b->m->GetNParams() == (int)s.params().size(), "nparams", "model has %d parameters instead of %d", b->m->GetNParams(), (int)s.params().size());
  MC_CHECK(b->m->GetNFunctions() == (int)s.fns.size(), "nfuncs", "model has %d functions instead of %d", b->m->GetNFunctions(), (int)s.fns.size());
  vector<double> p = s.params(), p0 = p; double sc; vector<double> want = refImage(s, -1, &sc);
  b->m->CreateModelImage(p.data()); cmpImage(b->m->GetModelImageVector(), want, s.c, sc, "image", "model image");
  MC_CHECK(p == p0, "params-changed", "the parameter vector was changed");
  if (singles) {
    vector<double> sum(want.size(), 0.0);
    for (size_t n = 0; n < s.fns.size(); n++) { double s1; vector<double> w1 = refImage(s, (int)n, &s1); double* g = b->m->GetSingleFunctionImage(p.data(), (int)n);
      cmpImage(g, w1, s.c, sc, "single", "image of function " + std::to_string(n)); for (size_t i = 0; i < sum.size(); i++) sum[i] += g[i]; mc::count("transitions"); }
    cmpImage(sum.data(), want, s.c, sc * s.fns.size(), "sum", "sum of the single-function images");
    // a second parameter vector on the same object
    Spec t = s; for (auto& f : t.fns) f.p[0] *= 1.5; for (double& v : t.cx) v += 0.75; for (double& v : t.cy) v -= 0.4;
    vector<double> q = t.params(); want = refImage(t, -1, &sc); b->m->CreateModelImage(q.data()); cmpImage(b->m->GetModelImageVector(), want, s.c, sc, "second", "model image for a second parameter vector");
  }
  mc::count("transitions", 2);
}
// all lists of component kinds x all partitions into function sets x image shapes x PSF shapes
MC_PART(lists) {
  int n = 1 + mc::choose(mc::tier(3, 4)); vector<int> ks; bool ps = false; for (int i = 0; i < n; i++) { ks.push_back(mc::choose(5)); ps |= ks.back() == 2; } mc::shard();
  int part = mc::choose(1 << (n - 1)); static const int shp[4][2] = {{4, 3}, {1, 5}, {6, 2}, {2, 7}}; int q = mc::choose(mc::tier(3, 4));
  int pk = mc::choose(ps ? 2 : mc::tier(3, 4));
  if (n == 4 && (q > 1)) mc::prune();
  Spec s; s.c = shp[q][0]; s.r = shp[q][1]; if (ps) s.psf = pk ? Psf(4, 5, 0, false) : Psf(5, 4, 0); else if (pk == 1) s.psf = Psf(3, 2, 0); else if (pk == 2) s.psf = Psf(2, 3, 0, false); else if (pk == 3) s.psf = Psf(6, 5, 1);
  s.start = {0}; s.cx = {1.4}; s.cy = {2.3};
  for (int i = 0; i < n; i++) { s.fns.push_back(mkFn(ks[i], i)); if (i && (part >> (i - 1) & 1)) { s.start.push_back(i); s.cx.push_back(s.c - 0.6 * i); s.cy.push_back(0.3 + 1.1 * i); } }
  mc::note("kinds %d%d%d%d partition %d image %dx%d PSF %dx%d", ks[0], n > 1 ? ks[1] : -1, n > 2 ? ks[2] : -1, n > 3 ? ks[3] : -1, part, s.c, s.r, s.psf.c, s.psf.r);
  runAll(s, n <= 2 || part == 0 || mc::thorough());
  mc::Hash h; for (int k : ks) h(k); mc::state(h(part)(q)(pk).h);
}
// all image shapes x PSF shapes, two components in two sets
MC_PART(shapes) {
  int c = 1 + mc::choose(mc::tier(6, 9)), r = 1 + mc::choose(mc::tier(6, 9)); mc::shard(); int pc = mc::choose(mc::tier(6, 9)), pr = mc::choose(mc::tier(6, 9)); if ((pc == 0) != (pr == 0)) mc::prune();
  bool norm = !mc::flip(); if (!pc && !norm) mc::prune();
  Spec s; s.c = c; s.r = r; if (pc) s.psf = Psf(pc, pr, 0, norm); s.fns = {mkFn(1, 1), mkFn(0, 2)}; s.start = {0, 1}; s.cx = {0.7 * c, 1.2}; s.cy = {0.4 * r + 0.3, r - 0.4};
  if (pc >= 4 && pr >= 4) { s.fns.push_back(mkFn(2, 1)); s.start.push_back(2); s.cx.push_back(0.5 * c + 0.35); s.cy.push_back(0.5 * r + 0.15); }
  mc::note("image %dx%d PSF %dx%d%s", c, r, pc, pr, norm ? "" : " not normalised");
  runAll(s, false);
  mc::state((mc::Hash()(c)(r)(pc)(pr)((int)norm)).h);
}
// lists of more functions than any fixed buffer, many sets
MC_PART(longlists) {
  int n = 1 + mc::choose(mc::tier(24, 80)); mc::shard(); int per = 1 + mc::choose(3); Spec s; s.c = 5; s.r = 3;
  for (int i = 0; i < n; i++) { s.fns.push_back(mkFn(i % 5 == 2 ? 0 : i % 5, i % 7)); if (i % per == 0) { s.start.push_back(i); s.cx.push_back(0.1 * i); s.cy.push_back(3 - 0.05 * i); } }
  mc::note("%d functions, %d per set", n, per);
  runAll(s, false); mc::state((mc::Hash()(n)(per)(9)).h);
}
// the real functions, added by name as the programs do: the image is the sum of the images of the functions alone in their own model
static vector<double> realImage(const vector<string>& names, const vector<int>& start, const vector<double>& p, int c, int r, const Psf& psf) {
  ModelObject mo; mo.SetVerboseLevel(-1); mo.SetMaxThreads(1); vector<double> pp = psf.v; if (psf.c) mo.AddPSFVector(psf.c * psf.r, psf.c, psf.r, pp.data(), psf.norm);
  mo.SetupModelImage(c, r); vector<string> nm = names, lab(names.size(), ""); vector<int> st = start; vector<std::map<string, string>> ex;
  int s = AddFunctions(&mo, nm, lab, st, false, -1, ex); MC_CHECK(s == 0, "add", "AddFunctions returned %d", s);
  vector<double> q = p; MC_CHECK(mo.GetNParams() == (int)q.size(), "nparams", "%d parameters instead of %d", mo.GetNParams(), (int)q.size());
  mo.CreateModelImage(q.data()); double* g = mo.GetModelImageVector(); MC_CHECK(g, "null", "no image"); return vector<double>(g, g + (size_t)c * r);
}
struct RF { const char* n; vector<double> p; };
static const vector<RF>& real() { static vector<RF> v = {{"Sersic", {30, 0.4, 2.5, 10, 3}}, {"Exponential", {75, 0.2, 20, 2.5}}, {"Gaussian", {120, 0.5, 8, 1.7}}, {"FlatSky", {1.5}}, {"PointSource", {40}}, {"GaussianRing", {10, 0.3, 5, 3, 1}}, {"TiltedSkyPlane", {3, 0.1, -0.2}}, {"Moffat", {50, 0.1, 9, 2.2, 3.1}}, {"PointSourceRot", {33, 25}}}; return v; }
MC_PART(realfuncs) {
  int n = 1 + mc::choose(mc::tier(2, 3)), k[3]; vector<string> nm; for (int i = 0; i < n; i++) { k[i] = mc::choose((int)real().size()); nm.push_back(real()[k[i]].n); } mc::shard();
  int part = mc::choose(1 << (n - 1)), pk = mc::choose(2); bool ps = false; for (int i = 0; i < n; i++) ps |= nm[i].rfind("PointSource", 0) == 0; if (ps && !pk) mc::prune();
  int c = 7, r = 5; Psf psf; if (pk) psf = Psf(5, 4, 0); vector<int> st = {0}; vector<double> p; vector<double> sum((size_t)c * r, 0.0); double cx = 0, cy = 0, mx = 0;
  for (int i = 0; i < n; i++) { if (!i || (part >> (i - 1) & 1)) { if (i) st.push_back(i); cx = 3.3 + 1.1 * i; cy = 2.6 - 0.7 * i; p.push_back(cx); p.push_back(cy); }
    vector<double> own = real()[k[i]].p; own[0] += 2 * i; p.insert(p.end(), own.begin(), own.end()); vector<double> q = {cx, cy}; q.insert(q.end(), own.begin(), own.end());
    vector<double> im = realImage({nm[i]}, {0}, q, c, r, psf); for (size_t j = 0; j < im.size(); j++) { sum[j] += im[j]; mx = std::max(mx, fabs(im[j])); } }
  mc::note("%s%s%s partition %d PSF %d", nm[0].c_str(), n > 1 ? (" + " + nm[1]).c_str() : "", n > 2 ? (" + " + nm[2]).c_str() : "", part, pk);
  vector<double> g = realImage(nm, st, p, c, r, psf); cmpImage(g.data(), sum, c, (mx + 1) * n * 10, "real", "model of real functions");
  // against the function itself, evaluated by hand
  if (n == 1 && !ps) { ModelObject mo; mo.SetVerboseLevel(-1); mo.SetMaxThreads(1); mo.SetupModelImage(c, r); vector<string> lab(1, ""); vector<int> s0 = {0}; vector<std::map<string, string>> ex; AddFunctions(&mo, nm, lab, s0, false, -1, ex);
    mo.CreateModelImage(p.data()); double* im = mo.GetModelImageVector(); if (pk) { vector<double> u = psf.used();
      // convolving the larger, PSF-padded unconvolved model by hand must give the convolved model
      int C = c + 2 * psf.c, R = r + 2 * psf.r; ModelObject m2; m2.SetVerboseLevel(-1); m2.SetMaxThreads(1); m2.SetupModelImage(C, R); AddFunctions(&m2, nm, lab, s0, false, -1, ex); vector<double> q = p; q[0] += psf.c; q[1] += psf.r; m2.CreateModelImage(q.data()); double* big = m2.GetModelImageVector();
      vector<double> w((size_t)c * r, 0.0); for (int y = 0; y < r; y++) for (int x = 0; x < c; x++) for (int j = 0; j < psf.r; j++) for (int i = 0; i < psf.c; i++) w[(size_t)y * c + x] += u[j * psf.c + i] * big[(size_t)(y + psf.r - (j - psf.r / 2)) * C + x + psf.c - (i - psf.c / 2)];
      cmpImage(g.data(), w, c, mx * 10 + 1, "real-conv", "convolved model of a real function"); } else cmpImage(im, g, c, mx + 1, "real-repeat", "repeated model"); }
  mc::count("transitions", n + 1);
  mc::Hash h; for (int i = 0; i < n; i++) h(k[i]); mc::state(h(part)(pk)(8).h);
}
// function sets whose geometry is given with 1-based pixel coordinates: an impulse-like component lands on its own pixel, column = x, row = y
MC_PART(orientation) {
  int c = 1 + mc::choose(mc::tier(5, 8)), r = 1 + mc::choose(mc::tier(5, 8)); mc::shard(); int x0 = 1 + mc::choose(c), y0 = 1 + mc::choose(r); bool conv = mc::flip();
  ModelObject mo; mo.SetVerboseLevel(-1); mo.SetMaxThreads(1); vector<double> psf = {0, 0, 0, 0, 1, 0, 0, 0, 0}; if (conv) mo.AddPSFVector(9, 3, 3, psf.data(), true); mo.SetupModelImage(c, r);
  vector<string> nm = {"Gaussian"}, lab = {""}; vector<int> s0 = {0}; vector<std::map<string, string>> ex; AddFunctions(&mo, nm, lab, s0, false, -1, ex); vector<double> p = {(double)x0, (double)y0, 0, 0, 100, 0.1};
  mo.CreateModelImage(p.data()); double* g = mo.GetModelImageVector(); mc::note("%dx%d, component at pixel (%d,%d)", c, r, x0, y0);
  for (int i = 0; i < c * r; i++) { bool at = i == (y0 - 1) * c + x0 - 1; MC_CHECK(at ? g[i] > 1 : fabs(g[i]) < 1e-8, "orientation", "component at (%d,%d): pixel (%d,%d) is %g", x0, y0, i % c + 1, i / c + 1, g[i]); }
  mc::state((mc::Hash()(c)(r)(x0)(y0)((int)conv)(7)).h);
}
