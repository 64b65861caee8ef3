// P11: oversampled PSF regions; downsampling.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include "refmodel.h"
#include "downsample.h"

// block averaging for every small geometry; arrays have exactly the stated sizes (ASan guards both ends)
MC_PART(downsample) {
  int cols = 1 + mc::choose(mc::tier(3, 4)), rows = 1 + mc::choose(mc::tier(3, 4)), sc = 1 + mc::choose(mc::tier(3, 4)); mc::shard();
  int opc = mc::choose(3), opr = mc::choose(3), mpc = mc::choose(3), mpr = mc::choose(3), ex = mc::choose(3), ey = mc::choose(3);
  int sx = 1 + mc::choose(ex + 1), sy = 1 + mc::choose(ey + 1);
  int oc = cols * sc + 2 * opc, orr = rows * sc + 2 * opr, mcx = cols + ex + 2 * mpc, mr = rows + ey + 2 * mpr;
  mc::note("region %dx%d scale %d oversampled PSF margin %d,%d main margin %d,%d start %d,%d", cols, rows, sc, opc, opr, mpc, mpr, sx, sy);
  vector<double> o((size_t)oc * orr), m((size_t)mcx * mr);
  for (size_t i = 0; i < o.size(); i++) o[i] = 1.0 + i * i % 97 + 0.01 * i;
  for (size_t i = 0; i < m.size(); i++) m[i] = -1000.0 - i;
  vector<double> w = m;
  for (int y = 0; y < rows; y++) for (int x = 0; x < cols; x++) { double s = 0;
    for (int b = 0; b < sc; b++) for (int a = 0; a < sc; a++) s += o[(size_t)(opr + y * sc + b) * oc + opc + x * sc + a];
    w[(size_t)(mpr + sy - 1 + y) * mcx + mpc + sx - 1 + x] = s / (sc * sc); }
  DownsampleAndReplace(o.data(), oc, orr, opc, opr, m.data(), mcx, mr, mpc, mpr, sx, sy, sc, 0);
  for (size_t i = 0; i < m.size(); i++) MC_CHECK(mc::close(m[i], w[i], 1e-12), "downsample", "main pixel (%d,%d) is %g instead of %g", (int)(i % mcx), (int)(i / mcx), m[i], w[i]);
  mc::state((mc::Hash()(cols)(rows)(sc)(opc)(opr)(mpc)(mpr)(ex)(ey)(sx)(sy)).h);
}

static Spec baseSpec(int c, int r, int fl, bool ps) {
  Spec s; s.c = c; s.r = r;
  if (fl == 0) { s.fns = {{0, {3, 0.5}}}; s.start = {0}; s.cx = {1.3}; s.cy = {2.2}; }
  else { s.fns = {{1, {5, 0.5, 0.25}}, {0, {2, 0.75}}, {3, {0.5}}}; s.start = {0, 1}; s.cx = {1.7, 0.4}; s.cy = {0.6, 2.9}; }
  if (ps) { s.fns.push_back({2, {4.0}, ""}); s.start.push_back(s.fns.size() - 1); s.cx.push_back(c * 0.5 + 0.3); s.cy.push_back(r * 0.5 + 0.8); }
  return s;
}
static void run(Spec& s, const char* key) {
  std::unique_ptr<Built> b(build(s));
  MC_CHECK(b->status == 0, "refused", "valid regions were refused (status %d)", b->status);
  vector<double> p = s.params(); double sc; vector<double> want = refImage(s, -1, &sc);
  for (int rep = 0; rep < 2; rep++) {
    b->m->CreateModelImage(p.data());
    cmpImage(b->m->GetModelImageVector(), want, s.c, sc, rep ? "second" : key, rep ? "second computation" : "model image");
    mc::count("transitions");
  }
  for (size_t n = 0; n < s.fns.size(); n++) {
    vector<double> w1 = refImage(s, n, &sc);
    cmpImage(b->m->GetSingleFunctionImage(p.data(), n), w1, s.c, sc, "single", "single-function image " + std::to_string(n));
    mc::count("transitions");
  }
  b->m->CreateModelImage(p.data());
  cmpImage(b->m->GetModelImageVector(), want, s.c, sc * 2, "after-single", "model image after the single-function images");
}
static void rect(int n, int lo, int hi, int& a, int& b) { int m = hi - lo + 1, k = mc::choose(m * (m + 1) / 2); for (a = lo; a <= hi; a++) { int q = hi - a + 1; if (k < q) { b = a + k; return; } k -= q; } }

// one region: every rectangle (also sticking out of the image) x scale x oversampled PSF shape x main PSF x components
MC_PART(one_region) {
  static const int shp[4][2] = {{4, 3}, {2, 5}, {1, 4}, {3, 1}};
  int q = mc::choose(mc::tier(3, 4)), c = shp[q][0], r = shp[q][1]; Region g; rect(c, 0, c + 1, g.x1, g.x2); mc::shard();
  rect(r, 0, r + 1, g.y1, g.y2);
  if (g.x2 < 1 || g.y2 < 1 || g.x1 > c || g.y1 > r) mc::prune();
  g.scale = 1 + mc::choose(mc::tier(3, 4));
  static const int ps[5][2] = {{4, 5}, {3, 2}, {1, 1}, {6, 4}, {5, 5}}; int k = mc::choose(mc::tier(3, 5)); g.psf = Psf(ps[k][0], ps[k][1], 0, !mc::flip("no normalisation"));
  int mp = mc::choose(3); bool psrc = mp == 2 && ps[k][0] >= 4 && ps[k][1] >= 4 && mc::flip("point source");
  Spec s = baseSpec(c, r, mc::choose(2), psrc); if (mp == 1) s.psf = Psf(3, 2, 0); if (mp == 2) s.psf = Psf(4, 5, 1);
  if (mc::flip("offset")) { g.offx = 7; g.offy = 11; if (g.x1 + g.offx < 1) mc::prune(); }
  else if (g.x1 < 1 || g.y1 < 1) mc::prune();   // a region string cannot hold numbers below 1 without an image offset
  s.regs = {g};
  mc::note("image %dx%d region %d:%d,%d:%d scale %d PSF %dx%d main PSF %d point source %d", c, r, g.x1, g.x2, g.y1, g.y2, g.scale, g.psf.c, g.psf.r, mp, psrc);
  run(s, "region");
  mc::state((mc::Hash()(q)(g.x1)(g.x2)(g.y1)(g.y2)(g.scale)(k)(mp)((int)psrc)((int)s.fns.size())(g.offx)).h);
}
// two regions: all pairs of rectangles of a small image, with different scales and PSFs, disjoint or overlapping (the later one wins)
MC_PART(two_regions) {
  int c = mc::tier(3, 4), r = 2; Region a, b; rect(c, 1, c, a.x1, a.x2); rect(r, 1, r, a.y1, a.y2); mc::shard(); rect(c, 1, c, b.x1, b.x2); rect(r, 1, r, b.y1, b.y2);
  static const int sp[3][2] = {{2, 3}, {3, 1}, {2, 2}}; int k = mc::choose(3); a.scale = sp[k][0]; b.scale = sp[k][1]; a.psf = Psf(4, 5, 0); b.psf = k == 2 ? a.psf : Psf(5, 4, 1);
  bool psrc = mc::flip(); Spec s = baseSpec(c, r, 1, psrc); s.psf = Psf(5, 4, 1); s.regs = {a, b};
  mc::note("regions %d:%d,%d:%d x%d and %d:%d,%d:%d x%d", a.x1, a.x2, a.y1, a.y2, a.scale, b.x1, b.x2, b.y1, b.y2, b.scale);
  run(s, "regions");
  mc::state((mc::Hash()(a.x1)(a.x2)(a.y1)(a.y2)(b.x1)(b.x2)(b.y1)(b.y2)(k)((int)psrc)(55)).h);
}
// all lists of components (several point sources of all kinds among them) with regions
MC_PART(components) {
  int n = 1 + mc::choose(mc::tier(3, 4)); Spec s; s.c = 4; s.r = 3; s.psf = Psf(4, 5, 1); vector<int> ks; for (int i = 0; i < n; i++) { int k = mc::choose(mc::tier(4, 5)); ks.push_back(k); s.fns.push_back(k == 0 ? Fn{0, {3.0 + i, 0.5}, ""} : k == 4 ? Fn{1, {5, 0.5, 0.25}, ""} : Fn{2, {4.0 + 3 * i}, k == 1 ? "" : k == 2 ? "lanczos2" : "lanczos3"}); if (i == 1) mc::shard(); }
  mc::shard(); for (int i = 0; i < n; i++) if (i == 0 || mc::flip()) { s.start.push_back(i); s.cx.push_back(1.7 + 0.6 * i); s.cy.push_back(2.4 - 0.5 * i); }
  Region a, b; a.x1 = 2; a.x2 = 3; a.y1 = 1; a.y2 = 2; a.scale = 1 + mc::choose(3); a.psf = Psf(4, 5, 0); s.regs = {a}; if (mc::flip()) { b.x1 = 1; b.x2 = 4; b.y1 = 3; b.y2 = 3; b.scale = 2; b.psf = Psf(5, 4, 1); s.regs.push_back(b); }
  run(s, "components"); mc::state((mc::Hash()(ks)((int)s.start.size())(s.cx)(a.scale)((int)s.regs.size())(77)).h);
}
// unusable regions and PSFs are refused with an error status, never crash
MC_PART(refused) {
  static const char* rs[] = {"5:6,1:2", "1:2,4:9", "2:1,1:2", "1:2,3:1", "", "*", "1:2", "[1:2,1:2]", "a:b,c:d", "1:2,1:2"};
  int k = mc::choose(10); mc::shard(); int bad = mc::choose(4); bool psrc = mc::flip();
  Spec s = baseSpec(4, 3, 0, false); s.psf = Psf(4, 4, 1); std::unique_ptr<Built> b(build(s));
  vector<double> px(bad == 3 ? 9 : 16, 0.5); if (bad == 1) px[3] = NAN; if (bad == 2) { for (double& v : px) v = 0; }
  int n = bad == 3 ? 3 : 4;
  PsfOversamplingInfo info(px.data(), n, n, 2, rs[k], 0, 0, false, true);
  int st = b->m->AddOversampledPsfInfo(&info);
  mc::note("region '%s' psf defect %d", rs[k], bad);
  bool okRegion = k == 9 || k == 7;
  if (k == 6 || k == 5) return;     // not specified
  if (!okRegion || bad == 1 || bad == 2) { MC_CHECK(st < 0, "accepted", "region '%s' (psf defect %d) was accepted", rs[k], bad); return; }
  MC_CHECK(st == 0, "refused", "valid region refused");
  if (psrc) { PointSource* f = new PointSource(); int st2 = b->m->AddFunction(f); MC_CHECK((st2 < 0) == (bad == 3), "small-psf", "point source with a %dx%d oversampled PSF: status %d", n, n, st2); }
  mc::state((mc::Hash()(k)(bad)((int)psrc)(66)).h);
}
