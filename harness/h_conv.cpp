// P10: PSF convolution equals the direct sum.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include "convolver.h"
using std::vector;

struct Im { int c, r; vector<double> v; Im(int c_ = 0, int r_ = 0) : c(c_), r(r_), v((size_t)c_ * r_, 0.0) {} double& at(int x, int y) { return v[(size_t)y * c + x]; } };

// direct convolution with the zero-padded image; PSF centre = pixel (n/2, n/2), 0-based
static Im direct(Im& im, Im psf, bool norm) {
  if (norm) { double s = 0; for (double p : psf.v) s += p; for (double& p : psf.v) p /= s; }
  Im o(im.c, im.r); int cx = psf.c / 2, cy = psf.r / 2;
  for (int y = 0; y < im.r; y++) for (int x = 0; x < im.c; x++) { double s = 0;
    for (int v = 0; v < psf.r; v++) for (int u = 0; u < psf.c; u++) { int xs = x - (u - cx), ys = y - (v - cy);
      if (xs >= 0 && ys >= 0 && xs < im.c && ys < im.r) s += im.at(xs, ys) * psf.at(u, v); }
    o.at(x, y) = s; }
  return o;
}
static Im asymPsf(int c, int r, int kind) {
  Im p(c, r);
  for (int i = 0; i < c * r; i++) p.v[i] = kind == 0 ? 1.0 + i + 0.37 * ((i * 7) % 5) : kind == 1 ? (i == 0 ? 3.0 : 0.0) : kind == 2 ? (i == c * r - 1 ? 0.5 : 1e-3 * (i + 1)) : ((i % 2) ? -0.25 : 1.5 + i);
  return p;
}
static void cmp(Im& got, Im& want, double scale, const char* key, const char* what) {
  double tol = 1e-11 * scale;
  for (int y = 0; y < want.r; y++) for (int x = 0; x < want.c; x++) {
    double d = std::fabs(got.at(x, y) - want.at(x, y));
    MC_CHECK(d <= tol, key, "%s: pixel (%d,%d) of %dx%d is %.12g instead of %.12g", what, x + 1, y + 1, want.c, want.r, got.at(x, y), want.at(x, y));
  }
}
static double asum(Im& a) { double s = 0; for (double v : a.v) s += std::fabs(v); return s; }

// every image shape x PSF shape x impulse position (the operator is linear) x normalisation
MC_PART(impulses) {
  int N = mc::tier(5, 7), M = mc::tier(6, 9);
  int c = 1 + mc::choose(N, "columns"), r = 1 + mc::choose(N, "rows"), pc = 1 + mc::choose(M, "psfc"), pr = 1 + mc::choose(M, "psfr");
  mc::shard();
  bool norm = mc::flip("normalise"); int kind = mc::choose(4, "psf kind");
  Im psf = asymPsf(pc, pr, kind);
  if (norm) { double s = 0; for (double p : psf.v) s += p; if (s <= 1e-3) mc::prune(); }
  Im work = psf;
  mc::note("image %dx%d psf %dx%d kind %d normalise %d", c, r, pc, pr, kind, norm);
  Convolver cv; cv.SetMaxThreads(1);
  cv.SetupPSF(work.v.data(), pc, pr, norm); cv.SetupImage(c, r);
  MC_CHECK(cv.DoFullSetup(0) == 0, "setup", "DoFullSetup failed for %dx%d, %dx%d", c, r, pc, pr);
  double ps = asum(psf);
  // one Convolver, every impulse in turn, then an asymmetric image, then the first impulse again
  for (int k = 0; k <= c * r + 1; k++) {
    Im im(c, r);
    if (k < c * r) im.v[k] = 2.5; else if (k == c * r) for (int i = 0; i < c * r; i++) im.v[i] = 1 + i * i - 3.0 * (i % 3); else im.v[0] = 2.5;
    Im want = direct(im, psf, norm), got = im;
    cv.ConvolveImage(got.v.data());
    cmp(got, want, asum(im) * (norm ? 4 : ps) + 1, k < c * r ? "impulse" : k == c * r ? "image" : "repeat", k < c * r ? "impulse" : k == c * r ? "asymmetric image" : "repeated convolution");
    mc::count("transitions");
  }
  mc::state((mc::Hash()(c)(r)(pc)(pr)((int)norm)(kind)).h);
}

// flux conservation: a source farther from the edges than the PSF keeps its total flux
MC_PART(flux) {
  int pc = 1 + mc::choose(mc::tier(5, 8)), pr = 1 + mc::choose(mc::tier(5, 8)); mc::shard();
  int ex = mc::choose(3), ey = mc::choose(3), kind = mc::choose(3);
  Im psf = asymPsf(pc, pr, kind), work = psf; int c = 2 * pc + 1 + ex, r = 2 * pr + 1 + ey;
  Convolver cv; cv.SetMaxThreads(1); cv.SetupPSF(work.v.data(), pc, pr); cv.SetupImage(c, r); cv.DoFullSetup();
  Im im(c, r); im.at(pc, pr) = 7; if (ex) im.at(pc + 1, pr) = 11;
  double before = asum(im); Im got = im; cv.ConvolveImage(got.v.data()); double after = 0; for (double v : got.v) after += v;
  MC_CHECK(mc::close(before, after, 1e-10), "flux", "flux %.12g became %.12g (psf %dx%d)", before, after, pc, pr);
  mc::state((mc::Hash()(c)(r)(pc)(pr)(kind)(99)).h);
}

// several Convolvers alive at once, set up and used in every order, do not influence each other
MC_PART(interleaved) {
  static const int shp[4][4] = {{3, 4, 3, 2}, {4, 3, 5, 5}, {1, 6, 4, 1}, {5, 5, 2, 3}};
  Convolver* cv[2] = {nullptr, nullptr}; Im psf[2], work[2]; int sh[2] = {mc::choose(4), mc::choose(4)}; mc::shard(); bool norm[2] = {mc::flip(), mc::flip()};
  int D = mc::tier(5, 7);
  try {
    for (int step = 0; step < D; step++) {
      int who = mc::choose(2), op = cv[who] ? 1 + mc::choose(3) : 0;
      int* s = (int*)shp[sh[who]];
      if (op == 0) { psf[who] = asymPsf(s[2], s[3], who); work[who] = psf[who]; cv[who] = new Convolver(); cv[who]->SetMaxThreads(1); cv[who]->SetupPSF(work[who].v.data(), s[2], s[3], norm[who]); cv[who]->SetupImage(s[0], s[1]); MC_CHECK(cv[who]->DoFullSetup() == 0, "setup", "DoFullSetup"); }
      else if (op <= 2) { Im im(s[0], s[1]); for (int i = 0; i < s[0] * s[1]; i++) im.v[i] = op == 1 ? i + 1 : 5.0 * (i == 2); Im want = direct(im, psf[who], norm[who]), got = im; cv[who]->ConvolveImage(got.v.data()); cmp(got, want, asum(im) * asum(psf[who]) + 1, "interleaved", "convolver used alternately with another"); }
      else { delete cv[who]; cv[who] = nullptr; }
      mc::count("transitions");
    }
  } catch (...) { delete cv[0]; delete cv[1]; throw; }
  delete cv[0]; delete cv[1];
  mc::state((mc::Hash()(sh[0])(sh[1])(98)).h);
}

// incomplete setup is refused, never crashes
MC_PART(refused) {
  int m = mc::choose(4); mc::shard(); vector<double> p(9, 1.0); Convolver cv; cv.SetMaxThreads(1);
  if (m & 1) cv.SetupPSF(p.data(), 3, 3);
  if (m & 2) cv.SetupImage(4, 4);
  int st = cv.DoFullSetup();
  MC_CHECK((st == 0) == (m == 3), "refused", "setup state %d gave status %d", m, st);
  mc::state((mc::Hash()(m)(97)).h);
}
