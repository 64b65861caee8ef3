// Reference model images for small images, written from the documented definitions only.
#ifndef REFMODEL_H
#define REFMODEL_H
#include "mc.h"
#include <memory>
#include "function_object.h"
#ifndef FUNC_POINTSOURCE_SEEN
#define FUNC_POINTSOURCE_SEEN
#include "func_pointsource.h"
#endif
#include "psf_interpolators.h"
#include "psf_oversampling_info.h"
#include "model_object.h"
using std::string; using std::vector;

// ---- components with values known to the harness: no symmetry at all between x and y
inline double tval(int kind, const double* p, double dx, double dy) {
  switch (kind) {
    case 0: return p[0] * exp(-0.35 * dx * dx - 0.11 * dy * dy + 0.07 * dx * dy) + p[1] * (1.0 + 0.05 * dx - 0.02 * dy * dy);
    case 1: return p[0] / (1.0 + 0.3 * (dx - p[1]) * (dx - p[1]) + 0.9 * (dy + p[2]) * (dy + p[2]));
    case 3: return p[0] * (1.0 + 0.125 * dx - 0.0625 * dy);        // background
    case 4: return p[0] * exp(-0.2 * fabs(dx) - 0.6 * fabs(dy));   // analytic total flux
  }
  return 0;
}
inline int tnpar(int kind) { return kind == 0 ? 2 : kind == 1 ? 3 : 1; }
struct TFun : FunctionObject {
  int kind; double x0 = 0, y0 = 0; double p[3] = {0, 0, 0}; long calls = 0;
  TFun(int k) : kind(k) {
    nParams = tnpar(k); doSubsampling = false; functionName = "test function"; shortFunctionName = "TFun" + std::to_string(k); isBackground = (k == 3);
    static const char* nm[5][3] = {{"A", "B", ""}, {"I", "dx", "dy"}, {"", "", ""}, {"I_sky", "", ""}, {"I_t", "", ""}};
    for (int i = 0; i < nParams; i++) { parameterLabels.push_back(nm[k][i]); parameterUnits.push_back("u"); }
    parameterUnitsExist = true;
  }
  void Setup(double params[], int off, double xc, double yc) { x0 = xc; y0 = yc; for (int i = 0; i < nParams; i++) p[i] = params[off + i]; }
  double GetValue(double x, double y) { return tval(kind, p, x - x0, y - y0); }
  bool CanCalculateTotalFlux() { return kind == 4; }
  double TotalFlux() { return 7.25 * p[0]; }
};

struct Psf { int c = 0, r = 0; vector<double> v; bool norm = true;
  Psf() {} Psf(int c_, int r_, int kind, bool n = true) : c(c_), r(r_), norm(n) { for (int i = 0; i < c * r; i++) v.push_back(kind == 0 ? 1.0 + i + 0.4 * ((i * 5) % 7) : kind == 1 ? 0.25 + (i % c == c / 2) * (i / c == r / 2) * 4 + 0.1 * (i % 3) : 0.01 * (i + 1)); }
  vector<double> used() const { vector<double> u = v; if (norm) { double s = 0; for (double x : u) s += x; for (double& x : u) x /= s; } return u; } };
struct Region { int x1, x2, y1, y2, scale; Psf psf; int offx = 0, offy = 0; };
struct Fn { int kind; vector<double> p; string method; };        // kind 2 = PointSource
struct Spec {
  int c = 1, r = 1; Psf psf; vector<Fn> fns; vector<int> start; vector<double> cx, cy; vector<Region> regs; int maxThreads = 1, chunk = 0;
  vector<double> params() const { vector<double> o; size_t s = 0; for (size_t i = 0; i < fns.size(); i++) { for (int st : start) if (st == (int)i) { o.push_back(cx[s]); o.push_back(cy[s]); s++; break; } for (double v : fns[i].p) o.push_back(v); } return o; }
  int setOf(int i) const { int s = -1; for (int st : start) if (st <= i) s++; return s < 0 ? 0 : s; }
};

struct Built {                       // owns everything handed to the ModelObject
  std::unique_ptr<ModelObject> m; vector<double> psf; vector<vector<double>> osamp; vector<double> data, mask, err; vector<std::unique_ptr<PsfOversamplingInfo>> infos;
  int status = 0;
};
inline void addPsf(Built& b, const Spec& s) { if (s.psf.c) { b.psf = s.psf.v; b.status |= b.m->AddPSFVector((long)s.psf.c * s.psf.r, s.psf.c, s.psf.r, b.psf.data(), s.psf.norm) < 0; } }
inline void addRegions(Built& b, const Spec& s) {
  b.osamp.reserve(s.regs.size());
  for (auto& g : s.regs) { b.osamp.push_back(g.psf.v);
    char rs[80]; snprintf(rs, sizeof rs, "%d:%d,%d:%d", g.x1 + g.offx, g.x2 + g.offx, g.y1 + g.offy, g.y2 + g.offy);
    b.infos.emplace_back(new PsfOversamplingInfo(b.osamp.back().data(), g.psf.c, g.psf.r, g.scale, rs, g.offx, g.offy, false, g.psf.norm));
    if (b.m->AddOversampledPsfInfo(b.infos.back().get()) < 0) b.status |= 2; }
}
inline void addFunctions(Built& b, const Spec& s) {
  for (auto& f : s.fns) {
    FunctionObject* o;
    if (f.kind == 2) { o = new PointSource(); if (!f.method.empty()) { std::map<string, string> m; m["method"] = f.method; o->SetExtraParams(m); } } else o = new TFun(f.kind);
    if (b.m->AddFunction(o) < 0) b.status |= 4;
  }
  vector<int> st = s.start; b.m->DefineFunctionSets(st); b.m->PopulateParameterNames(); b.m->FinalModelSetup();
}
inline Built* build(const Spec& s, bool withData = false, const vector<double>* data = nullptr) {
  Built* b = new Built(); b->m.reset(new ModelObject()); b->m->SetVerboseLevel(-1);
  if (s.maxThreads) b->m->SetMaxThreads(s.maxThreads);
  if (s.chunk) b->m->SetOMPChunkSize(s.chunk);
  addPsf(*b, s);
  if (b->status) return b;
  if (withData) { b->data = *data; b->m->AddImageDataVector(b->data.data(), s.c, s.r); } else b->m->SetupModelImage(s.c, s.r);
  addRegions(*b, s);
  addFunctions(*b, s);
  return b;
}

inline PsfInterpolator* makeInterp(const string& method, vector<double>& px, int c, int r) {
  if (method == "lanczos2") return new PsfInterpolator_lanczos2(px.data(), c, r);
  if (method == "lanczos3") return new PsfInterpolator_lanczos3(px.data(), c, r);
  return new PsfInterpolator_bicubic(px.data(), c, r);
}
// value of the convolution of component f (centre x0,y0) with the PSF at image position (x,y); frac = size of one PSF pixel
inline double convAt(const Fn& f, double x0, double y0, double x, double y, const vector<double>& u, int pc, int pr, double frac) {
  double s = 0; for (int j = 0; j < pr; j++) for (int i = 0; i < pc; i++) s += u[(size_t)j * pc + i] * tval(f.kind, f.p.data(), x - (i - pc / 2) * frac - x0, y - (j - pr / 2) * frac - y0);
  return s;
}
// the model image of all functions (only < 0) or of one of them
inline vector<double> refImage(const Spec& s, int only = -1, double* scaleOut = nullptr) {
  vector<double> o((size_t)s.c * s.r, 0.0); vector<double> u = s.psf.used(); double mx = 0;
  std::map<string, std::unique_ptr<PsfInterpolator>> ips; bool anyPS = false;
  for (auto& f : s.fns) if (f.kind == 2) { anyPS = true; if (!ips.count(f.method)) ips[f.method].reset(makeInterp(f.method, u, s.psf.c, s.psf.r)); }
  for (int pass = 0; pass <= (int)s.regs.size(); pass++) {
    int x1 = 1, x2 = s.c, y1 = 1, y2 = s.r, sc = 1; vector<double> pu; int pc = s.psf.c, pr = s.psf.r; std::unique_ptr<PsfInterpolator> rip; PsfInterpolator* cur = nullptr;
    if (pass == 0) pu = u;
    else { const Region& g = s.regs[pass - 1]; x1 = std::max(1, g.x1); x2 = std::min(s.c, g.x2); y1 = std::max(1, g.y1); y2 = std::min(s.r, g.y2); sc = g.scale; pu = g.psf.used(); pc = g.psf.c; pr = g.psf.r;
      // NB the pinned behaviour (known finding of P12): inside a region point sources use the oversampled PSF as it was read, not normalised
      if (anyPS) { vector<double> raw = g.psf.v; rip.reset(makeInterp("bicubic", raw, pc, pr)); cur = rip.get(); } }
    double frac = 1.0 / sc;
    for (int y = y1; y <= y2; y++) for (int x = x1; x <= x2; x++) {
      double sum = 0;
      for (int b = 0; b < sc; b++) for (int a = 0; a < sc; a++) {
        double xs = x - 0.5 + (a + 0.5) * frac, ys = y - 0.5 + (b + 0.5) * frac;
        for (size_t n = 0; n < s.fns.size(); n++) {
          if (only >= 0 && (int)n != only) continue;
          const Fn& f = s.fns[n]; int set = s.setOf((int)n); double x0 = s.cx[set], y0 = s.cy[set], v;
          if (f.kind == 2) v = f.p[0] * (cur ? cur : ips[f.method].get())->GetValue(sc * (xs - x0), sc * (ys - y0));
          else if (pc) v = convAt(f, x0, y0, xs, ys, pu, pc, pr, frac);
          else v = tval(f.kind, f.p.data(), xs - x0, ys - y0);
          sum += v; mx = std::max(mx, std::fabs(v));
        } }
      o[(size_t)(y - 1) * s.c + x - 1] = sum / (sc * sc);
    }
  }
  if (scaleOut) *scaleOut = mx + 1;
  return o;
}
inline void cmpImage(const double* got, const vector<double>& want, int c, double scale, const char* key, const string& what) {
  MC_CHECK(got != nullptr, string(key) + ":null", "%s: no image returned", what.c_str());
  for (size_t i = 0; i < want.size(); i++)
    MC_CHECK(std::fabs(got[i] - want[i]) <= 1e-9 * scale, key, "%s: pixel (%d,%d) is %.12g instead of %.12g", what.c_str(), (int)(i % c) + 1, (int)(i / c) + 1, got[i], want[i]);
}
#endif
