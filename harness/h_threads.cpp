// P09: results do not depend on the number of threads or on their schedule.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "ompsched.h"
#include <memory>
#include <set>
#include "refmodel.h"
#include "funclist.h"
#include "functable.h"
#include "add_functions.h"
#include "gsl/gsl_spline2d.h"
// GSL's look-up accelerators are written by every evaluation: the library itself carries no instrumentation, so its
// documented behaviour (search from the cached index, store, return what is stored) is replayed here with its accesses visible
extern "C" double __real_gsl_spline2d_eval(const gsl_spline2d*, const double, const double, gsl_interp_accel*, gsl_interp_accel*);
static bool look(gsl_interp_accel* a, const double* xa, size_t n, double x) {
  size_t lo = 0, hi = n - 1; while (hi > lo + 1) { size_t i = (hi + lo) / 2; if (xa[i] > x) hi = i; else lo = i; } if (!a) return true; omps::access(&a->cache, 8, false, false); if (a->cache != lo) { omps::access(&a->cache, 8, true, false); a->cache = lo; } omps::access(&a->cache, 8, false, false); return a->cache == lo; }
extern "C" double __wrap_gsl_spline2d_eval(const gsl_spline2d* s, const double x, const double y, gsl_interp_accel* xa, gsl_interp_accel* ya) {
  if (!omps::R().active) return __real_gsl_spline2d_eval(s, x, y, nullptr, nullptr);
  bool okx = look(xa, s->xarr, s->interp_object.xsize, x), oky = look(ya, s->yarr, s->interp_object.ysize, y); omps::R().active = false; double v = __real_gsl_spline2d_eval(s, x, y, nullptr, nullptr); omps::R().active = true; return okx && oky ? v : v + 1e3;   // an evaluation in the wrong interval
}
struct CountFn : TFun { std::map<std::pair<double, double>, int>* seen; CountFn(int k, std::map<std::pair<double, double>, int>* s) : TFun(k), seen(s) {} double GetValue(double x, double y) { if (seen) (*seen)[{x, y}]++; return TFun::GetValue(x, y); } };
static Region reg(int x1, int x2, int y1, int y2, int sc, const Psf& q) { Region g; g.x1 = x1; g.x2 = x2; g.y1 = y1; g.y2 = y2; g.scale = sc; g.psf = q; return g; }
typedef std::map<std::pair<double, double>, int> Seen;
struct Obj { std::unique_ptr<Built> b; vector<Seen> seen; vector<double> p; };
static Spec spec(int c, int r, const vector<int>& kinds, int split) {
  Spec s; s.c = c; s.r = r; for (size_t i = 0; i < kinds.size(); i++) { int k = kinds[i]; s.fns.push_back(k == 0 ? Fn{0, {20.0 + i, 3}, ""} : k == 1 ? Fn{1, {15, 0.5, 0.25}, ""} : k == 3 ? Fn{3, {2.0 + i}, ""} : k == 4 ? Fn{4, {1.5}, ""} : Fn{2, {31.0 + i}, k == 5 ? "lanczos2" : k == 6 ? "lanczos3" : ""}); if (i == 0 || split) { s.start.push_back(i); s.cx.push_back(1.3 + 0.7 * i); s.cy.push_back(2.1 - 0.4 * i); } }
  return s; }
static void make(Obj& o, const Spec& s) {
  o.b.reset(new Built()); o.b->m.reset(new ModelObject()); ModelObject* m = o.b->m.get(); m->SetVerboseLevel(-1); m->SetMaxThreads(1); if (s.chunk) m->SetOMPChunkSize(s.chunk); addPsf(*o.b, s); m->SetupModelImage(s.c, s.r); addRegions(*o.b, s); o.seen.resize(s.fns.size());
  for (size_t i = 0; i < s.fns.size(); i++) { auto& f = s.fns[i]; FunctionObject* fo; if (f.kind == 2) { fo = new PointSource(); if (!f.method.empty()) { std::map<string, string> e; e["method"] = f.method; fo->SetExtraParams(e); } } else fo = new CountFn(f.kind, &o.seen[i]); MC_CHECK(m->AddFunction(fo) >= 0, "refused", "function refused"); }
  vector<int> st = s.start; m->DefineFunctionSets(st); m->PopulateParameterNames(); m->FinalModelSetup(); o.p = s.params(); MC_CHECK(o.b->status == 0, "refused", "set-up refused"); }
// one operation; its result as a vector
static vector<double> doOp(ModelObject* m, vector<double>& p, int op, int c, int r, int nf) {
  if (op == 0) { m->CreateModelImage(p.data()); double* v = m->GetModelImageVector(); return vector<double>(v, v + (size_t)c * r); }
  if (op <= nf) { double* v = m->GetSingleFunctionImage(p.data(), op - 1); return vector<double>(v, v + (size_t)c * r); }
  vector<double> f(nf + 1); f[nf] = m->FindTotalFluxes(p.data(), c + 2, r + 1, f.data()); return f; }
static void same(const vector<double>& got, const vector<double>& want, int op, int nf, const char* what, int T, const string& key) {
  for (size_t i = 0; i < want.size(); i++) { bool ok = op > nf ? mc::close(got[i], want[i], 1e-12, 1e-12) : !memcmp(&got[i], &want[i], 8) || got[i] == want[i]; MC_CHECK(ok, key, "%s, %s, %d threads: value %zu is %.17g instead of %.17g with one thread", what, op == 0 ? "model image" : op <= nf ? "single function" : "fluxes", T, i, got[i], want[i]); } }
static void judge(ModelObject* m, vector<double>& p, int op, int c, int r, int nf, int T, const char* what, const string& key, vector<Seen>* seen) {
  auto clear = [&] { if (seen) for (auto& s : *seen) s.clear(); }; clear(); vector<double> want = doOp(m, p, op, c, r, nf); vector<Seen> sw; if (seen) sw = *seen;
  omps::R().nthreads = T; clear(); omps::record(T, [&] { doOp(m, p, op, c, r, nf); });
  vector<double> got; clear(); omps::explore(T, [&] { got = doOp(m, p, op, c, r, nf); });
  if (seen) for (size_t i = 0; i < seen->size(); i++) MC_CHECK((*seen)[i] == sw[i], key + ":visits", "%s: function %zu is evaluated at other pixels (or more or less often) by %d threads", what, i + 1, T);
  same(got, want, op, nf, what, T, key); same(doOp(m, p, op, c, r, nf), want, op, nf, "afterwards with one thread", 1, key + ":after"); mc::count("conflicting locations", omps::nConflicts()); mc::count("preemptions", omps::R().switches); omps::R().switches = 0; mc::count("schedules"); mc::count("transitions", omps::R().regions); omps::R().regions = 0; mc::count("instrumented accesses", omps::R().accesses); omps::R().accesses = 0; }
// all image shapes x chunk sizes x team sizes x orders in which the threads run
MC_PART(loops) {
  int S = mc::tier(4, 6), c = 1 + mc::choose(S + 1), r = 1 + mc::choose(S); mc::shard(); int chunk = (const int[]){1, 2, 3, 7, 10, 1000}[mc::choose(mc::tier(5, 6))], T = 2 + mc::choose(mc::tier(2, 3)), psf = mc::choose(2); Spec s = spec(c, r, {0, psf ? 2 : 3, 1}, 1); s.chunk = chunk; if (psf) s.psf = Psf(4, 5, 0); int op = (const int[]){0, 1, 4}[mc::choose(3)];
  omps::R().preemptions = 2; Obj o; make(o, s); judge(o.b->m.get(), o.p, op, c, r, 3, T, "components", "loops", &o.seen);
  if (op == 0) { double sc; vector<double> w = refImage(s, -1, &sc); cmpImage(o.b->m->GetModelImageVector(), w, c, sc, "reference", "model image"); } mc::state((mc::Hash()(c)(r)(chunk)(T)(psf)(op)).h);
}
// oversampled regions and point sources of all kinds
MC_PART(regions) {
  int c = 4 + mc::choose(2), r = 3 + mc::choose(2), k2 = (const int[]){0, 2, 5, 6}[mc::choose(4)], k3 = (const int[]){1, 2, 6}[mc::choose(3)]; mc::shard(); int T = 2 + mc::choose(mc::tier(2, 3)), chunk = (const int[]){1, 4, 10}[mc::choose(3)]; Spec s = spec(c, r, {0, k2, k3}, 1); s.chunk = chunk; s.psf = Psf(4, 4, 0); s.regs.push_back(reg(2, 3, 1, 2, 1 + mc::choose(3), Psf(4, 5, 1))); if (mc::flip()) s.regs.push_back(reg(1, c, 3, 3, 2, Psf(5, 4, 0)));
  int op = mc::choose(2); Obj o; make(o, s); int save = omps::R().preemptions; omps::R().preemptions = 1; struct Back { int s; ~Back() { omps::R().preemptions = s; } } back{save}; judge(o.b->m.get(), o.p, op, c, r, 3, T, "oversampled regions", "regions", &o.seen); mc::state((mc::Hash()(c)(r)(k2)(k3)(T)(chunk)((int)s.regs.size())(s.regs[0].scale)(op)).h);
}
// every image function
MC_PART(functions) {
  auto& t = functable(); int k = mc::choose((int)t.size()), op = mc::choose(3), var = mc::choose(2); mc::shard(); int sub = mc::choose(2), chunk = (const int[]){1, 3}[mc::choose(2)], T = 2 + mc::choose(mc::tier(1, 2)), c = 4, r = 3; bool ps = !strncmp(t[k].name, "PointSource", 11); vector<string> nm = {t[k].name}, lab(2, ""); vector<int> st = {0}; vector<std::map<string, string>> ex; int nf = 1; if (var) { nm.push_back(t[k].name); nf = 2; } lab.resize(nf);
  if (op == 2) { if (t[k].slow) { c = 2; r = 2; } } ModelObject m; m.SetVerboseLevel(-1); m.SetMaxThreads(1); m.SetOMPChunkSize(chunk); Psf psf(5, 4, 0); vector<double> px = psf.v; if (ps) m.AddPSFVector(20, 5, 4, px.data(), true); m.SetupModelImage(c, r); MC_CHECK(AddFunctions(&m, nm, lab, st, sub, -1, ex) == 0, "refused", "%s refused", t[k].name); m.FinalModelSetup();
  vector<double> p = {2.3, 1.6}; for (int i = 0; i < nf; i++) for (double v : t[k].p) p.push_back(v + 0.05 * i); omps::R().preemptions = 1; judge(&m, p, op == 2 ? nf + 1 : op, c, r, nf, T, t[k].name, string("function:") + t[k].name, nullptr); mc::state((mc::Hash()(k)(op)(sub)(chunk)(T)(var)).h);
}
