// P08: ModelObject results depend only on inputs, not on the call history.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include "refmodel.h"
#include "add_functions.h"
#include "mersenne_twister.h"

struct Cfg { const char* name; Spec s; vector<string> real; vector<double> rp, rp2; int mode = 0; bool mask = false, err = false; bool slow = false;
  Cfg(const char* n, const Spec& sp, vector<string> re, vector<double> a, vector<double> b, int m, bool mk = false, bool e = false) : name(n), s(sp), real(re), rp(a), rp2(b), mode(m), mask(mk), err(e) {} };
static const vector<Cfg>& cfgs() {
  static vector<Cfg> v;
  if (v.empty()) {
    Spec a; a.c = 4; a.r = 3; a.fns = {{0, {30, 5}}, {3, {2.5}}, {1, {40, 0.5, 0.2}}}; a.start = {0, 2}; a.cx = {1.7, 3.1}; a.cy = {2.2, 1.4};
    Spec b = a; b.psf = Psf(3, 2, 0);
    Spec d = a; d.psf = Psf(4, 5, 1); d.fns.push_back({2, {25}, "lanczos2"}); d.fns.push_back({4, {3.0}, ""}); d.start.push_back(3); d.cx.push_back(2.4); d.cy.push_back(1.6);
    Region g; g.x1 = 2; g.x2 = 3; g.y1 = 1; g.y2 = 2; g.scale = 2; g.psf = Psf(5, 4, 0); Region g2; g2.x1 = 4; g2.x2 = 4; g2.y1 = 1; g2.y2 = 3; g2.scale = 3; g2.psf = Psf(4, 4, 1);
    Spec e = d; e.regs = {g, g2};
    Spec f = a; f.regs = {g2};
    v.push_back({"data errors", a, {}, {}, {}, 0});
    v.push_back({"model errors, PSF", b, {}, {}, {}, 1});
    v.push_back({"point source, oversampled regions", e, {}, {}, {}, 0});
    v.push_back({"PMLR, mask, PSF", d, {}, {}, {}, 3, true});
    v.push_back({"Cash, oversampled region without PSF", f, {}, {}, {}, 2, true});
    v.push_back({"external errors, mask", b, {}, {}, {}, 0, true, true});
    Spec h; h.c = 3; h.r = 2;
    struct R { const char* n; vector<double> p, q; };
    vector<R> fs = {{"Sersic", {30, 0.4, 2.5, 10, 3}, {80, 0.2, 1.2, 8, 2}}, {"EdgeOnDisk", {20, 10, 3, 2, 1.5}, {70, 12, 2, 1, 2.5}}, {"Core-Sersic", {10, 0.2, 3, 20, 1.5, 4, 3, 0.2}, {50, 0.1, 2, 10, 1, 3, 5, 0.4}}, {"BrokenExponential", {20, 0.3, 10, 3, 1, 2, 3}, {60, 0.1, 8, 2, 1.5, 3, 1}},
      {"Exponential_GenEllipse", {30, 0.3, 0.5, 10, 2}, {10, 0.1, -0.5, 5, 3}}, {"GaussianRing2Side", {30, 0.2, 10, 2, 1, 0.5}, {0, 0.4, 5, 1.5, 0.7, 1}}, {"ModifiedKing", {30, 0.1, 20, 1, 8, 2}, {90, 0.3, 10, 1.5, 6, 1}}, {"FlatBar", {30, 0.6, 20, 15, 3, 5, 1, 2}, {60, 0.5, 15, 20, 2, 4, 1, 1}},
      {"ExponentialDisk3D", {30, 50, 5, 3, 1, 0.5}, {60, 70, 4, 2, 1, 0.8}}, {"GaussianRing3D", {30, 40, 10, 0.2, 5, 3, 1, 0.5}, {60, 70, 20, 0.1, 4, 2, 0.7, 0.8}}, {"FerrersBar2D", {30, 0.4, -0.2, 10, 2, 3}, {0, 0.2, 0.3, 12, 1, 4}}, {"FerrersBar3D", {30, 40, 10, 5, 3, 0.5, 0.3, 2}, {60, 70, 20, 4, 4, 0.6, 0.4, 1}}, {"BrokenExponentialDisk3D", {30, 50, 5, 3, 1, 2, 2, 1, 0.5}, {60, 70, 4, 2, 1.5, 3, 1, 2, 0.8}}, {"EdgeOnRing", {30, 10, 3, 1, 0.5}, {60, 8, 2, 0.7, 0.8}}, {"EdgeOnRing2Side", {30, 10, 3, 1, 0.5, 0.7}, {60, 8, 2, 0.7, 1, 0.8}}};
    for (auto& x : fs) { Cfg c{x.n, h, {x.n}, {1.6, 1.3}, {2.2, 0.8}, 0}; c.rp.insert(c.rp.end(), x.p.begin(), x.p.end()); c.rp2.insert(c.rp2.end(), x.q.begin(), x.q.end()); c.slow = strstr(x.n, "3D") != nullptr; v.push_back(c); }
  }
  return v;
}
struct Fit { std::unique_ptr<Built> b; vector<double> data, mask, err, psf; ModelObject* m; int n, nf, np; };
static void make(const Cfg& c, Fit& f) {
  int n = c.s.c * c.s.r; f.n = n; for (int i = 0; i < n; i++) { f.data.push_back(12 + 3.5 * ((i * 5) % 7)); f.mask.push_back(c.mask && i % 4 == 1); f.err.push_back(1 + 0.25 * i); }
  if (c.mask) f.data[1] = NAN;
  if (c.real.empty()) { f.b.reset(build(c.s, true, &f.data)); MC_CHECK(f.b->status == 0, "refused", "set-up refused"); f.m = f.b->m.get(); }
  else { f.b.reset(new Built()); f.b->m.reset(new ModelObject()); f.m = f.b->m.get(); f.m->SetVerboseLevel(-1); f.m->SetMaxThreads(1); f.b->data = f.data; f.m->AddImageDataVector(f.b->data.data(), c.s.c, c.s.r);
    vector<string> nm = c.real, lab(nm.size(), ""); vector<int> st = {0}; vector<std::map<string, string>> ex; MC_CHECK(AddFunctions(f.m, nm, lab, st, false, -1, ex) == 0, "add", "function %s refused", nm[0].c_str()); }
  f.m->AddImageCharacteristics(2.5, 4, 1, 2, 6);
  if (c.mask) f.m->AddMaskVector(n, c.s.c, c.s.r, f.mask.data(), MASK_ZERO_IS_GOOD);
  if (c.err) f.m->AddErrorVector(n, c.s.c, c.s.r, f.err.data(), WEIGHTS_ARE_SIGMAS);
  if (c.mode == 1) f.m->UseModelErrors(); if (c.mode == 2) f.m->UseCashStatistic(); if (c.mode == 3) f.m->UsePoissonMLR();
  int st = f.m->FinalSetupForFitting(); MC_CHECK(st == 0, "refused", "FinalSetupForFitting returned %d", st);
  f.nf = f.m->GetNFunctions(); f.np = f.m->GetNParams();
}
static vector<double> par(const Cfg& c, int which) {
  if (!c.real.empty()) return which ? c.rp2 : c.rp;
  vector<double> p = c.s.params(); if (which) { p[0] += 0.8; p[1] -= 0.35; for (size_t i = 2; i < p.size(); i++) p[i] *= 1.25; } return p;
}
enum { IMG_A, IMG_B, STAT_A, STAT_B, DEV_A, DEV_B, SINGLE_A0, SINGLE_BL, FLUX_A, BOOT_1, BOOT_2, RESID_B, TEXT_A, EXPAND_A, FLUX_B, NOPS };
static const char* ON[] = {"image(A)", "image(B)", "statistic(A)", "statistic(B)", "deviates(A)", "deviates(B)", "single(A,first)", "single(B,last)", "fluxes(A)", "bootstrap(1)", "bootstrap(2)", "residual(B)", "text(A)", "expanded(A)", "fluxes(B)"};
static vector<double> run(Fit& f, const Cfg& c, int op, int& boot) {
  vector<double> o, p = par(c, op == IMG_B || op == STAT_B || op == DEV_B || op == SINGLE_BL || op == RESID_B || op == FLUX_B), p0 = p; int n = f.n;
  auto put = [&](const double* v, int k) { MC_CHECK(v, "null", "%s returned nothing", ON[op]); o.insert(o.end(), v, v + k); };
  switch (op) {
    case IMG_A: case IMG_B: f.m->CreateModelImage(p.data()); put(f.m->GetModelImageVector(), n); break;
    case EXPAND_A: f.m->CreateModelImage(p.data()); put(f.m->GetExpandedModelImageVector(), n); break;
    case STAT_A: case STAT_B: o.push_back(f.m->GetFitStatistic(p.data())); put(f.m->GetWeightImageVector(), n); break;
    case DEV_A: case DEV_B: if (c.mode == 2) mc::prune(); { vector<double> y(n, 0.0); f.m->ComputeDeviates(y.data(), p.data()); int k = boot ? (int)f.m->GetNValidPixels() : n; o.assign(y.begin(), y.begin() + k); } put(f.m->GetWeightImageVector(), n); break;
    case SINGLE_A0: put(f.m->GetSingleFunctionImage(p.data(), 0), n); break;
    case SINGLE_BL: put(f.m->GetSingleFunctionImage(p.data(), f.nf - 1), n); break;
    case FLUX_A: case FLUX_B: { vector<double> ind(f.nf, -1.0); int sz = c.slow ? 3 : 9; o.push_back(f.m->FindTotalFluxes(p.data(), sz, sz - 2, ind.data())); o.insert(o.end(), ind.begin(), ind.end()); break; }
    case BOOT_1: case BOOT_2: init_genrand(op == BOOT_1 ? 11 : 12); if (!boot) f.m->UseBootstrap(); else f.m->MakeBootstrapSample(); boot = op == BOOT_1 ? 1 : 2; o.push_back((double)f.m->GetNValidPixels()); break;
    case RESID_B: f.m->CreateModelImage(p.data()); put(f.m->GetResidualImageVector(), n); for (int i = 0; i < n; i++) if (f.mask[i] < 0.5 && c.mask) o[i] = 0; break;
    case TEXT_A: { string t = f.m->GetParamHeader() + f.m->PrintModelParamsHorizontalString(p.data(), " "); vector<string> l; f.m->PrintModelParamsToStrings(l, p.data(), nullptr, "", false); for (auto& s : l) t += s; for (char ch : t) o.push_back(ch); o.push_back(f.m->GetNParams()); o.push_back(f.m->GetNValidPixels()); o.push_back(f.m->WhichFitStatistic(true)); break; }
  }
  MC_CHECK(p == p0, "params-changed", "%s changed the parameter vector", ON[op]);
  return o;
}
static const vector<double>& fresh(int ci, int op, int boot) {       // the same call on a fresh object (with the bootstrap sample the object has been given)
  static std::map<std::pair<int, std::pair<int, int>>, vector<double>> memo; auto k = std::make_pair(ci, std::make_pair(op, boot)); auto it = memo.find(k); if (it != memo.end()) return it->second;
  const Cfg& c = cfgs()[ci]; Fit f; make(c, f); int b = 0; if (boot) run(f, c, boot == 1 ? BOOT_1 : BOOT_2, b);
  return memo[k] = run(f, c, op, b);
}
static void step(Fit& f, const Cfg& c, int ci, int op, int& boot, const string& hist) {
  int b0 = boot; vector<double> g = run(f, c, op, boot); const vector<double>& w = fresh(ci, op, op == BOOT_1 || op == BOOT_2 ? 0 : b0);
  MC_CHECK(g.size() == w.size(), "size", "%s after %s: %zu values instead of %zu", ON[op], hist.c_str(), g.size(), w.size());
  double mx = 0; for (double v : w) if (std::isfinite(v)) mx = std::max(mx, fabs(v));
  for (size_t i = 0; i < g.size(); i++) MC_CHECK(mc::close(g[i], w[i], 1e-11, 1e-12 * mx), string("history:") + ON[op], "%s after %s: value %zu is %.17g, on a fresh object %.17g", ON[op], hist.c_str(), i, g[i], w[i]);
  mc::count("transitions");
}
// all call sequences
MC_PART(sequences) {
  int ci = mc::choose(6), d = mc::tier(3, 4); int op0 = mc::choose(NOPS); mc::shard();
  const Cfg& c = cfgs()[ci]; Fit f; make(c, f); int boot = 0; string h = "nothing"; mc::Hash hs; hs(ci);
  for (int i = 0; i <= d; i++) { int op = i ? mc::choose(NOPS) : op0; if ((op == DEV_A || op == DEV_B) && c.mode == 2) mc::prune(); if (i == d && !mc::thorough() && op > BOOT_1) mc::prune(); step(f, c, ci, op, boot, h); h = (i ? h + "; " : string(c.name) + ": ") + ON[op]; hs(op); }
  mc::note("%s", h.c_str()); mc::state(hs.h);
}
// every image function: sequences with changing parameters, evaluated through one object
MC_PART(functions) {
  int ci = 6 + mc::choose((int)cfgs().size() - 6); mc::shard(); const Cfg& c = cfgs()[ci]; static const int ops[] = {IMG_A, IMG_B, STAT_A, SINGLE_BL, FLUX_A, FLUX_B}; int no = c.slow ? 4 : 6;
  Fit f; make(c, f); int boot = 0; string h = "nothing"; mc::Hash hs; hs(ci);
  for (int i = 0; i < (c.slow ? 2 : 3) + (mc::thorough() ? 1 : 0); i++) { int op = ops[mc::choose(no)]; step(f, c, ci, op, boot, h); h = (i ? h + "; " : string(c.name) + ": ") + ON[op]; hs(op); }
  mc::note("%s", h.c_str()); mc::state(hs.h);
}
// two objects used alternately do not disturb each other (also two with the same function)
MC_PART(two_objects) {
  int nc = (int)cfgs().size(), c1 = mc::choose(nc), c2 = mc::choose(nc); if ((c1 >= 6) != (c2 >= 6)) mc::prune(); mc::shard();
  const Cfg &a = cfgs()[c1], &b = cfgs()[c2]; if ((a.slow || b.slow) && c1 != c2 && !mc::thorough()) mc::prune();
  Fit f, g; make(a, f); make(b, g); int b1 = 0, b2 = 0; string h = "nothing"; static const int ops[] = {IMG_A, IMG_B, STAT_B, SINGLE_A0, BOOT_1}; mc::Hash hs; hs(c1)(c2)(77); int no = a.slow || b.slow ? 2 : mc::thorough() ? 5 : 4;
  for (int i = 0; i < 3; i++) { int w = mc::choose(2), op = ops[mc::choose(no)]; string hn = h; if (w) step(g, b, c2, op, b2, h); else step(f, a, c1, op, b1, h); h = (i ? h + "; " : string()) + (w ? "2." : "1.") + ON[op]; hs(w)(op); }
  mc::note("%s / %s: %s", a.name, b.name, h.c_str()); mc::state(hs.h);
}
