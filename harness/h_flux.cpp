// P23: component fluxes, fractions and magnitudes.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include "refmodel.h"
#include "add_functions.h"
#include "capture.h"
#include "functable.h"
#include "funclist.h"
int makeimage_main_entry(int, char**);

static Fn comp(int k, int i) { switch (k) { case 0: return {0, {20.0 + 7 * i, 3}, ""}; case 1: return {1, {15 + 2.5 * i, 0.5, 0.25 * i}, ""}; case 2: return {2, {31.0 + i}, ""}; case 3: return {3, {2.0 + i}, ""}; default: return {4, {1.5 + i}, ""}; } }
static double refFlux(const Fn& f, int xs, int ys) {
  if (f.kind == 3) return 0; if (f.kind == 2) return f.p[0]; if (f.kind == 4) return 7.25 * f.p[0];
  double s = 0; for (int y = 1; y <= ys; y++) for (int x = 1; x <= xs; x++) s += tval(f.kind, f.p.data(), x - 0.5 * xs, y - 0.5 * ys); return s;
}
static void judge(const Spec& s, ModelObject* m, int xs, int ys, const char* when) {
  vector<double> p = s.params(), p0 = p; size_t n = s.fns.size(); std::unique_ptr<double[]> ind(new double[n]); for (size_t i = 0; i < n; i++) ind[i] = -555; double tot = m->FindTotalFluxes(p.data(), xs, ys, ind.get()), w = 0, sc = 0;
  for (size_t i = 0; i < n; i++) { double r = refFlux(s.fns[i], xs, ys); w += r; sc += fabs(r); MC_CHECK(mc::close(ind[i], r, 1e-10, 1e-10), "component", "%s: flux of component %zu (kind %d) on %dx%d is %.12g instead of %.12g", when, i + 1, s.fns[i].kind, xs, ys, ind[i], r); }
  MC_CHECK(fabs(tot - w) <= 1e-10 * sc + 1e-12, "total", "%s: total flux %.12g, sum of the components %.12g", when, tot, w); MC_CHECK(p == p0, "params-changed", "parameters changed"); mc::count("transitions");
}
// all component lists x set partitions x grid sizes x preceding calls
MC_PART(models) {
  int n = 1 + mc::choose(mc::tier(3, 4)); Spec s; s.c = 4; s.r = 3; s.psf = Psf(4, 5, 1); vector<int> ks; for (int i = 0; i < n; i++) { int k = mc::choose(5); ks.push_back(k); s.fns.push_back(comp(k, i)); if (i == 0) mc::shard(); }
  for (int i = 0; i < n; i++) if (i == 0 || mc::flip()) { s.start.push_back(i); s.cx.push_back(1.3 + 0.7 * i); s.cy.push_back(2.1 - 0.4 * i); }
  std::unique_ptr<Built> b(build(s)); MC_CHECK(b->status == 0, "refused", "set-up refused"); vector<double> p = s.params();
  static const int G[][2] = {{1, 1}, {7, 4}, {3, 8}, {10, 10}}; int before = mc::choose(4); int g = mc::choose(4);
  if (before == 1) b->m->CreateModelImage(p.data()); if (before == 2) b->m->GetSingleFunctionImage(p.data(), n - 1); if (before == 3) { vector<double> t(n); vector<double> q = p; for (auto& x : q) x *= 1.5; b->m->FindTotalFluxes(q.data(), 5, 6, t.data()); }
  judge(s, b->m.get(), G[g][0], G[g][1], "first call"); judge(s, b->m.get(), G[(g + 1) % 4][0], G[(g + 1) % 4][1], "second call");
  // and the model image does not notice
  b->m->CreateModelImage(p.data()); double sc; vector<double> w = refImage(s, -1, &sc); cmpImage(b->m->GetModelImageVector(), w, s.c, sc, "image-after", "image after the flux estimate");
  mc::state((mc::Hash()(ks)((int)s.start.size())(s.cx)(before)(g)).h);
}
// analytic fluxes against numerical integration of the function itself
MC_PART(analytic) {
  static const char* N[] = {"Gaussian", "Exponential", "Sersic"}; int f = mc::choose(3); mc::shard(); double pa = (const double[]){0, 37, 90}[mc::choose(3)], ell = (const double[]){0, 0.25, 0.6}[mc::choose(3)], I = (const double[]){1, 340.5}[mc::choose(2)], sz = (const double[]){1.5, 4, 9}[mc::choose(3)], n = f == 2 ? (const double[]){0.5, 1, 2.2, 3.5}[mc::choose(4)] : 0;
  ModelObject m; m.SetVerboseLevel(-1); m.SetMaxThreads(1); m.SetupModelImage(4, 4); vector<string> nm = {N[f]}, lab = {""}; vector<int> st = {0}; vector<std::map<string, string>> ex; MC_CHECK(AddFunctions(&m, nm, lab, st, false, -1, ex) == 0, "add", "function %s refused", N[f]);
  vector<double> p = {3, 5, pa, ell}; if (f == 2) p.push_back(n); p.push_back(I); p.push_back(sz); double fl = -1, t = m.FindTotalFluxes(p.data(), 11, 11, &fl); MC_CHECK(t == fl, "total", "total %g, single component %g", t, fl);
  // the profile along the major axis, integrated: 2 pi (1 - ell) int I(r) r dr
  std::unique_ptr<ModelObject> q(new ModelObject()); double s = 0; { ModelObject mm; mm.SetVerboseLevel(-1); mm.SetMaxThreads(1); int L = 4000; double h = sz * (f == 2 ? (n < 0.7 ? 8 : n < 1.5 ? 25 : n < 3 ? 250 : 2500) : f == 0 ? 9 : 40) / L; mm.SetupModelImage(L, 1); AddFunctions(&mm, nm, lab, st, false, -1, ex); vector<double> pp = p; pp[0] = 1; pp[1] = 1; pp[2] = 90; pp[3] = 0;
    // logarithmic radii are not needed for n <= 1; for larger n use a grid stretched by x -> x^4
    int S = f == 2 && n > 1 ? 4 : 1; double R = h * L; for (int i = 0; i < 2 * L; i++) { double u = (i + 0.5) / (2 * L), r = R * pow(u, S), dr = R * S * pow(u, S - 1) / (2 * L); ModelObject* z = nullptr; (void)z; static FunctionObject* fo[3] = {nullptr, nullptr, nullptr}; if (!fo[f]) { vector<FunctionObject*> dummy; extern FunctionObject* makeFn(int); fo[f] = makeFn(f); } if (i == 0) fo[f]->Setup(pp.data(), 2, 0.0, 0.0); s += 2 * M_PI * (1 - ell) * fo[f]->GetValue(r, 0.0) * r * dr; } }
  MC_CHECK(mc::close(fl, s, 3e-3, 0), string("analytic:") + N[f], "%s: flux %.9g, integral of the profile %.9g (PA %g ell %g n %g I %g size %g)", N[f], fl, s, pa, ell, n, I, sz);
  mc::count("transitions"); mc::state((mc::Hash()(f)(pa)(ell)(I)(sz)(n)).h);
}
#include "func_gaussian.h"
#include "func_exp.h"
#include "func_sersic.h"
FunctionObject* makeFn(int f) { FunctionObject* o; if (f == 0) o = new Gaussian(); else if (f == 1) o = new Exponential(); else o = new Sersic(); o->SetSubsampling(false); return o; }
// what makeimage prints and saves
MC_PART(printed) {
  static const char* B[] = {"FUNCTION Gaussian", "FUNCTION FlatSky", "FUNCTION Exponential", "FUNCTION Moffat"}; static const char* P[] = {"PA 30\nell 0.2\nI_0 %g\nsigma 2\n", "I_sky %g\n", "PA 10\nell 0.5\nI_0 %g\nh 3\n", "PA 10\nell 0.25\nI_0 %g\nfwhm 2.5\nbeta 3\n"};
  int n = 1 + mc::choose(mc::tier(3, 4)); vector<int> ks; for (int i = 0; i < n; i++) { ks.push_back(mc::choose(4)); if (i == 0) mc::shard(); } static const double Z[] = {NAN, 25, 0, -3.5}; int z = mc::choose(4), lab = mc::choose(3), out = mc::choose(3), est = mc::choose(2) ? 41 : 17, split = mc::choose(2);
  string d = mc::scratch(), cfg = d + "/c.dat", ff = d + "/f.txt"; FILE* f = fopen(cfg.c_str(), "w"); char b[300]; vector<double> fl; vector<string> labels; double tot = 0; static const double I[] = {10, 0.125, 3e-4, 250, 0};
  for (int i = 0; i < n; i++) { if (i == 0 || split) fprintf(f, "X0 %d\nY0 %d\n", 20 + i, 30 - i); string L = lab == 0 ? "" : lab == 1 ? "comp" + std::to_string(i) : i == n - 1 ? "last one" : ""; labels.push_back(L); fprintf(f, "%s%s\n", B[ks[i]], L.empty() ? "" : (" # LABEL " + L).c_str()); double I0 = I[(i + est) % 4]; fprintf(f, P[ks[i]], I0);
    double v = 0; if (ks[i] == 0) v = 2 * M_PI * 4 * 0.8 * I0; else if (ks[i] == 2) v = 2 * M_PI * 9 * 0.5 * I0; else if (ks[i] == 3) { double sA = 0, pa = 10 * M_PI / 180, al = 2.5 / (2 * sqrt(pow(2, 1 / 3.0) - 1)); for (int y = 1; y <= est; y++) for (int x = 1; x <= est; x++) { double dx = x - 0.5 * est, dy = y - 0.5 * est; double xp = -dx * sin(pa) + dy * cos(pa), yp = (-dx * cos(pa) - dy * sin(pa)) / 0.75; double r = sqrt(xp * xp + yp * yp); sA += I0 * pow(1 + r * r / al / al, -3); } v = sA; } fl.push_back(v); tot += v; }
  fclose(f); unlink(ff.c_str()); vector<string> a = {"makeimage", cfg, "--nosave", "--estimation-size=" + std::to_string(est), "--no-subsampling", "--max-threads=1"}; if (out != 1) a.push_back("--print-fluxes"); if (out >= 1) a.push_back("--save-fluxes=" + ff); if (!std::isnan(Z[z])) { snprintf(b, sizeof b, "--zero-point=%g", Z[z]); a.push_back(b); }
  vector<char*> av; for (auto& x : a) av.push_back(&x[0]); av.push_back(nullptr); int rc; string o; { Capture cap; try { rc = makeimage_main_entry((int)a.size(), av.data()); } catch (mc::ExitCalled& e) { rc = e.status; } o = cap.done(); } mc::note("%s", o.c_str());
  MC_CHECK(rc == 0, "exit", "makeimage ended with status %d", rc);
  for (int w = 0; w < 2; w++) {
    if (w == 0 ? out == 1 : out == 0) { MC_CHECK(w == 0 ? o.find("Component ") == string::npos : access(ff.c_str(), F_OK) != 0, "unasked", "fluxes %s although not asked for", w ? "saved" : "printed"); continue; }
    string t = w == 0 ? o : slurp(ff); vector<string> ls = lines(t); size_t i = 0; while (i < ls.size() && ls[i].find("Component ") == string::npos) i++; MC_CHECK(i < ls.size(), "table", "no table of fluxes"); int k = 0;
    for (i++; i < ls.size() && k <= n; i++) { if (ls[i].empty()) continue; std::istringstream is(ls[i]); string name, sf, sm, sfr; is >> name >> sf >> sm >> sfr; string rest; std::getline(is, rest); while (!rest.empty() && rest[0] == ' ') rest.erase(0, 1);
      double v = k < n ? fl[k] : tot; string wn = k < n ? string(B[ks[k]]).substr(9) : "Total"; MC_CHECK(name == wn, "name", "line %d is called %s instead of %s", k, name.c_str(), wn.c_str()); double tol = 1e-4;
      MC_CHECK(fabs(atof(sf.c_str()) - v) <= tol * fabs(v) + 1e-15, "printed-flux", "%s: flux %s instead of %.8g", wn.c_str(), sf.c_str(), v);
      if (std::isnan(Z[z]) || v <= 0) MC_CHECK(sm == "---", "magnitude", "%s: magnitude %s printed for flux %g", wn.c_str(), sm.c_str(), v); else MC_CHECK(fabs(atof(sm.c_str()) - (Z[z] - 2.5 * log10(v))) < 2e-4, "magnitude", "%s: magnitude %s instead of %.5f", wn.c_str(), sm.c_str(), Z[z] - 2.5 * log10(v));
      double fr = k < n ? v / tot : 1; if (tot > 0) MC_CHECK(fabs(atof(sfr.c_str()) - fr) <= 6e-6 + 1e-3 * fr * (fr < 1e-4), "fraction", "%s: fraction %s instead of %.8g", wn.c_str(), sfr.c_str(), fr);
      MC_CHECK(rest == (k < n ? labels[k] : ""), "label", "%s: label \"%s\" instead of \"%s\"", wn.c_str(), rest.c_str(), k < n ? labels[k].c_str() : ""); k++; }
    MC_CHECK(k == n + 1, "table", "%d lines in the table instead of %d", k, n + 1);
  }
  mc::count("transitions"); mc::state((mc::Hash()(ks)(z)(lab)(out)(est)(split)).h);
}

// every image function, alone and with every other one: backgrounds count nothing, point sources their total intensity, the rest the sum of their values
MC_PART(everyfunction) {
  const auto& ft = functable(); int a = mc::choose((int)ft.size()); mc::shard(); int b = mc::choose((int)ft.size() + 1) - 1, g = mc::choose(2), sub = mc::choose(2); static const int G[][2] = {{7, 4}, {3, 6}}; int xs = G[g][0], ys = G[g][1]; bool slow = ft[a].slow || (b >= 0 && ft[b].slow); if (slow && !mc::thorough() && (b >= 0 && (b % 7 || g || sub))) mc::prune(); if (!mc::thorough() && b >= 0 && g != sub) mc::prune();
  ModelObject m; m.SetVerboseLevel(-1); m.SetMaxThreads(1); vector<double> psf(25, 0.04); vector<string> nm = {ft[a].name}, lab = {""}; vector<int> st = {0}; vector<double> p = {3, 5}; p.insert(p.end(), ft[a].p.begin(), ft[a].p.end()); vector<int> fs = {a}; if (b >= 0) { nm.push_back(ft[b].name); lab.push_back(""); if (sub) { st.push_back(1); p.push_back(1.5); p.push_back(2.25); } p.insert(p.end(), ft[b].p.begin(), ft[b].p.end()); fs.push_back(b); }
  Capture c1, c2(2); m.AddPSFVector(25, 5, 5, psf.data(), true); m.SetupModelImage(6, 5); vector<std::map<string, string>> ex(nm.size()); int rc = AddFunctions(&m, nm, lab, st, sub, -1, ex); vector<double> fl(nm.size() + 1, -77), p0 = p; double t = rc ? 0 : m.FindTotalFluxes(p.data(), xs, ys, fl.data()), sum = 0, sc = 0; c2.done(); c1.done(); MC_CHECK(rc == 0, "add", "%s refused", ft[a].name); MC_CHECK(p == p0 && fl[nm.size()] == -77, "params-changed", "something else changed");
  for (size_t i = 0; i < nm.size(); i++) { string n = nm[i]; const vector<double>& q = ft[fs[i]].p; double w = NAN; if (n == "FlatSky" || n == "TiltedSkyPlane") w = 0; else if (n.find("PointSource") == 0) w = q.back(); else if (n != "Gaussian" && n != "Exponential" && n != "Sersic") { static std::map<string, double> known; string key = n + "|" + std::to_string(g) + std::to_string(sub); if (!known.count(key)) { std::unique_ptr<FunctionObject> o(makeFunction(n)); o->SetSubsampling(sub); vector<double> r = q; o->Setup(r.data(), 0, xs / 2.0, ys / 2.0); double v = 0; for (int y = 1; y <= ys; y++) for (int x = 1; x <= xs; x++) v += o->GetValue(x, y); known[key] = v; } w = known[key]; }
    if (!std::isnan(w)) MC_CHECK(mc::close(fl[i], w, 1e-9, 1e-12), "component:" + n, "flux of %s on %dx%d is %.12g instead of %.12g", nm[i].c_str(), xs, ys, fl[i], w); else { ModelObject k; k.SetVerboseLevel(-1); k.SetMaxThreads(1); Capture d1, d2(2); k.SetupModelImage(4, 4); vector<string> n1 = {n}, l1 = {""}; vector<int> s1 = {0}; vector<std::map<string, string>> e1(1); AddFunctions(&k, n1, l1, s1, false, -1, e1); vector<double> r = {1, 1}; r.insert(r.end(), q.begin(), q.end()); double one; k.FindTotalFluxes(r.data(), 50, 60, &one); d2.done(); d1.done(); MC_CHECK(mc::close(fl[i], one, 1e-12, 0), "analytic-depends", "flux of %s depends on the grid or on the other functions: %.12g, %.12g", n.c_str(), fl[i], one); }
    sum += fl[i]; sc += fabs(fl[i]); }
  MC_CHECK(fabs(t - sum) <= 1e-10 * sc, "total", "total flux %.12g, sum of the components %.12g", t, sum); mc::count("transitions"); mc::state((mc::Hash()(a)(b)(g)(sub)).h);
}
