// P02: what is saved and printed after a fit is the fitted model.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include <memory>
#include <sstream>
#include <set>
#include "refmodel.h"
#include "functable.h"
#include "add_functions.h"
#include "config_file_parser.h"
#include "print_results.h"
#include "solver_results.h"
#include "definitions.h"
#include "capture.h"
static const char* KF[] = {"FlatSky", "Exponential", "PointSource", "Sersic", "PointSourceRot", "GaussianRing3D"};
struct M { std::unique_ptr<ModelObject> m; vector<string> names, labels; vector<int> start; vector<std::map<string, string>> opt; vector<double> p; vector<mp_par> lim; vector<int> kind; vector<double> px, data; int ox, oy; };   // kind: 0 X0, 1 Y0, 2 other
static const T& entry(const string& n) { for (auto& t : functable()) if (n == t.name) return t; mc::fail("harness", "no %s", n.c_str()); throw 1; }
static double wild(double v, int how, int i) { static const double W[] = {1, 0.123456789, 12345678.9, -3.25, 1e-7, 0, 1.0 / 3}; return how == 0 ? v : W[(i * 3 + how) % 7]; }
static void make(M& o, const vector<string>& names, const vector<int>& start, int lab, int ox, int oy, int values, const vector<std::map<string, string>>& opt) {
  o.m.reset(new ModelObject()); ModelObject* m = o.m.get(); m->SetVerboseLevel(-1); m->SetMaxThreads(1); o.names = names; o.start = start; o.opt = opt; o.ox = ox; o.oy = oy; bool ps = false; for (auto& n : names) ps |= n.substr(0, 5) == "Point";
  o.px = vector<double>(20, 0.25); o.px[9] = 3; if (ps) m->AddPSFVector(20, 4, 5, o.px.data(), false); for (int i = 0; i < 30; i++) o.data.push_back(3 + (i * 7) % 5); m->AddImageDataVector(o.data.data(), 6, 5); m->AddImageCharacteristics(1, 0, 1, 1, 0);
  for (size_t i = 0; i < names.size(); i++) o.labels.push_back(lab == 0 ? "" : lab == 1 ? "comp" + std::to_string(i) : i % 2 ? "" : "two words");
  MC_CHECK(AddFunctions(m, o.names, o.labels, o.start, true, -1, o.opt) == 0, "refused", "functions refused"); m->AddImageOffsets(ox, oy); m->FinalModelSetup(); int set = -1, q = 0;
  for (size_t i = 0; i < names.size(); i++) { for (int s : start) if (s == (int)i) { set++; for (int z = 0; z < 2; z++) { o.p.push_back((z ? 2.71828 : 3.14159) + (z ? -0.4 : 1.2) * set); o.kind.push_back(z); } } for (double v : entry(names[i]).p) { o.p.push_back(wild(v + 0.05 * i, values, q++)); o.kind.push_back(2); } }
  for (size_t i = 0; i < o.p.size(); i++) { mp_par x; memset(&x, 0, sizeof x); double w = o.kind[i] == 2 ? 1 + fabs(o.p[i]) : 2.5; if (i % 3 == 1) x.fixed = 1; else { x.limited[0] = x.limited[1] = 1; x.limits[0] = o.p[i] - w * 0.5; x.limits[1] = o.p[i] + w * 0.75; } o.lim.push_back(x); } m->AddParameterInfo(o.lim);
}
static bool num6(double got, double want) { return fabs(got - want) <= 5.1e-6 * fabs(want) + 1e-300; }
static void compare(const M& o, const string& file, const char* what, bool imfit, bool limits) {
  vector<string> n, l; vector<double> p; vector<mp_par> pl; vector<int> st; bool found = false; configOptions co; vector<std::map<string, string>> opt; Capture cap(2); int rc = imfit ? ReadConfigFile(file, true, n, l, p, pl, st, found, co, opt) : ReadConfigFile(file, true, n, l, p, st, co, opt); string err = cap.done(); mc::note("%s", slurp(file).c_str());
  MC_CHECK(rc == 0, string(what) + ":unreadable", "%s cannot be read back: %s", what, err.c_str()); MC_CHECK(n == o.names, string(what) + ":functions", "%s: functions differ (%zu, %s)", what, n.size(), n.empty() ? "" : n[0].c_str()); MC_CHECK(l == o.labels, string(what) + ":labels", "%s: label \"%s\" instead of \"%s\"", what, l.empty() ? "" : l[0].c_str(), o.labels[0].c_str()); MC_CHECK(st == o.start, string(what) + ":sets", "%s: function sets differ", what); MC_CHECK(p.size() == o.p.size(), string(what) + ":count", "%s: %zu parameters instead of %zu", what, p.size(), o.p.size());
  for (size_t i = 0; i < o.names.size(); i++) { std::map<string, string> want = i < o.opt.size() ? o.opt[i] : std::map<string, string>(), got = i < opt.size() ? opt[i] : std::map<string, string>(); MC_CHECK(got == want, string(what) + ":optional", "%s: optional parameters of function %zu differ", what, i + 1); }
  for (size_t i = 0; i < p.size(); i++) { double w = o.p[i] + (o.kind[i] == 0 ? o.ox : o.kind[i] == 1 ? o.oy : 0); bool ok = o.kind[i] == 2 ? num6(p[i], w) : fabs(p[i] - w) <= 5.1e-5; MC_CHECK(ok, string(what) + (o.kind[i] == 2 ? ":value" : ":centre"), "%s: parameter %zu is %.12g instead of %.12g", what, i + 1, p[i], w); }
  if (limits) { MC_CHECK(found && pl.size() == p.size(), string(what) + ":nolimits", "%s: limits lost", what); for (size_t i = 0; i < p.size(); i++) { int off = o.kind[i] == 0 ? o.ox : o.kind[i] == 1 ? o.oy : 0; MC_CHECK((pl[i].fixed == 1) == (o.lim[i].fixed == 1), string(what) + ":fixed", "%s: parameter %zu fixed flag changed", what, i + 1); if (!pl[i].fixed) for (int z = 0; z < 2; z++) { double w = o.lim[i].limits[z] + off; MC_CHECK(pl[i].limited[z] == 1 && num6(pl[i].limits[z], w), string(what) + (o.kind[i] == 2 ? ":limits" : ":centre-limits"), "%s: limit %d of parameter %zu (%s) is %.12g instead of %.12g", what, z, i + 1, o.kind[i] == 2 ? "function" : "centre", pl[i].limits[z], w); } } }
}
static vector<string> words(const string& s) { std::istringstream is(s); vector<string> o; string w; while (is >> w) o.push_back(w); return o; }
static double after(const string& t, const string& key, const char* what) { size_t i = t.find(key); MC_CHECK(i != string::npos, string("missing:") + what, "no \"%s\" in the %s", key.c_str(), what); return atof(t.c_str() + i + key.size()); }
static bool num_f(double a, double w) { return (std::isnan(a) && std::isnan(w)) || a == w || fabs(a - w) <= 6e-7 + 1e-12 * fabs(w); }
static void pickModel(M& o, bool small) {
  int n = 1 + mc::choose(small ? mc::tier(1, 2) : mc::tier(2, 3)); vector<string> names; vector<int> start; vector<std::map<string, string>> opt(n); bool any = false; for (int i = 0; i < n; i++) { int k = mc::choose(6); names.push_back(KF[k]); if (i == 0) mc::shard(); if (k == 2 || k == 4) { int m = mc::choose(3); if (m) { opt[i]["method"] = m == 1 ? "lanczos2" : "lanczos3"; any = true; } } if (i == 0 || mc::flip()) start.push_back(i); }
  if (!any && mc::flip()) opt.clear(); static const int O[][2] = {{0, 0}, {7, 11}, {100, 0}, {4000, 12345}}; int q = small ? mc::choose(2) : n > 1 && !mc::thorough() ? 1 + mc::choose(2) : mc::choose(4); make(o, names, start, mc::choose(small ? 1 : 3), O[q][0], O[q][1], mc::choose(small ? 2 : n > 1 && !mc::thorough() ? 2 : n > 2 ? 3 : 7), opt);
}
// every saved form, read back
MC_PART(roundtrip) {
  M o; pickModel(o, false); int form = mc::choose(4), solver = (const int[]){MPFIT_SOLVER, DIFF_EVOLN_SOLVER, NMSIMPLEX_SOLVER}[form == 0 ? mc::choose(3) : 0]; string f = mc::scratch() + "/saved.dat"; vector<string> head = {"# head", "# X0 1", "# FUNCTION Nonsense"}; vector<double> p0 = o.p; SolverResults sr; sr.SetSolverType(solver); o.m->FinalSetupForFitting();
  if (form <= 1) { unlink(f.c_str()); if (form == 1) { vector<double> e; for (size_t i = 0; i < o.p.size(); i++) e.push_back(i % 3 ? 0.0123 * i : 0); sr.StoreErrors(e.data(), e.size()); } SaveParameters(o.p.data(), o.m.get(), f, head, 3, solver, 1, sr); }
  else if (form == 2) { spit(f, "garbage that must not survive\n"); FILE* fp = fopen(f.c_str(), "w"); vector<string> h2 = head; SaveParameters2(fp, o.p.data(), o.m.get(), h2, "#"); fclose(fp); string t = slurp(f); for (auto& l : lines(t)) MC_CHECK(l.empty() || l[0] == '#', "prefix", "a line of the commented model is not a comment: %s", l.c_str()); size_t a = t.find("Nonsense\n"); string body = t.substr(a + 9), out; for (auto& l : lines(body)) out += (l.empty() ? l : l.substr(1)) + "\n"; spit(f, out); }
  else { vector<string> v; MC_CHECK(o.m->PrintModelParamsToStrings(v, o.p.data(), nullptr, "", true) == 0, "status", "listing with limits failed"); string t; for (auto& l : v) t += l; spit(f, t); }
  MC_CHECK(o.p == p0, "changed", "the parameters changed"); const char* what = form == 0 ? "saved parameters" : form == 1 ? "saved parameters with errors" : form == 2 ? "commented model" : "listing with limits";
  compare(o, f, what, false, false); compare(o, f, what, true, form == 3); mc::count("transitions", 2); mc::state((mc::Hash()((int)o.names.size())(o.start)(o.p)(o.ox)(form)(solver)((int)o.opt.size())(o.labels[0])(o.names[0])(o.names.back())).h);
}
// the one-line forms
MC_PART(columns) {
  M o; pickModel(o, false); string h = o.m->GetParamHeader(), v = o.m->PrintModelParamsHorizontalString(o.p.data()), v2 = o.m->PrintModelParamsHorizontalString(o.p.data(), " , "); mc::note("%s\n%s", h.c_str(), v.c_str());
  MC_CHECK(h.substr(0, 2) == "# ", "header", "header does not start with #"); vector<string> hw = words(h.substr(2)), vw; { string c; for (char ch : v) if (ch == '\t') { vw.push_back(c); c.clear(); } else c += ch; vw.push_back(c); } MC_CHECK(hw.size() == o.p.size() && vw.size() == o.p.size(), "columns", "%zu names and %zu values for %zu parameters", hw.size(), vw.size(), o.p.size());
  std::set<string> u(hw.begin(), hw.end()); MC_CHECK(u.size() == hw.size(), "unique", "column names are not unique"); int set = 0; size_t j = 0; for (size_t i = 0; i < o.names.size(); i++) { for (int s : o.start) if (s == (int)i) { set++; MC_CHECK(hw[j] == "X0_" + std::to_string(set) && hw[j + 1] == "Y0_" + std::to_string(set), "centre-names", "columns %zu,%zu are called %s,%s", j, j + 1, hw[j].c_str(), hw[j + 1].c_str()); j += 2; } for (auto& w : words(entry(o.names[i]).labels)) { MC_CHECK(hw[j] == w + "_" + std::to_string(i + 1), "names", "column %zu is called %s", j, hw[j].c_str()); j++; } }
  string want2; for (size_t i = 0; i < vw.size(); i++) { double w = o.p[i] + (o.kind[i] == 0 ? o.ox : o.kind[i] == 1 ? o.oy : 0), g = atof(vw[i].c_str()); MC_CHECK(fabs(g - w) <= 5.1e-10 * fabs(w), "values", "column %zu is %s instead of %.12g", i, vw[i].c_str(), w); want2 += (i ? " , " : "") + vw[i]; } MC_CHECK(v2 == want2, "separator", "other separator: %s", v2.c_str()); mc::count("transitions"); mc::state((mc::Hash()(h)(v)).h);
}
// the summary: statistic, reduced value, AIC, BIC, algorithm
MC_PART(summary) {
  M o; pickModel(o, true); int stat = mc::choose(4), solver = (const int[]){MPFIT_SOLVER, DIFF_EVOLN_SOLVER, NMSIMPLEX_SOLVER, GENERIC_NLOPT_SOLVER}[mc::choose(4)], nfree = 1 + 3 * mc::choose(3), masked = mc::choose(2), best = mc::choose(3); int fs = (const int[]){1, 4, 5, 100}[solver == MPFIT_SOLVER || solver == DIFF_EVOLN_SOLVER ? mc::choose(4) : mc::choose(3)]; ModelObject* m = o.m.get(); vector<double> mask(30, 0), err(30, 2);
  if (stat == 1) m->AddErrorVector(30, 6, 5, err.data(), WEIGHTS_ARE_SIGMAS); if (stat == 2) m->UseCashStatistic(); if (stat == 3) m->UsePoissonMLR(); if (masked) { mask[4] = mask[17] = mask[29] = 1; m->AddMaskVector(30, 6, 5, mask.data(), MASK_ZERO_IS_GOOD); } m->FinalSetupForFitting(); double fit = m->GetFitStatistic(o.p.data()); long nv = 30 - 3 * masked; MC_CHECK(m->GetNValidPixels() == nv, "valid", "%ld valid pixels", m->GetNValidPixels());
  double aic = fit + 2 * nfree + 2.0 * nfree * (nfree + 1) / (nv - nfree - 1), bic = fit + nfree * log((double)nv); SolverResults sr; sr.SetSolverType(solver); sr.StoreNFunctionEvals(321); sr.StoreBestfitStatisticValue(fit + (best == 2 ? 5 : 0)); mp_result mr; memset(&mr, 0, sizeof mr); mr.bestnorm = fit; mr.orignorm = 2 * fabs(fit) + 17.5; mr.npar = o.p.size(); mr.nfree = nfree; mr.npegged = 1; mr.niter = 12; mr.nfev = 345; vector<double> e(o.p.size()); for (size_t i = 0; i < e.size(); i++) e[i] = 0.001 * (i + 1); if (solver == MPFIT_SOLVER) { sr.AddMPResults(mr); sr.StoreErrors(e.data(), e.size()); }
  string f = mc::scratch() + "/saved.dat"; vector<string> head; SaveParameters(o.p.data(), m, f, head, nfree, solver, fs, sr); string t = slurp(f); mc::note("%s", t.c_str());
  MC_CHECK(num_f(after(t, "Best-fit value: ", "file"), fit), "file:statistic", "saved statistic differs from %f", fit); MC_CHECK(num_f(after(t, "#   AIC: ", "file"), aic), "file:aic", "saved AIC differs from %f", aic); MC_CHECK(num_f(after(t, "#   BIC: ", "file"), bic), "file:bic", "saved BIC differs from %f", bic); if (stat == 2) MC_CHECK(t.find("Reduced value: none") != string::npos, "file:reduced", "reduced Cash statistic"); else MC_CHECK(num_f(after(t, "Reduced value: ", "file"), fit / (nv - nfree)), "file:reduced", "saved reduced statistic differs from %f", fit / (nv - nfree));
  static const char* SN[] = {"chi-squared (data-based errors)", "chi-squared (user-supplied errors)", "Cash statistic", "Poisson-MLR statistic"}; MC_CHECK(t.find(string("Fit statistic: ") + SN[stat] + "\n") != string::npos, "file:name", "statistic is not called %s", SN[stat]);
  size_t ai = t.find("Algorithm: "); MC_CHECK(ai != string::npos, "file:algorithm", "no algorithm"); string al = t.substr(ai + 11, t.find('\n', ai) - ai - 11); const char* AN = solver == MPFIT_SOLVER ? "Levenberg-Marquardt" : solver == DIFF_EVOLN_SOLVER ? "Differential Evolution" : solver == NMSIMPLEX_SOLVER ? "Nelder-Mead Simplex" : "NLOpt"; MC_CHECK(al.find(AN) != string::npos, "file:algorithm", "algorithm \"%s\"", al.c_str()); if (solver <= 1 || solver == MPFIT_SOLVER || solver == DIFF_EVOLN_SOLVER) MC_CHECK(al.find("status = " + std::to_string(fs)) != string::npos, "file:status", "status %d not in \"%s\"", fs, al.c_str());
  Capture cap; PrintResults(o.p.data(), m, nfree, fs, sr, best == 1); string s = cap.done(); double shown = solver != MPFIT_SOLVER && best == 2 ? fit + 5 : fit; const char* PN[] = {"CHI-SQUARE = ", "CHI-SQUARE = ", "CASH STATISTIC = ", "POISSON-MLR STATISTIC = "}; mc::note("%s", s.c_str());
  MC_CHECK(num_f(after(s, string("  ") + PN[stat], "summary"), shown), "summary:statistic", "printed statistic differs from %f", shown); MC_CHECK(num_f(after(s, "AIC = ", "summary"), aic + shown - fit), "summary:aic", "printed AIC differs"); MC_CHECK(num_f(after(s, "BIC = ", "summary"), bic + shown - fit), "summary:bic", "printed BIC differs"); if (stat == 2) MC_CHECK(s.find("Reduced") == string::npos, "summary:reduced", "reduced Cash statistic printed"); else MC_CHECK(num_f(after(s, stat == 3 ? "Reduced Chi^2 equivalent = " : "Reduced Chi^2 = ", "summary"), shown / (nv - nfree)), "summary:reduced", "printed reduced statistic differs");
  MC_CHECK((int)after(s, "NFEV = ", "summary") == (solver == MPFIT_SOLVER ? 345 : 321), "summary:nfev", "wrong number of evaluations"); if (solver == MPFIT_SOLVER) { MC_CHECK((size_t)after(s, "NPAR = ", "summary") == o.p.size() && (int)after(s, "NFREE = ", "summary") == nfree && (int)after(s, "NPEGGED = ", "summary") == 1 && (int)after(s, "NITER = ", "summary") == 12, "summary:counts", "wrong numbers"); MC_CHECK(num_f(after(s, stat < 2 ? "INITIAL CHI^2 = " : stat == 2 ? "INITIAL CASH STATISTIC = " : "INITIAL POISSON-MLR STATISTIC = ", "summary"), mr.orignorm), "summary:initial", "wrong initial statistic"); }
  string model = s.substr(s.find("AIC = ")); model = model.substr(model.find('\n')); spit(f, model); compare(o, f, "printed model", false, false); Capture c2; PrintFitStatistic(o.p.data(), m, nfree); s = c2.done(); MC_CHECK(num_f(after(s, string("  ") + PN[stat], "statistic"), fit) && num_f(after(s, "AIC = ", "statistic"), aic) && num_f(after(s, "BIC = ", "statistic"), bic), "statistic", "printed statistic differs"); mc::count("transitions", 3); mc::state((mc::Hash()(t)(s)(best)(fs)).h);
}
// how the solver ended: every status of every solver, in the saved file and (Levenberg-Marquardt) in the printed summary
void GetSolverSummary(int status, int solverID, string& outputString);
MC_PART(status) {
  struct S { int solver, code; const char *kind, *words; };
  static const vector<S> all = [] { vector<S> v; int M = MPFIT_SOLVER, D = DIFF_EVOLN_SOLVER, N = NMSIMPLEX_SOLVER, G = GENERIC_NLOPT_SOLVER;
    v = {{M, 0, "E", "input"}, {M, -16, "E", "non-finite"}, {M, -17, "E", "no user function"}, {M, -18, "E", "data points"}, {M, -19, "E", "free parameters"}, {M, -20, "E", "memory"}, {M, -21, "E", "initial values"}, {M, -22, "E", "constraints"}, {M, -23, "E", "parameter"}, {M, -24, "E", "degrees of freedom"},
      {M, 1, "S", "fit-statistic"}, {M, 2, "S", "parameter"}, {M, 3, "S", "fit-statistic and parameter"}, {M, 4, "S", "orthogonality"}, {M, 5, "T", "maximum number of iterations"}, {M, 6, "T", "ftol"}, {M, 7, "T", "xtol"}, {M, 8, "T", "gtol"}, {M, 100, "T", "interrupt"}, {D, 1, "S", "fit-statistic"}, {D, 5, "T", "maximum generation"}};
    for (int s : {N, G}) for (auto& x : vector<S>{{s, -1, "E", "unspecified"}, {s, -2, "E", "invalid arguments"}, {s, -3, "E", "memory"}, {s, -4, "E", "roundoff"}, {s, -5, "E", "forced termination"}, {s, 1, "S", "unspecified"}, {s, 2, "S", "stopval"}, {s, 3, "S", "ftol"}, {s, 4, "S", "xtol"}, {s, 5, "T", "maximum number of function evaluations"}, {s, 6, "T", "maximum time"}}) v.push_back(x);
    return v; }();
  auto lower = [](string s) { for (auto& c : s) c = tolower(c); return s; };
  int a = mc::choose((int)all.size()), b = mc::choose((int)all.size()); const S &x = all[a], &y = all[b]; string before, t, u; GetSolverSummary(y.code, y.solver, before); GetSolverSummary(x.code, x.solver, t); mc::note("%d/%d: %s", x.solver, x.code, t.c_str());
  auto judge = [&](const string& s, const char* w) { size_t at = s.find("status = "); MC_CHECK(at != string::npos && atoi(s.c_str() + at + 9) == x.code, "status:number", "%s: status %d is not in \"%s\"", w, x.code, s.c_str()); bool e = s.find("ERROR") != string::npos, ok = s.find("SUCCESS") != string::npos; MC_CHECK(e == (x.kind[0] == 'E') && ok == (x.kind[0] == 'S'), "status:outcome", "%s: status %d is reported as \"%s\"", w, x.code, s.c_str()); MC_CHECK(lower(s).find(x.words) != string::npos, "status:reason", "%s: status %d is reported as \"%s\", without \"%s\"", w, x.code, s.c_str(), x.words); };
  judge(t, "summary"); MC_CHECK(t.compare(0, 11, "Algorithm: ") == 0, "status:algorithm", "\"%s\"", t.c_str()); if (a != b) MC_CHECK(t != before, "status:distinct", "two different endings are reported with the same words: \"%s\"", t.c_str());
  if (b == 0) { vector<string> n = {"FlatSky"}; M o; make(o, n, {0}, 0, 0, 0, 0, {{}}); o.m->FinalSetupForFitting(); SolverResults sr; sr.SetSolverType(x.solver); mp_result mr; memset(&mr, 0, sizeof mr); mr.npar = o.p.size(); vector<double> e(o.p.size(), 0.1); if (x.solver == MPFIT_SOLVER) { sr.AddMPResults(mr); sr.StoreErrors(e.data(), e.size()); } string f = mc::scratch() + "/saved.dat"; vector<string> head; SaveParameters(o.p.data(), o.m.get(), f, head, 1, x.solver, x.code, sr); u = slurp(f); size_t ai = u.find("Algorithm: "); MC_CHECK(ai != string::npos, "status:file", "no algorithm in the saved file"); judge(u.substr(ai, u.find('\n', ai) - ai), "saved file");
    Capture cap; PrintResults(o.p.data(), o.m.get(), 1, x.code, sr, false); string s = cap.done(); if (x.solver == MPFIT_SOLVER) { size_t i = s.find("mpfit status = "); MC_CHECK(i != string::npos, "status:printed", "no status in the printed summary"); judge(s.substr(i, s.find('\n', i) - i), "printed"); } }
  mc::count("transitions", 2); mc::state((mc::Hash()(t)(a)).h);
}
