// P24: names in a configuration file always build exactly the named functions.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include <memory>
#include <set>
#include <sstream>
#include "funclist.h"
#include "refmodel.h"
#include "functable.h"
#include "add_functions.h"
#include "capture.h"
static const vector<T>& table() { return functable(); }
static vector<string> words(const char* s) { std::istringstream is(s); vector<string> o; string w; while (is >> w) o.push_back(w); return o; }
static vector<string> cells(const char* s) { vector<string> o(1); for (; *s; s++) if (*s == '|') o.emplace_back(); else o.back() += *s; return o; }
static bool isPS(const T& t) { return !strncmp(t.name, "PointSource", 11); }
static vector<double> delta() { vector<double> v(30, 0.0); for (int i = 0; i < 30; i++) v[i] = 0.01 * ((i * 7) % 5); v[2 * 5 + 2] = 0; v[3 * 5 + 2] = 6; double s = 0; for (double x : v) s += x; for (double& x : v) x /= s; return v; }   // 5 x 6 pixels
// every list of names builds those functions, in order
MC_PART(lists) {
  int n = 1 + mc::choose(2), N = (int)table().size(); vector<int> ks; for (int i = 0; i < n; i++) { ks.push_back(mc::choose(N)); if (i == 0) mc::shard(); } if (n == 2 && mc::thorough() && mc::flip()) { ks.push_back(mc::choose(N)); n = 3; }
  vector<int> start = {0}; for (int i = 1; i < n; i++) if (mc::flip()) start.push_back(i); bool sub = mc::flip(), psf = false; int lab = mc::choose(2); for (int k : ks) psf |= isPS(table()[k]);
  const int c = 6, r = 5; vector<double> px = delta(); std::unique_ptr<ModelObject> m(new ModelObject()); m->SetVerboseLevel(-1); m->SetMaxThreads(1); if (psf) m->AddPSFVector(30, 5, 6, px.data(), false); m->SetupModelImage(c, r);
  vector<string> names, labels; vector<int> st = start; for (int i = 0; i < n; i++) { names.push_back(table()[ks[i]].name); labels.push_back(lab ? "label " + std::to_string(i) : ""); } vector<std::map<string, string>> ex; vector<string> n0 = names, l0 = labels;
  int rc = AddFunctions(m.get(), names, labels, st, sub, -1, ex); MC_CHECK(rc == 0, "refused", "%s: refused (%d)", n0[0].c_str(), rc); m->FinalModelSetup(); MC_CHECK(names == n0 && labels == l0 && st == start, "inputs", "inputs changed");
  vector<double> p; vector<string> pl; vector<int> at; vector<double> X0, Y0; int set = -1; for (int i = 0; i < n; i++) { for (int s : start) if (s == i) { set++; p.push_back(2.3 + 1.4 * set); p.push_back(3.1 - 1.2 * set); pl.push_back("X0"); pl.push_back("Y0"); } X0.push_back(2.3 + 1.4 * set); Y0.push_back(3.1 - 1.2 * set); at.push_back((int)p.size()); for (auto& w : words(table()[ks[i]].labels)) pl.push_back(w); for (double v : table()[ks[i]].p) p.push_back(v + 0.05 * i); }
  MC_CHECK(m->GetNFunctions() == n, "count", "%d functions instead of %d", m->GetNFunctions(), n); MC_CHECK(m->GetNParams() == (int)p.size(), "nparams", "%d parameters instead of %zu", m->GetNParams(), p.size());
  for (size_t i = 0; i < pl.size(); i++) MC_CHECK(m->GetParameterName(i) == pl[i], "labels", "parameter %zu is called %s instead of %s", i, m->GetParameterName(i).c_str(), pl[i].c_str());
  vector<string> fn, fl; m->GetFunctionNames(fn); MC_CHECK(fn == n0, "names", "function names differ: %s", fn.empty() ? "none" : fn[0].c_str()); m->GetFunctionLabels(fl); MC_CHECK(fl == l0, "function-labels", "function labels differ");
  vector<double> tot((size_t)c * r, 0); double sc = 1;
  for (int i = 0; i < n; i++) {
    std::unique_ptr<FunctionObject> o(makeFunction(n0[i])); MC_CHECK(o.get(), "class", "no class for %s", n0[i].c_str()); o->SetSubsampling(sub); PsfInterpolator_bicubic ip(px.data(), 5, 6); bool ps = isPS(table()[ks[i]]); if (ps) o->AddPsfInterpolator(&ip); vector<double> q(p.begin() + at[i], p.end()); o->Setup(q.data(), 0, X0[i], Y0[i]); vector<double> w((size_t)c * r);
    for (int y = 0; y < r; y++) for (int x = 0; x < c; x++) { double v = 0; if (psf && !ps) { for (int b = 0; b < 6; b++) for (int a = 0; a < 5; a++) if (px[b * 5 + a] != 0) v += px[b * 5 + a] * o->GetValue(x + 1 - (a - 2), y + 1 - (b - 3)); } else v = o->GetValue(x + 1, y + 1); w[y * c + x] = v; tot[y * c + x] += v; sc = std::max(sc, fabs(v)); }
    double* g = m->GetSingleFunctionImage(p.data(), i); cmpImage(g, w, c, sc, ("image:" + n0[i]).c_str(), "image of function " + std::to_string(i + 1) + " (" + n0[i] + ")"); }
  m->CreateModelImage(p.data()); cmpImage(m->GetModelImageVector(), tot, c, sc, "sum", "image of the model"); mc::count("transitions", n); mc::state((mc::Hash()(ks)(start)(sub)(lab)).h);
}
// anything else is refused
MC_PART(refused) {
  int N = (int)table().size(), k = mc::choose(N), how = mc::choose(14), pos = mc::choose(3), other = mc::choose(3); mc::shard(); const T& t = table()[k]; string nm = t.name; vector<std::map<string, string>> ex; bool psf = true, okName = false;
  switch (how) { case 0: for (auto& c : nm) c = tolower(c); break; case 1: nm += " "; break; case 2: nm = " " + nm; break; case 3: nm.pop_back(); break; case 4: nm += "X"; break; case 5: nm = ""; break; case 6: nm = nm.substr(1); break; case 7: nm += "\r"; break; case 8: nm += "_GenEllipse_"; break; case 9: for (auto& c : nm) c = toupper(c); break;
    default: { okName = true; bool ps = isPS(t); ex.resize(3); if (how == 10) ex[pos]["method"] = ps ? "nearest" : "bicubic"; if (how == 11) ex[pos][ps ? "meth" : "order"] = "lanczos2"; if (how == 12) { if (!ps) mc::prune(); psf = false; } if (how == 13) { if (ps) mc::prune(); ex[pos]["method"] = "lanczos3"; ex[pos]["zzz"] = "1"; } } }
  for (auto& u : table()) if (!okName && nm == u.name) mc::prune(); static const char* O[] = {"FlatSky", "Exponential", "Gaussian"}; vector<string> names(3, O[other]), labels(3, ""); names[pos] = nm; vector<int> st = {0}; vector<double> px = delta(); std::unique_ptr<ModelObject> m(new ModelObject()); m->SetVerboseLevel(-1); m->SetMaxThreads(1); if (psf) m->AddPSFVector(30, 5, 6, px.data(), false); m->SetupModelImage(4, 4);
  Capture err(2); int rc = AddFunctions(m.get(), names, labels, st, true, -1, ex); string e = err.done(); MC_CHECK(!e.empty(), "silent", "function \"%s\" (variation %d): nothing is reported", nm.c_str(), how);
  if (how == 11 && isPS(t)) { MC_CHECK(e.find("\"meth\"") != string::npos, "silent", "unknown optional parameter is not named"); rc = -1; }   // reported, then ignored
  MC_CHECK(rc < 0, "accepted:" + std::to_string(how), "function \"%s\" (variation %d, function %d of 3) accepted", nm.c_str(), how, pos + 1); if (!okName) { vector<string> v; MC_CHECK(GetFunctionParameterNames(nm, v) == -1 && v.empty(), "unknown-params", "parameter names returned for \"%s\"", nm.c_str()); } mc::count("transitions"); mc::state((mc::Hash()(k)(how)(pos)(other)).h);
}
// what is listed is what exists
MC_PART(inventory) {
  int k = mc::choose((int)table().size() + 2), twice = mc::choose(2); mc::shard(); int N = (int)table().size(); for (int rep = 0; rep <= twice; rep++) {
    if (k == N) { vector<string> v; GetFunctionNames(v); std::set<string> s(v.begin(), v.end()); MC_CHECK(s.size() == v.size() && (int)v.size() == N, "list", "%zu names listed, %d functions", v.size(), N); for (auto& t : table()) MC_CHECK(s.count(t.name), "list", "%s not listed", t.name); Capture cap; PrintAvailableFunctions(); string o = cap.done(); vector<string> got; for (auto& l : lines(o)) if (!l.empty() && l.back() != ':') got.push_back(l); MC_CHECK(got == v, "printed-list", "printed list differs from the names"); }
    else if (k == N + 1) { Capture cap; ListFunctionParameters(); string o = cap.done(); std::map<string, vector<std::pair<string, string>>> m; string cur; for (auto& l : lines(o)) { if (l.empty() || l.back() == ':') continue; if (l.substr(0, 9) == "FUNCTION ") { cur = l.substr(9); MC_CHECK(!m.count(cur), "printed-twice", "%s printed twice", cur.c_str()); m[cur]; } else { size_t h = l.find('#'); string a = l.substr(0, h); while (!a.empty() && isspace(a.back())) a.pop_back(); m[cur].push_back({a, h == string::npos ? "" : l.substr(h + 2)}); } }
      MC_CHECK((int)m.size() == N, "printed-parameters", "%zu functions printed instead of %d", m.size(), N); for (auto& t : table()) { vector<string> w = words(t.labels), u = cells(t.units); MC_CHECK(m.count(t.name) && m[t.name].size() == w.size(), "printed-parameters", "%s: parameters printed wrongly", t.name); for (size_t i = 0; i < w.size(); i++) MC_CHECK(m[t.name][i].first == w[i] && m[t.name][i].second == u[i], string("printed-parameters"), "%s: parameter %zu printed as \"%s\" [%s] instead of \"%s\" [%s]", t.name, i + 1, m[t.name][i].first.c_str(), m[t.name][i].second.c_str(), w[i].c_str(), u[i].c_str()); } }
    else { const T& t = table()[k]; string nm = t.name; vector<string> v; MC_CHECK(GetFunctionParameterNames(nm, v) == 0 && v == words(t.labels), "parameter-names", "%s: parameter names differ", t.name); MC_CHECK(v.size() == t.p.size(), "harness", "table"); std::unique_ptr<FunctionObject> o(makeFunction(nm)); MC_CHECK(o->GetShortName() == nm && o->GetNParams() == (int)v.size(), "class", "class of %s is called %s", t.name, o->GetShortName().c_str()); MC_CHECK(o->IsPointSource() == isPS(t) && o->IsBackground() == (nm == "FlatSky" || nm == "TiltedSkyPlane"), "kind", "%s: wrong kind", t.name); } }
  mc::count("transitions"); mc::state((mc::Hash()(k)(twice)).h);
}
