// P19: multi-image models: every image gets its own and the shared parameters.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include <cmath>
#include <memory>
#include <set>
#include "capture.h"
#include "funclist.h"
#include "functable.h"
#include "model_object.h"
#include "model_object_multimage.h"
#include "utilities_multimfit.h"
#include "print_results_multi.h"
#include "definitions_multimage.h"
#include "add_functions.h"
#include "paramvector_processing.h"
#include "param_holder.h"
#include "solver_results.h"
using std::string; using std::vector;
typedef vector<int> Set; typedef vector<Set> Sets;          // a function set is a list of kinds: 0 Gaussian, 1 Exponential, 2 FlatSky
static const char* KN[] = {"Gaussian", "Exponential", "FlatSky"}; static const int KP[] = {4, 4, 1};
static const vector<vector<string>> LAB = {{"PA", "ell", "I_0", "sigma"}, {"PA", "ell", "I_0", "h"}, {"I_sky"}};
static const vector<Sets>& globals() { static const vector<Sets> g = {{{0}}, {{2}}, {{0}, {1}}, {{1, 2}, {0}}, {{0, 1}, {2, 0}, {1}}, {{2, 0}, {1}, {0}, {2}}}; return g; }
static const vector<Sets>& locals() { static const vector<Sets> l = {{}, {{2}}, {{1}}, {{0, 2}}, {{1}, {2, 0}}}; return l; }
struct Par { double v; int image; char axis; };
struct IP { double pix, rot, flux, x0, y0; };
struct World {
  int N = 1, mode = 0; Sets g; vector<Sets> l; vector<std::pair<int, int>> off, dim; vector<IP> ip; bool masked = false;
  vector<double> params;      // in image-section coordinates, as handed to the model
  vector<vector<double>> data; vector<std::unique_ptr<vector<double>>> pool; std::unique_ptr<ModelObjectMultImage> mm; vector<ModelObject*> m; int nGlobal = 0;
  vector<string> colNames;
};
static int npars(const Sets& s) { int n = 0; for (auto& a : s) { n += 2; for (int k : a) n += KP[k]; } return n; }
static void fill(vector<double>& o, const Sets& s, double seed) {
  int c = 0; for (auto& a : s) { c++; o.push_back(2.2 + 0.7 * c + seed * 0.3); o.push_back(3.1 - 0.4 * c + seed * 0.2); for (int k : a) { c++; if (k < 2) { o.push_back(15 + 31 * c + seed * 7); o.push_back(0.1 + 0.08 * (c % 5)); o.push_back(10 + 2 * c + seed); o.push_back(1.1 + 0.3 * (c % 4) + 0.1 * seed); } else o.push_back(1.5 + 0.5 * c + seed); } }
}
static void add(ModelObject* m, const Sets& g, const Sets& l) {
  vector<string> nm, lb; vector<int> st; vector<bool> gl; vector<std::map<string, string>> ex;
  for (int pass = 0; pass < 2; pass++) for (auto& a : (pass ? l : g)) { st.push_back((int)nm.size()); for (int k : a) { nm.push_back(KN[k]); lb.push_back(""); gl.push_back(pass == 0); } }
  int s = AddFunctions(m, nm, lb, st, false, -1, ex, gl); MC_CHECK(s == 0, "add", "AddFunctions returns %d", s); m->FinalModelSetup();
}
static ModelObject* single(World& w, int i, const Sets& l) {
  ModelObject* m = new ModelObject(); m->SetVerboseLevel(-1); m->SetMaxThreads(1);
  vector<double>& dt = *new vector<double>(w.data[i]); w.pool.emplace_back(&dt); m->AddImageDataVector(dt.data(), w.dim[i].first, w.dim[i].second); m->AddImageCharacteristics(2.0, 3.0, 1.0, 1, 0.5); m->AddImageOffsets(w.off[i].first, w.off[i].second); m->AddDataFilename("im" + std::to_string(i) + ".fits");
  if (w.masked && i == w.N - 1) { vector<double>& mk = *new vector<double>(dt.size(), 0); w.pool.emplace_back(&mk); for (size_t k = 0; k < mk.size(); k++) mk[k] = k % 5 == 2; m->AddMaskVector((long)mk.size(), w.dim[i].first, w.dim[i].second, mk.data(), MASK_ZERO_IS_GOOD); }
  if (w.mode == 1) m->UseModelErrors(); if (w.mode == 2) m->UseCashStatistic(); if (w.mode == 3) m->UsePoissonMLR();
  add(m, w.g, l); return m;
}
static void makeData(World& w) { w.data.clear(); for (int i = 0; i < w.N; i++) { vector<double> d; int n = w.dim[i].first * w.dim[i].second; for (int k = 0; k < n; k++) d.push_back(5 + ((k * 7 + i * 3) % 11) * 1.5); w.data.push_back(d); } }
static void build(World& w) {
  makeData(w); w.mm.reset(new ModelObjectMultImage()); w.mm->SetVerboseLevel(-1); w.mm->SetMaxThreads(1);
  for (int i = 0; i < w.N; i++) { ModelObject* m = single(w, i, w.l[i]); w.m.push_back(m); w.mm->AddModelObject(m); }
  add(w.mm.get(), w.g, {}); if (w.mode == 2) w.mm->UseCashStatistic(); if (w.mode == 3) w.mm->UsePoissonMLR();
  w.nGlobal = npars(w.g); int n = 5 * (w.N - 1) + w.nGlobal; for (auto& l : w.l) n += npars(l);
  MC_CHECK(w.mm->GetNParams() == n, "count", "%d parameters, should be %d", w.mm->GetNParams(), n);
}
static vector<double> vec(const World& w, double seed) {
  vector<double> p; for (int i = 1; i < w.N; i++) { const IP& q = w.ip[i]; for (double v : {q.pix, q.rot, q.flux, q.x0 + 0.1 * seed, q.y0 - 0.05 * seed}) p.push_back(v); }
  fill(p, w.g, seed); for (int i = 0; i < w.N; i++) fill(p, w.l[i], seed + 2 + i); return p;
}
// the parameters image i ought to see (fully transformed), from the whole vector
static vector<double> own(const World& w, const vector<double>& p, int i) {
  size_t at = 5 * (w.N - 1); vector<double> o(p.begin() + at, p.begin() + at + w.nGlobal); at += w.nGlobal; for (int k = 0; k < i; k++) at += npars(w.l[k]);
  if (i > 0) {
    const double* q = &p[5 * (i - 1)]; double pix = q[0], rot = q[1], fl = q[2], a = rot * M_PI / 180, rx = o[0], ry = o[1]; size_t k = 0;
    for (auto& s : w.g) { double dx = o[k] - rx, dy = o[k + 1] - ry; o[k] = q[3] + (dx * cos(a) + dy * sin(a)) / pix; o[k + 1] = q[4] + (-dx * sin(a) + dy * cos(a)) / pix; k += 2; for (int f : s) { if (f < 2) { o[k] -= rot; o[k + 2] *= fl; o[k + 3] /= pix; k += 4; } else o[k++] *= fl; } }
  }
  o.insert(o.end(), p.begin() + at, p.begin() + at + npars(w.l[i])); return o;
}
static const IP IPS[] = {{1, 0, 1, 2.5, 2.0}, {2, 0, 1, 1.5, 2.5}, {1, 90, 1, 2, 3}, {1, 0, 2.5, 3, 2}, {0.5, -30, 0.5, 2.25, 2.75}, {1.5, 200, 3, 1, 1}};
static void chooseWorld(World& w, int maxN, bool stats) {
  w.N = 1 + mc::choose(maxN); w.g = globals()[mc::choose((int)globals().size())]; mc::shard();
  for (int i = 0; i < w.N; i++) { w.l.push_back(locals()[mc::choose(w.N > 2 && !mc::thorough() ? 3 : (int)locals().size())]); w.dim.push_back({5 + i, 6 - i}); w.off.push_back({0, 0}); w.ip.push_back(IPS[i == 0 ? 0 : i == 1 ? mc::choose(6) : (i * 3 + 1) % 6]); }
  if (stats) { w.mode = mc::choose(4); w.masked = mc::choose(2); }
}
static uint64_t H(const World& w) { mc::Hash h; h(w.N)(w.mode)(w.masked); for (auto& a : w.g) { h(-1); for (int k : a) h(k); } for (auto& l : w.l) { h(-3); for (auto& a : l) { h(-2); for (int k : a) h(k); } } for (auto& q : w.ip) h((int)(q.pix * 10))((int)q.rot)((int)(q.flux * 10)); for (auto& o : w.off) h(o.first)(o.second); return h.h; }
static string D(const World& w) { string s = std::to_string(w.N) + " images, global {"; for (auto& a : w.g) { s += "["; for (int k : a) s += KN[k][0]; s += "]"; } s += "}"; for (int i = 0; i < w.N; i++) { s += " local" + std::to_string(i + 1) + "{"; for (auto& a : w.l[i]) { s += "["; for (int k : a) s += KN[k][0]; s += "]"; } s += "}"; if (i) { char b[80]; snprintf(b, sizeof b, "(pix %g rot %g flux %g off %d,%d)", w.ip[i].pix, w.ip[i].rot, w.ip[i].flux, w.off[i].first, w.off[i].second); s += b; } } return s; }

MC_PART(images) {          // model images, statistics and deviates against independent single-image models
  World w; chooseWorld(w, mc::tier(3, 4), true); int order = mc::choose(2); build(w); mc::state(mc::Hash()(H(w))(order).h); mc::note("%s", D(w).c_str());
  int st = w.mm->FinalSetupForFitting(); MC_CHECK(st == 0, "refused", "FinalSetupForFitting returns %d", st);
  vector<double> P[2] = {vec(w, 0), vec(w, 1.3)};
  for (int t = 0; t < 2; t++) {
    vector<double>& p = P[order ? 1 - t : t]; vector<double> keep = p; double want = 0; vector<vector<double>> dev; vector<vector<double>> imgs;
    for (int i = 0; i < w.N; i++) {
      std::unique_ptr<ModelObject> r(single(w, i, w.l[i])); r->FinalSetupForFitting(); vector<double> o = own(w, p, i); r->CreateModelImage(o.data()); int n = (int)w.data[i].size(); double* v = r->GetModelImageVector(); imgs.push_back(vector<double>(v, v + n));
      want += r->GetFitStatistic(o.data()); vector<double> d(n); r->ComputeDeviates(d.data(), o.data()); dev.push_back(d);
    }
    mc::count("transitions", 3); w.mm->CreateAllModelImages(p.data());
    for (int i = 0; i < w.N; i++) { double* v = w.mm->GetModelImageVector(i); MC_CHECK(v, "null", "no image"); for (size_t k = 0; k < imgs[i].size(); k++) MC_CHECK(mc::close(v[k], imgs[i][k], 1e-9, 1e-12), "image", "image %d: pixel %d is %.12g, should be %.12g", i + 1, (int)k, v[k], imgs[i][k]); }
    double s = w.mm->GetFitStatistic(p.data()); MC_CHECK(mc::close(s, want, 1e-9, 1e-9), "statistic", "mode %d: combined statistic is %.12g, the images' statistics sum to %.12g", w.mode, s, want);
    long nd = w.mm->GetNDataValues(); size_t tot = 0; for (auto& d : dev) tot += d.size(); MC_CHECK(nd == (long)tot, "ndata", "%ld data values, should be %d", nd, (int)tot);
    vector<double> y(tot, NAN); w.mm->ComputeDeviates(y.data(), p.data()); size_t q = 0; for (int i = 0; i < w.N; i++) for (size_t k = 0; k < dev[i].size(); k++, q++) MC_CHECK(mc::close(y[q], dev[i][k], 1e-9, 1e-10), "deviates", "mode %d image %d: deviate %d is %.12g, should be %.12g", w.mode, i + 1, (int)k, y[q], dev[i][k]);
    for (size_t k = 0; k < p.size(); k++) MC_CHECK(p[k] == keep[k], "params-changed", "parameter %d changed", (int)k);
  }
  long nv = 0; for (int i = 0; i < w.N; i++) for (size_t k = 0; k < w.data[i].size(); k++) nv += !(w.masked && i == w.N - 1 && k % 5 == 2); MC_CHECK(w.mm->GetNValidPixels() == nv, "nvalid", "%ld valid pixels, should be %ld", w.mm->GetNValidPixels(), nv);
}
static const std::pair<int, int> OFFS[] = {{0, 0}, {7, 3}, {0, 11}};
static void names(World& w) { w.colNames.clear(); for (int i = 1; i < w.N; i++) for (auto s : {"PIXEL_SCALE", "ROTATION", "FLUX_SCALE", "X0", "Y0"}) w.colNames.push_back(s); for (int pass = -1; pass < w.N; pass++) for (auto& a : (pass < 0 ? w.g : w.l[pass])) { w.colNames.push_back("X0"); w.colNames.push_back("Y0"); for (int k : a) for (auto& s : LAB[k]) w.colNames.push_back(s); } }
// what each column is: which image's offset applies, on which axis
static vector<Par> layout(const World& w) {
  vector<Par> v; for (int i = 1; i < w.N; i++) { for (int k = 0; k < 3; k++) v.push_back({0, -1, 0}); v.push_back({0, i, 'x'}); v.push_back({0, i, 'y'}); }
  for (int pass = -1; pass < w.N; pass++) for (auto& a : (pass < 0 ? w.g : w.l[pass])) { int im = pass < 0 ? 0 : pass; v.push_back({0, im, 'x'}); v.push_back({0, im, 'y'}); for (int k : a) for (int q = 0; q < KP[k]; q++) v.push_back({0, -1, 0}); } return v;
}
static double offOf(const World& w, const Par& c) { return c.image < 0 ? 0 : c.axis == 'x' ? w.off[c.image].first : w.off[c.image].second; }
static vector<string> split(const string& s, const char* sep) { vector<string> v; size_t a = 0; while (a < s.size()) { size_t b = s.find_first_of(sep, a); if (b == string::npos) b = s.size(); if (b > a) v.push_back(s.substr(a, b - a)); a = b + 1; } return v; }
static void chooseOff(World& w) { for (int i = 0; i < w.N; i++) w.off[i] = OFFS[mc::choose(i < 2 ? 3 : 2)]; }
MC_PART(offsets) {         // parameter names, image-section offsets of values and limits, tables of columns
  World w; chooseWorld(w, mc::tier(3, 4), false); if (w.N > 1 && !(w.ip[1].pix == 1 && w.ip[1].rot == 90)) { mc::prune(); return; } chooseOff(w); int lim = mc::choose(4);
  build(w); mc::state(mc::Hash()(H(w))(lim).h); mc::note("%s", D(w).c_str()); names(w); vector<Par> c = layout(w); vector<double> p = vec(w, 0.5); int n = (int)p.size();
  for (int k = 0; k < n; k++) MC_CHECK(w.mm->GetParameterName(k) == w.colNames[k], "name", "parameter %d is called %s, should be %s", k, w.mm->GetParameterName(k).c_str(), w.colNames[k].c_str());
  vector<mp_par> L(n); for (int k = 0; k < n; k++) { memset(&L[k], 0, sizeof(mp_par)); if (lim & 1) { L[k].limited[0] = 1; L[k].limits[0] = p[k] - 3; } if (lim & 2) { L[k].limited[1] = 1; L[k].limits[1] = p[k] + 4; } }
  vector<double> in = p; vector<mp_par> L0 = L; mc::count("transitions", 4); CorrectForImageOffsets(in.data(), L, w.mm.get());
  for (int k = 0; k < n; k++) { double o = offOf(w, c[k]); MC_CHECK(mc::close(in[k], p[k] - o, 1e-13, 1e-13), "offset", "parameter %d (%s): %.12g becomes %.12g, should be %.12g", k, w.colNames[k].c_str(), p[k], in[k], p[k] - o);
    for (int s = 0; s < 2; s++) { MC_CHECK(L[k].limited[s] == L0[k].limited[s], "limited", "limit flag %d changed", k); if (L[k].limited[s]) MC_CHECK(mc::close(L[k].limits[s], L0[k].limits[s] - o, 1e-13, 1e-13), "offset-limits", "parameter %d (%s): limit %.12g becomes %.12g, offset %g", k, w.colNames[k].c_str(), L0[k].limits[s], L[k].limits[s], o); }
    MC_CHECK(L[k].offset == o, "offset-recorded", "parameter %d (%s): offset %g recorded, should be %g", k, w.colNames[k].c_str(), L[k].offset, o); }
  vector<double> z(n, 0); w.mm->GetImageOffsets(z.data()); for (int k = 0; k < n; k++) MC_CHECK(z[k] == offOf(w, c[k]), "get-offsets", "GetImageOffsets: parameter %d (%s) gets %g, should be %g", k, w.colNames[k].c_str(), z[k], offOf(w, c[k]));
  string row = w.mm->PrintModelParamsHorizontalString(in.data(), " "), head = w.mm->GetParamHeader(); vector<string> R = split(row, " "), HD = split(head, "# \t");
  MC_CHECK((int)R.size() == n, "row", "%d values in a row, should be %d: %s", (int)R.size(), n, row.c_str()); for (int k = 0; k < n; k++) MC_CHECK(mc::close(atof(R[k].c_str()), p[k], 2e-9, 1e-9), "row-value", "row value %d (%s) is %s, should be %.10g", k, w.colNames[k].c_str(), R[k].c_str(), p[k]);
  MC_CHECK((int)HD.size() == n, "header", "%d column names for %d parameters: %s", (int)HD.size(), n, head.c_str()); std::set<string> u(HD.begin(), HD.end());
  for (int k = 0; k < n; k++) { string nm = w.colNames[k] == "ROTATION" ? "IMAGE_PA" : w.colNames[k]; MC_CHECK(HD[k].compare(0, nm.size() + 1, nm + "_") == 0, "header-name", "column %d is called %s, should be %s_...", k, HD[k].c_str(), nm.c_str()); }
  MC_CHECK((int)u.size() == n, "header-unique", "column names are not unique: %s", head.c_str());
}
struct Line { string name; double v, e; bool hasE; };
static vector<Line> parse(const string& t) { vector<Line> o; for (auto& l : split(t, "\n")) { string s = l; size_t h = s.find_first_not_of(" \t"); if (h == string::npos || s[h] == '#') { if (h != string::npos && s[h] == '#') o.push_back({s.substr(h), 0, 0, false}); continue; } auto f = split(s, " \t"); if (f[0] == "FUNCTION") { o.push_back({"FUNCTION " + f[1], 0, 0, false}); continue; } Line L{f[0], f.size() > 1 ? atof(f[1].c_str()) : NAN, 0, false}; for (size_t k = 2; k < f.size(); k++) if (f[k] == "+/-" && k + 1 < f.size()) { L.e = atof(f[k + 1].c_str()); L.hasE = true; } o.push_back(L); } return o; }
static vector<Line> expectFor(const World& w, const vector<double>& p, int i, const Sets& l) { vector<Line> o; size_t k = 0; for (int pass = 0; pass < 2; pass++) for (auto& a : (pass ? l : w.g)) { o.push_back({"X0", p[k++] + w.off[i].first, 0, false}); o.push_back({"Y0", p[k++] + w.off[i].second, 0, false}); for (int f : a) { o.push_back({string("FUNCTION ") + KN[f], 0, 0, false}); for (auto& s : LAB[f]) o.push_back({s, p[k++], 0, false}); } } return o; }
static void compare(const vector<Line>& got, const vector<Line>& want, const char* what) {
  vector<Line> g; for (auto& x : got) if (x.name[0] != '#') g.push_back(x);
  MC_CHECK(g.size() == want.size(), "print-lines", "%s: %d lines printed, should be %d", what, (int)g.size(), (int)want.size());
  for (size_t k = 0; k < g.size(); k++) { MC_CHECK(g[k].name == want[k].name, "print-name", "%s: line %d is '%s', should be '%s'", what, (int)k, g[k].name.c_str(), want[k].name.c_str()); MC_CHECK(mc::close(g[k].v, want[k].v, 1e-5, 1e-4), "print-value", "%s: line %d, %s = %.10g, should be %.10g", what, (int)k, g[k].name.c_str(), g[k].v, want[k].v); }
}
MC_PART(printing) {        // best-fit files: each image's own file, the summary, the image-info file
  World w; chooseWorld(w, mc::tier(3, 4), false); chooseOff(w); int errs = mc::choose(2); if (mc::choose(2) && !mc::thorough()) { mc::prune(); return; }
  build(w); mc::state(mc::Hash()(H(w))(errs).h); mc::note("%s", D(w).c_str()); vector<double> p = vec(w, 0.25); mc::count("transitions", 3);
  string root = mc::scratch() + "/mf"; vector<string> hd = {"# header"}; { Capture c(1); SaveMultImageParameters(p.data(), w.mm.get(), root, hd); c.done(); }
  for (int i = 0; i < w.N; i++) { string fn = root + (i ? "_image" + std::to_string(i + 1) + ".dat" : string("_refimage.dat")); string t = slurp(fn); char b[60]; snprintf(b, sizeof b, "file of image %d", i + 1); vector<Line> g = parse(t); MC_CHECK(t.find("im" + std::to_string(i) + ".fits") != string::npos, "print-file", "%s does not name the image", b); compare(g, expectFor(w, own(w, p, i), i, w.l[i]), b); unlink(fn.c_str()); }
  vector<double> e(p.size()); for (size_t k = 0; k < e.size(); k++) e[k] = 0.01 * (k + 1); vector<string> S; w.mm->PrintModelParamsToStrings(S, p.data(), errs ? e.data() : nullptr, "", false); string t; for (auto& s : S) t += s;
  // reference image's own parameters first (with their errors), then each further image's description under its own heading
  vector<Line> g = parse(t); size_t cut = g.size(); for (size_t k = 0; k < g.size(); k++) if (g[k].name.find("Image-description parameters for image 2") != string::npos) { cut = k; break; }
  vector<Line> first(g.begin(), g.begin() + cut); compare(first, expectFor(w, own(w, p, 0), 0, w.l[0]), "summary, reference image");
  if (errs) { size_t k = 5 * (w.N - 1); for (auto& x : first) if (x.name[0] != '#' && x.name.compare(0, 8, "FUNCTION")) { MC_CHECK(x.hasE && mc::close(x.e, e[k], 1e-4, 1e-4), "print-error", "summary: error of %s is %g, should be %g", x.name.c_str(), x.e, e[k]); k++; } }
  for (int i = 1; i < w.N; i++) {
    string h = "for image " + std::to_string(i + 1) + " (im" + std::to_string(i) + ".fits)"; size_t at = cut; while (at < g.size() && g[at].name.find(h) == string::npos) at++; MC_CHECK(at < g.size(), "print-heading", "summary: no heading '%s'", h.c_str());
    for (int k = 0; k < 5; k++) { MC_CHECK(at + 1 + k < g.size() && g[at + 1 + k].name == w.mm->GetParameterName(k), "print-name", "summary, image %d: line %d is %s", i + 1, k, at + 1 + k < g.size() ? g[at + 1 + k].name.c_str() : "missing"); double want = p[5 * (i - 1) + k] + (k == 3 ? w.off[i].first : k == 4 ? w.off[i].second : 0); MC_CHECK(mc::close(g[at + 1 + k].v, want, 1e-5, 1e-4), "print-value", "summary, image %d: %s = %.10g, should be %.10g", i + 1, g[at + 1 + k].name.c_str(), g[at + 1 + k].v, want); if (errs) MC_CHECK(g[at + 1 + k].hasE && mc::close(g[at + 1 + k].e, e[5 * (i - 1) + k], 1e-4, 1e-4), "print-error", "summary, image %d: error of %s is %g", i + 1, g[at + 1 + k].name.c_str(), g[at + 1 + k].e); }
  }
  vector<ImageInfo> info(w.N); for (int i = 0; i < w.N; i++) { info[i].dataImage_present = true; info[i].dataImageFileName = "im" + std::to_string(i) + ".fits"; if (i % 2) { info[i].nCombined = 3 + i; info[i].gain = 2.5; info[i].readNoise = 1.25; info[i].originalSky = 12.5; info[i].maskImage_present = true; info[i].maskImageFileName = "mask.fits"; } }
  SolverResults sr; if (errs) { sr.SetSolverType(MPFIT_SOLVER); sr.StoreErrors(e.data(), (int)e.size()); } else sr.SetSolverType(NMSIMPLEX_SOLVER);
  string out = root + "_info.dat"; SaveImageInfoParameters(p.data(), w.mm.get(), info, sr, out, hd); string f = slurp(out); unlink(out.c_str()); vector<string> blocks; { size_t a = 0; while ((a = f.find("IMAGE_START", a)) != string::npos) { size_t b = f.find("IMAGE_START", a + 5); blocks.push_back(f.substr(a, b == string::npos ? b : b - a)); a = b == string::npos ? f.size() : b; } }
  MC_CHECK((int)blocks.size() == w.N, "info-blocks", "image-info file has %d blocks, should be %d", (int)blocks.size(), w.N);
  for (int i = 0; i < w.N; i++) {
    std::map<string, string> kv; for (auto& l : split(blocks[i], "\n")) { auto q = split(l, " \t"); if (q.size() > 1) kv[q[0]] = q[1]; }
    MC_CHECK(kv["DATA"] == info[i].dataImageFileName, "info-data", "block %d: DATA %s", i + 1, kv["DATA"].c_str());
    if (i % 2) { MC_CHECK(kv["NCOMBINED"] == std::to_string(3 + i), "info-ncombined", "block %d: NCOMBINED %s, should be %d", i + 1, kv["NCOMBINED"].c_str(), 3 + i); MC_CHECK(kv["GAIN"] == "2.5" && kv["READNOISE"] == "1.25" && kv["ORIGINAL_SKY"] == "12.5" && kv["MASK"] == "mask.fits", "info-values", "block %d: wrong image data", i + 1); }
    static const char* K[] = {"PIXEL_SCALE", "IMAGE_PA", "FLUX_SCALE", "X0", "Y0"}; for (int k = 0; k < 5; k++) { if (i == 0) { MC_CHECK(!kv.count(K[k]), "info-ref", "reference image has %s", K[k]); continue; } double want = p[5 * (i - 1) + k] + (k == 3 ? w.off[i].first : k == 4 ? w.off[i].second : 0); MC_CHECK(mc::close(atof(kv[K[k]].c_str()), want, 1e-5, 1e-4), "info-params", "image-info file, image %d: %s = %s, should be %.10g", i + 1, K[k], kv[K[k]].c_str(), want); }
  }
}
MC_PART(bootstrap) {       // bootstrap mode: deviates of all images laid out one after the other, the statistic their sum of squares
  World w; chooseWorld(w, mc::tier(3, 4), true); if (w.mode == 2) { mc::prune(); return; } build(w); mc::state(H(w)); mc::note("%s", D(w).c_str());
  MC_CHECK(w.mm->FinalSetupForFitting() == 0, "refused", "refused"); vector<double> p = vec(w, 0.7); double before = w.mm->GetFitStatistic(p.data());
  MC_CHECK(w.mm->UseBootstrap() == 0 && w.mm->MakeBootstrapSample() == 0, "boot", "bootstrap refused"); mc::count("transitions", 4);
  long nv = w.mm->GetNValidPixels(); vector<double> y(w.mm->GetNDataValues() + 2, -777.5); double s = w.mm->GetFitStatistic(p.data()); w.mm->ComputeDeviates(y.data(), p.data());
  double ss = 0; for (long k = 0; k < nv; k++) { MC_CHECK(y[k] != -777.5, "boot-hole", "deviate %ld of %ld is not set in bootstrap mode", k, nv); ss += y[k] * y[k]; } for (size_t k = nv; k < y.size(); k++) MC_CHECK(y[k] == -777.5, "boot-extra", "deviate %d of %ld set in bootstrap mode", (int)k, nv);
  MC_CHECK(mc::close(s, ss, 1e-9, 1e-9), "boot-statistic", "bootstrap statistic %.12g, deviates' sum of squares %.12g", s, ss);
  w.mm->EndBootstrap(); double after = w.mm->GetFitStatistic(p.data()); MC_CHECK(after == before, "boot-end", "statistic %.12g before, %.12g after the bootstrap", before, after);
}
MC_PART(functions) {       // every image function: transformed parameters printed = transformed parameters used = the transformed image
  const auto& ft = functable(); int f = mc::choose((int)ft.size()); mc::shard(); const T& t = ft[f]; static const double PX[] = {1, 0.5, 2, 3.7}, RT[] = {0, 25, -110, 90}, FL[] = {1, 2.5, 0.3}; double pix = PX[mc::choose(4)], rot = RT[mc::choose(4)], fl = FL[mc::choose(3)]; int off = mc::choose(2) * 2;
  if (t.slow && !mc::thorough() && !(pix != 1 && rot == 25)) { mc::prune(); return; }
  mc::state(mc::Hash()(f)(pix)(rot)(fl)(off).h); vector<double> p(off, -99.0), a; p.insert(p.end(), t.p.begin(), t.p.end()); a = p; bool ps = strstr(t.name, "PointSource") != nullptr; if (ps) { mc::prune(); return; }
  std::unique_ptr<FunctionObject> F(makeFunction(t.name)), G(makeFunction(t.name)), R(makeFunction(t.name)); for (auto* q : {F.get(), G.get(), R.get()}) q->SetSubsampling(false);
  F->SetImageParameters(pix, rot, fl); F->AdjustParametersForImage(p.data(), a.data(), off); mc::count("transitions", 3);
  double xc = 10, yc = 12; F->Setup(p.data(), off, xc, yc); G->Setup(a.data(), off, xc, yc); R->Setup(p.data(), off, 0, 0); double c = cos(rot * M_PI / 180), s = sin(rot * M_PI / 180);
  bool vox = strstr(t.units, "voxel") != nullptr, plane = !strcmp(t.name, "TiltedSkyPlane");
  for (int k = 0; k < 6; k++) { double dx = 0.3 + 0.9 * k * (k % 2 ? -1 : 1), dy = 0.2 + 0.7 * k * (k % 3 ? 1 : -1), v = F->GetValue(xc + dx, yc + dy), g = G->GetValue(xc + dx, yc + dy);
    MC_CHECK(mc::close(v, g, 1e-9, 1e-14), "adjusted", "%s: pixel scale %g, rotation %g, flux scale %g: value %.12g, but %.12g with the adjusted parameters", t.name, pix, rot, fl, v, g);
    if (vox || plane) continue; double rx = pix * (dx * c - dy * s), ry = pix * (dx * s + dy * c), want = fl * R->GetValue(rx, ry);
    MC_CHECK(mc::close(v, want, 1e-6, 1e-10), "transform", "%s: pixel scale %g, rotation %g, flux scale %g: value %.12g at (%g,%g), should be %.12g", t.name, pix, rot, fl, v, dx, dy, want); }
}
