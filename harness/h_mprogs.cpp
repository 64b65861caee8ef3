// P28: multimfit and makemultimages treat every image of the image-info file as it is described there. The programs run from
// main() on every pair of image descriptions; the printed statistic, the saved images and the saved parameters are compared with
// single-image models set up by hand and with statistics computed from their definitions.
#define OPTIONS_COMMON_ONLY
#include "h_options.cpp"
extern int multimfit_main_entry(int, char**); extern int makemultimages_main_entry(int, char**);
struct Desc { double pix, rot, flux, x0, y0; };
static const Desc DS[] = {{1, 0, 1, 4.2, 3.7}, {1, 90, 1, 4.6, 4.1}, {2, 0, 0.5, 3.5, 4.4}, {0.5, -30, 2.5, 5.1, 3.2}};
struct Im { O o; int local = 0, osampFrom = 0; Desc d; Img data; };
enum { NVAR = 14 };
static Img data2() { Img i = make(NC, NR, 0); for (size_t k = 0; k < i.v.size(); k++) i.v[k] = f32(i.v[k] * 0.8 + (k * 5) % 9); return i; }
static Img data3() { Img i = make(NC, NR, 0); for (size_t k = 0; k < i.v.size(); k++) i.v[k] = f32(i.v[k] * 1.1 + (k * 3) % 8); return i; }
static void variant(Im& m, int v) {
  O& o = m.o; switch (v) {
    case 1: o.mask = 1; break; case 2: o.mask = 2; break; case 3: o.mode = SIGMA; break; case 4: o.mode = VARIANCE; break; case 5: o.mode = WEIGHT; break;
    case 6: o.psf = 1; break; case 7: o.psf = 1; o.over = 1; break; case 8: o.section(); break; case 9: for (int& k : o.chr) k = 2; break; case 10: m.local = 1; break;
    case 11: o.psf = 1; o.over = 2; break; case 12: m.local = 2; o.section(); o.mask = 2; o.psf = 1; o.mode = VARIANCE; break; case 13: o.over = 3; o.psf = 1; m.local = 1; for (int& k : o.chr) k = 2; break; } }
static const double LP1[] = {5.3, 2.8, 40, 0.2, 18, 1.6}, LP2[] = {3, 3, 7.5};      // local components: an Exponential; a sky
static string desc(const Im& m, int i, bool freeDesc) {
  const O& o = m.o; string s = "IMAGE_START\nDATA img" + (i ? std::to_string(i + 1) : string()) + ".fits" + o.secText() + "\n"; const char* key[5] = {"GAIN", "READNOISE", "EXPTIME", "NCOMBINED", "ORIGINAL_SKY"}; for (int k = 0; k < 5; k++) if (o.chr[k]) s += string(key[k]) + " " + num(CH[k].cfg) + "\n";
  if (o.mask == 1) s += "MASK maskb.fits" + o.secText() + "\n"; if (o.mask == 2) s += "MASK maskz.fits" + o.secText() + "\nMASK_ZERO_IS_BAD\n";
  if (o.mode >= SIGMA && o.mode <= WEIGHT) { s += "ERROR noise.fits" + o.secText() + "\n"; if (o.mode == VARIANCE) s += "ERRORS_ARE_VARIANCES\n"; if (o.mode == WEIGHT) s += "ERRORS_ARE_WEIGHTS\n"; }
  if (o.psf) s += "PSF psf.fits\n";
  if (o.over == 1) s += "OVERSAMPLED_PSF op1.fits\nOVERSAMPLE_SCALE 3\nOVERSAMPLED_REGION 4:6,3:5\n"; if (o.over == 2) s += "OVERSAMPLED_PSF op1.fits\nOVERSAMPLE_SCALE 2\nOVERSAMPLED_REGION 4:5,3:5\nOVERSAMPLED_PSF op2.fits\nOVERSAMPLE_SCALE 3\nOVERSAMPLED_REGION 7:7,3:4\n"; if (o.over == 3) s += "OVERSAMPLED_PSF op1.fits\nOVERSAMPLE_SCALE 2\nOVERSAMPLED_REGION 4:5,3:5\nOVERSAMPLED_REGION 7:7,3:4\n";
  if (i) { const Desc& d = m.d; s += "PIXEL_SCALE " + num(d.pix) + " fixed\nIMAGE_PA " + num(d.rot) + " fixed\nFLUX_SCALE " + num(d.flux) + (freeDesc ? " 0.1,10\n" : " fixed\n") + "X0 " + num(d.x0) + (freeDesc ? " 2,8\n" : " fixed\n") + "Y0 " + num(d.y0) + " fixed\n"; }
  if (m.local == 1) s += "FUNCTIONS_START\nX0 5.3 fixed\nY0 2.8 fixed\nFUNCTION Exponential\nPA 40 fixed\nell 0.2 fixed\nI_0 18 1,300\nh 1.6 fixed\n"; if (m.local == 2) s += "FUNCTIONS_START\nX0 3 fixed\nY0 3 fixed\nFUNCTION FlatSky\nI_sky 7.5 fixed\n";
  return s + "\n"; }
// the parameters image i sees
static V own(const V& p, const Im& m, int i) { if (!i) return p; V q = p; const Desc& d = m.d; double a = d.rot * M_PI / 180; for (int k : {0, 7}) { double dx = p[k] - p[0], dy = p[k + 1] - p[1]; q[k] = d.x0 + (dx * cos(a) + dy * sin(a)) / d.pix; q[k + 1] = d.y0 + (-dx * sin(a) + dy * cos(a)) / d.pix; } for (int k : {2, 9}) q[k] -= d.rot; for (int k : {4, 6, 11}) q[k] *= d.flux; for (int k : {5, 12}) q[k] /= d.pix; return q; }
static Img modelOf(const Im& m, int i, const V& p, const V& loc) {
  V q = own(p, m, i); Img r = refModel(m.o, q); if (m.local == 1) { V l = P0; for (int k = 0; k < 6; k++) l[7 + k] = loc[k]; Img e = refModel(m.o, l, 2); for (size_t k = 0; k < r.v.size(); k++) r.v[k] += e.v[k]; } if (m.local == 2) for (double& x : r.v) x += loc[2]; return r; }
static V locOf(const Im& m) { return m.local == 1 ? V(LP1, LP1 + 6) : m.local == 2 ? V(LP2, LP2 + 3) : V(); }
struct Swap { Img keep; Swap(const Img& d) { keep = DATA(); DATA() = d; } ~Swap() { DATA() = keep; } };
static void setup(vector<Im>& w, int mode, bool fit) {
  static bool once = false; prepare(); if (!once) { once = true; put("img2.fits", data2()); put("img3.fits", data3()); }
  string s; for (size_t i = 0; i < w.size(); i++) { Im& m = w[i]; m.data = i == 0 ? DATA() : i == 1 ? data2() : data3(); s += desc(m, (int)i, fit); } spit("info", s); spit("cfg", BODY);
  for (Im& m : w) { if (mode >= CASH) m.o.mode = mode; else if (mode == MODELERR && m.o.mode == DATAERR) m.o.mode = MODELERR; }   // the statistic is the same for all images
}
static void cliMode(vector<string>& a, int mode) { if (mode == MODELERR) a.push_back("--model-errors"); if (mode == CASH) a.push_back("--cashstat"); if (mode == MLR) a.push_back("--mlr"); }
static Stat total(const vector<Im>& w, const V& p, const vector<V>& loc) { Stat T; for (size_t i = 0; i < w.size(); i++) { Swap sw(w[i].data); Stat s = statistic(w[i].o, modelOf(w[i], (int)i, p, loc[i])); T.stat += s.stat; T.n += s.n; T.scale += s.scale; } return T; }
static const char* statKey(int mode) { return mode == CASH ? "CASH STATISTIC = " : mode == MLR ? "POISSON-MLR STATISTIC = " : "CHI-SQUARE = "; }
static void worlds(vector<Im>& w, int& mode, int maxN, const vector<int>& modes, int nd) {
  int N = 1 + mc::choose(maxN); for (int i = 0; i < N; i++) { Im m; variant(m, i < 2 ? mc::choose(NVAR) : mc::pick(vector<int>{0, 7, 12})); m.d = DS[i == 0 ? 0 : i == 1 ? mc::choose(nd) : 1]; w.push_back(m); if (i == 0) mc::shard(); } mode = mc::pick(modes);
  mc::Hash h; h(mode)(N); for (Im& m : w) { h(m.o.mask)(m.o.mode)(m.o.psf)(m.o.over)(m.o.sec)(m.o.chr[0])(m.local)((int)(m.d.pix * 10))((int)m.d.rot); } mc::state(h.h); }
// the printed statistic is the sum of the images' statistics
MC_PART(multistat) {
  vector<Im> w; int mode; worlds(w, mode, mc::tier(2, 3), {DATAERR, MODELERR, CASH, MLR}, mc::tier(3, 4)); setup(w, mode, false); vector<string> a = {"multimfit", "-c", "cfg", "-i", "info", "--fitstat-only", "--max-threads", "1", "--save-params-root", "out/z"}; cliMode(a, mode); string out; run(multimfit_main_entry, a, out);
  vector<V> loc; double k = 4; for (Im& m : w) { loc.push_back(locOf(m)); k += m.local == 1; } Stat S = total(w, P0, loc); double tol = 1e-9 * S.scale + 2e-6;
  same(after(out, statKey(mode)), S.stat, tol, ("statistic:" + std::to_string(mode)).c_str(), "the printed statistic"); same(after(out, "BIC = "), S.stat + k * log((double)S.n), tol + 1e-6, "bic", "BIC");
}
// the images that makemultimages writes
MC_PART(multimake) {
  int N = 1 + mc::choose(mc::tier(2, 3)); vector<Im> w; static const vector<int> VS = {0, 6, 7, 10, 11, 13}; string s; int size[3];
  for (int i = 0; i < N; i++) { Im m; variant(m, i < 2 ? mc::pick(VS) : 7); m.d = DS[i == 0 ? 0 : i == 1 ? mc::choose(4) : 1]; if (i == 0) mc::shard(); for (int& k : m.o.chr) k = 0; size[i] = i < 2 ? mc::choose(3) : 1; w.push_back(m); } bool sub = !mc::flip();
  prepare(); static bool once = false; if (!once) { once = true; put("img2.fits", data2()); put("img3.fits", data3()); }
  mc::Hash h; h(sub); for (int i = 0; i < N; i++) { string d = desc(w[i], i, false); size_t a = d.find("DATA"), b = d.find('\n', a); w[i].o.sub = sub; if (size[i]) { w[i].o.c = 8; w[i].o.r = 7; d.replace(a, b - a, size[i] == 1 ? "NCOLS 8\nNROWS 7" : d.substr(a, b - a) + "\nNROWS,NCOLS 7,8"); } s += d; h(w[i].o.psf)(w[i].o.over)(w[i].local)(size[i])((int)w[i].d.rot); } mc::state(h.h); spit("info", s);
  string body; for (auto& l : lines(BODY)) { size_t i = l.find(" fixed"); body += (i == string::npos ? l : l.substr(0, i)) + "\n"; } spit("cfg", body); vector<string> a = {"makemultimages", "cfg", "--image-info", "info", "-o", "out/m", "--max-threads", "1"}; if (!sub) a.push_back("--nosubsampling"); string out; run(makemultimages_main_entry, a, out);
  for (int i = 0; i < N; i++) cmp("out/m_" + std::to_string(i) + ".fits", modelOf(w[i], i, P0, locOf(w[i])), 1e-6, "image"); MC_CHECK((int)ls("out").size() == N, "files", "%zu files for %d images", ls("out").size(), N);
}
// what a parameter file says: all numbers of lines "NAME value ..."
static V values(const string& fn, vector<string>* names = nullptr) { V p; for (auto& l : lines(slurp(fn))) { if (l.empty() || l[0] == '#' || l.find("FUNCTION") == 0) continue; char n[80]; double v; if (sscanf(l.c_str(), "%79s %lf", n, &v) != 2) continue; p.push_back(v); if (names) names->push_back(n); } return p; }
// fits: saved parameters, saved images and the statistic belong together
MC_PART(multifit) {
  static const vector<vector<string>> SOLV = {{}, {"--nm"}, {"--de", "--seed", "5"}}; vector<Im> w; int mode, sv = mc::choose(mc::tier(2, 3)); worlds(w, mode, 2, {DATAERR, MLR}, mc::tier(1, 4)); if (w.size() == 2 && !mc::thorough() && sv && !(w[0].o.psf || w[1].o.psf) ) mc::prune(); if (!mc::thorough() && (w[0].o.over && w[0].o.over != 1)) mc::prune();
  setup(w, mode, true); vector<string> a = {"multimfit", "-c", "cfg", "-i", "info", "--max-threads", "1", "--save-params-root", "out/p", "--save-model", "out/m", "--ftol", sv == 2 ? "0.05" : "1e-5"}; cliMode(a, mode); for (auto& x : SOLV[sv]) a.push_back(x); string out; run(multimfit_main_entry, a, out);
  vector<string> nm; V p = values("out/p_refimage.dat", &nm); MC_CHECK(p.size() == P0.size() + (w[0].local == 1 ? 6 : w[0].local == 2 ? 3 : 0), "names", "%zu parameters for the first image", p.size()); V glob(p.begin(), p.begin() + P0.size()); for (size_t i = 0; i < P0.size(); i++) { MC_CHECK(nm[i] == PNAME[i], "names", "parameter %zu is called %s", i, nm[i].c_str()); int f = -1; for (int q = 0; q < 4; q++) if (FREE[q] == (int)i) f = q; if (f < 0) same(glob[i], P0[i], 1e-9, "fixed", string("fixed parameter ") + PNAME[i]); else MC_CHECK(glob[i] >= LO[f] - 1e-4 && glob[i] <= HI[f] + 1e-4, "limits", "%s = %.9g is outside its limits", PNAME[i], glob[i]); }
  vector<V> loc; vector<Im> fw = w; for (size_t i = 0; i < w.size(); i++) { V q = i ? values("out/p_image" + std::to_string(i + 1) + ".dat") : p; loc.push_back(V(q.begin() + P0.size(), q.end())); MC_CHECK(loc[i].size() == locOf(w[i]).size(), "local", "%zu local parameters", loc[i].size()); for (size_t k = 0; k < loc[i].size(); k++) { if (w[i].local == 1 && k == 4) MC_CHECK(loc[i][k] >= 1 - 1e-6 && loc[i][k] <= 300 + 1e-6, "limits:local", "local I_0 = %g", loc[i][k]); else same(loc[i][k], locOf(w[i])[k], 1e-9, "fixed:local", "a fixed local parameter"); } }
  V info = values("out/p_imageinfo.dat", nullptr); string it = slurp("out/p_imageinfo.dat"); if (w.size() > 1) { size_t at = it.rfind("IMAGE_START"); Desc& d = fw[1].d; d.pix = after(it.substr(at), "PIXEL_SCALE"); d.rot = after(it.substr(at), "IMAGE_PA"); d.flux = after(it.substr(at), "FLUX_SCALE"); string x = it.substr(it.find("\nX0", at)); d.x0 = after(x, "X0"); d.y0 = after(x, "Y0"); same(d.pix, w[1].d.pix, 1e-9, "fixed:image", "PIXEL_SCALE"); same(d.rot, w[1].d.rot, 1e-9, "fixed:image", "IMAGE_PA"); same(d.y0, w[1].d.y0, 1e-4, "fixed:image", "Y0"); MC_CHECK(d.flux >= 0.1 - 1e-6 && d.flux <= 10 + 1e-6 && d.x0 >= 2 - 1e-4 && d.x0 <= 8 + 1e-4, "limits:image", "FLUX_SCALE %g, X0 %g are outside their limits", d.flux, d.x0); }
  Stat S; for (size_t i = 0; i < w.size(); i++) { Img m = modelOf(fw[i], (int)i, glob, loc[i]); string fn = "out/m_" + std::to_string(i) + ".fits"; cmp(fn, m, 3e-4, "model-image"); Swap sw(w[i].data); Stat s = statistic(w[i].o, get(fn)); S.stat += s.stat; S.n += s.n; S.scale += s.scale; V q = own(glob, fw[i], (int)i); V have = i ? values("out/p_image" + std::to_string(i + 1) + ".dat") : p; for (size_t k = 0; k < P0.size(); k++) same(have[k], q[k], 2e-3 * (1 + fabs(q[k])) , "image-parameters", "parameter " + std::to_string(k) + " of image " + std::to_string(i + 1)); }
  string sum = slurp("out/p_summary.dat"); same(after(sum, "Best-fit value: "), S.stat, 1e-5 * S.scale + 1e-3 * (1 + (mode < CASH ? sqrt(S.scale * S.n) : S.n)), "best-fit-value", "the best-fit value of the summary");
  vector<V> l0; for (Im& m : w) l0.push_back(locOf(m)); Stat S0 = total(w, P0, l0); MC_CHECK(S.stat <= S0.stat + 1e-6 * S0.scale || sv == 2, "worse", "the fit made the statistic worse: %.9g -> %.9g", S0.stat, S.stat); if (sv == 0) MC_CHECK(S.stat < S0.stat - 1e-9 * S0.scale, "no-fit", "the fit found nothing better than the initial values");
  // the best-fit image-info file describes the same images (local functions are in the per-image parameter files)
  if (!w[0].local && (w.size() < 2 || !w[1].local)) { string c = slurp("out/p_refimage.dat"); spit("cfg2", c); spit("info2", it); vector<string> b = {"multimfit", "-c", "cfg2", "-i", "info2", "--fitstat-only", "--max-threads", "1", "--save-params-root", "out/z"}; cliMode(b, mode); string o2; run(multimfit_main_entry, b, o2); same(after(o2, statKey(mode)), S.stat, 1e-4 * S.scale + 1e-3 * (1 + (mode < CASH ? sqrt(S.scale * S.n) : S.n)), "saved-info", "the statistic of the saved best-fit files"); }
}
// defective inputs: a non-zero exit status and a message, never a crash
static int attempt(int (*f)(int, char**), vector<string> a, string& out, string& err) {
  string line; for (auto& x : a) line += (line.empty() ? "" : " ") + x; mc::note("%s", line.c_str()); vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr); int st; stopSignal_flag = 0;
  { Capture c1, c2(2); jmp_buf jb; mc::exitJump() = &jb; if (setjmp(jb)) st = mc::exitStatus(); else { st = f((int)a.size(), v.data()); mc::exitJump() = nullptr; } err = c2.done(); out = c1.done(); } if (chdir(D().c_str())) abort(); mc::count("transitions"); return st; }
struct Defect { const char* name; const char *from, *to; bool make; };      // replaced text in one image's description
static const Defect DF[] = {{"no data image", "DATA img", "GAIN 1\n# img", false}, {"missing data image", "DATA img", "DATA gone", false}, {"missing mask", "MASK maskb", "MASK gone", false}, {"mask of another size", "MASK maskb.fits", "MASK ref.fits", false}, {"missing error image", "ERROR noise", "ERROR gone", false}, {"error image of another size", "ERROR noise.fits", "ERROR ref.fits", false},
  {"missing PSF", "\nPSF psf", "\nPSF gone", true}, {"missing oversampled PSF", "OVERSAMPLED_PSF op1", "OVERSAMPLED_PSF gone", true}, {"no oversampling scale", "OVERSAMPLE_SCALE 3\n", "", true}, {"no oversampling region", "OVERSAMPLED_REGION 4:6,3:5\n", "", true}, {"malformed oversampling region", "4:6,3:5", "4:6", true}, {"text as oversampling scale", "SCALE 3", "SCALE x", true},
  {"unknown local function", "FUNCTION Exponential\nPA 40", "FUNCTION Nonsense\nPA 40", true}, {"local parameter missing", "h 1.6", "", true}, {"text as local parameter", "h 1.6", "h abc", true}, {"local function without X0", "X0 5.3 fixed\n", "", true}, {"text as gain", "GAIN 4", "GAIN abc", false}, {"data image is a text file", "DATA img", "DATA cfg # img", false}, {"local limits reversed", "1,300", "300,1", false}, {"data image section outside the image", ".fits\n", ".fits[3:80,2:6]\n", false}};
MC_PART(multibad) {
  int k = mc::choose((int)(sizeof DF / sizeof *DF) + 12); bool make = mc::flip(); mc::shard(); int at = mc::choose(2), how = make ? 0 : mc::choose(3); vector<Im> w(2); for (int i = 0; i < 2; i++) { Im& m = w[i]; m.o.mask = 1; m.o.mode = SIGMA; m.o.psf = 1; m.o.over = 1; m.local = 1; for (int& c : m.o.chr) c = 2; m.d = DS[1]; }
  prepare(); static bool once = false; if (!once) { once = true; put("img2.fits", data2()); put("img3.fits", data3()); } string s, body = BODY, name; vector<string> a = make ? vector<string>{"makemultimages", "cfg", "--image-info", "info", "-o", "out/m"} : vector<string>{"multimfit", "-c", "cfg", "-i", "info", "--save-params-root", "out/p"}; if (!make && how == 0) a.push_back("--fitstat-only"); if (how == 2) a.push_back("--nm"); if (make) { size_t i; while ((i = body.find(" fixed")) != string::npos) body.erase(i, 6); }
  int nd = (int)(sizeof DF / sizeof *DF); bool good = false; for (int i = 0; i < 2; i++) { string d = desc(w[i], i, true); if (make) { size_t q = d.find("DATA"); d.replace(q, d.find('\n', q) - q, "NCOLS 8\nNROWS 7"); } if (k < nd && i == at) { if (make && !DF[k].make) { mc::prune(); } name = DF[k].name; size_t q = d.find(DF[k].from); if (q == string::npos) abort(); d.replace(q, strlen(DF[k].from), DF[k].to); } s += d; }
  spit("info", s); auto opt = [&](std::initializer_list<string> l) { a.insert(a.end(), l.begin(), l.end()); };
  switch (k - nd) { case 0: good = true; break; case 1: name = "no image-info file"; remove("info"); break; case 2: name = "empty image-info file"; spit("info", ""); break; case 3: name = "no configuration"; body = ""; break; case 4: name = "unknown function"; body.replace(body.find("FlatSky"), 7, "Nonsense"); break; case 5: name = "parameter missing"; body.replace(body.find("sigma"), body.find('\n', body.find("sigma")) - body.find("sigma") + 1, ""); break;
    case 6: name = "bad number of threads"; opt({"--max-threads", "0.5"}); break; case 7: name = "unknown option"; opt({"--nonsense"}); break; case 8: if (make) { name = "bad estimation size"; opt({"--estimation-size", "-4"}); } else { name = "bad tolerance"; opt({"--ftol", "abc"}); } break; case 9: if (make) mc::prune(); name = "bad seed"; opt({"--seed", "x1"}); break; case 10: if (make || how != 1) mc::prune(); name = "Cash statistic with LM"; opt({"--cashstat"}); break; case 11: if (make || how != 1) mc::prune(); name = "bad number of bootstrap iterations"; opt({"--bootstrap", "two"}); break; }
  if (k >= nd && at) mc::prune(); if (k - nd != 6) opt({"--max-threads", "1"}); if (k - nd == 3) remove("cfg"); else spit("cfg", body); mc::state(mc::Hash()(k)(make)(at)(how).h); string out, err; int st = attempt(make ? makemultimages_main_entry : multimfit_main_entry, a, out, err);
  if (good) { MC_CHECK(st == 0, "good-rejected", "exit status %d\n%s", st, err.c_str()); return; }
  MC_CHECK(st != 0, ("accepted:" + name).c_str(), "%s in %s: exit status 0", name.c_str(), a[0].c_str()); MC_CHECK(!err.empty() || out.find("ERROR") != string::npos || out.find("Error") != string::npos || out.find("WARNING") != string::npos, ("silent:" + name).c_str(), "%s: exit status %d without a message", name.c_str(), st);
}
// every requested output is written, nothing else is
MC_PART(multioutputs) {
  bool make = mc::flip(); int req = mc::choose(8), n = 1 + mc::choose(2); mc::shard(); vector<Im> w(n); for (int i = 0; i < n; i++) { w[i].o.psf = i; w[i].d = DS[1]; } setup(w, DATAERR, false); mc::state(mc::Hash()(make)(req)(n).h); string out; vector<string> want;
  if (make) { size_t i; string b = BODY; while ((i = b.find(" fixed")) != string::npos) b.erase(i, 6); spit("cfg", b); vector<string> a = {"makemultimages", "cfg", "--image-info", "info", "-o", "out/m", "--max-threads", "1"}; if (req & 1) a.push_back("--nosave"); if (req & 2) a.push_back("--save-expanded"); if (req & 4) { a.push_back("--output-functions"); a.push_back("out/f"); } run(makemultimages_main_entry, a, out);
    auto l = ls("out"); int m = 0, f = 0; for (auto& x : l) { if (x.find("m_") == 0) m++; if (x[0] == 'f') f++; } MC_CHECK(m == (req & 1 ? 0 : n), "nosave", "%d images saved%s", m, req & 1 ? " although --nosave was given" : ""); if (req == 4) MC_CHECK(f > 0, "ignored:--output-functions", "makemultimages --output-functions: no images of single functions are saved"); if (req == 2) MC_CHECK((int)l.size() > n, "ignored:--save-expanded", "makemultimages --save-expanded: no expanded images are saved"); return; }
  vector<string> a = {"multimfit", "-c", "cfg", "-i", "info", "--max-threads", "1", "--save-params-root", "out/p"}; if (req & 1) { a.push_back("--save-model"); a.push_back("out/m"); } if (req & 2) { a.push_back("--save-residual"); a.push_back("out/r"); } if (req & 4) { a.push_back("--save-weights"); a.push_back("out/w"); } run(multimfit_main_entry, a, out); auto l = ls("out"); auto has = [&](const string& p) { int c = 0; for (auto& x : l) c += x.find(p) == 0; return c; };
  MC_CHECK(has("m_") == (req & 1 ? n : 0), "save-model", "%d model images", has("m_")); MC_CHECK(has("p_") == n + 2, "parameter-files", "%d parameter files", has("p_")); if (req == 2) MC_CHECK(has("r") > 0, "ignored:--save-residual", "multimfit --save-residual: no residual images are saved"); if (req == 4) MC_CHECK(has("w") > 0, "ignored:--save-weights", "multimfit --save-weights: no weight images are saved");
}
