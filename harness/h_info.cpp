// P32: what the programs tell about themselves is true. The five programs run from main(): the functions and parameters they list
// are those they accept, the sample files they write work, the options their help announces exist - and no others.
#define OPTIONS_COMMON_ONLY
#include "h_options.cpp"
#include "functable.h"
#include <algorithm>
#include <set>
#include <map>
extern int multimfit_main_entry(int, char**); extern int makemultimages_main_entry(int, char**);
struct Prog { const char* name; int (*f)(int, char**); vector<string> base; };
static const vector<Prog>& progs() { static const vector<Prog> p = {{"imfit", imfit_main_entry, {"img.fits", "-c", "cfg", "--max-threads", "1"}}, {"imfit-mcmc", mcmc_main_entry, {"img.fits", "-c", "cfg", "--max-threads", "1", "--nchains", "3", "--max-chain-length", "24", "--burnin-length", "10", "--gelman-evals", "10", "--seed", "7"}},
  {"makeimage", makeimage_main_entry, {"cfgm", "--ncols", "9", "--nrows", "8", "--estimation-size", "30", "--max-threads", "1"}}, {"multimfit", multimfit_main_entry, {"-c", "cfg", "-i", "info", "--max-threads", "1"}}, {"makemultimages", makemultimages_main_entry, {"cfgm", "--image-info", "info", "--max-threads", "1"}}}; return p; }
static void world() { prepare(); spit("cfg", body(false)); string m = BODY; size_t i; while ((i = m.find(" fixed")) != string::npos) m.erase(i, 6); while ((i = m.find(" 5,400")) != string::npos) m.erase(i, 6); for (const char* t : {" 2.5,6", " 3,6"}) while ((i = m.find(t)) != string::npos) m.erase(i, strlen(t)); spit("cfgm", m); spit("info", "IMAGE_START\nDATA img.fits\nIMAGE_START\nDATA img.fits\nPIXEL_SCALE 1 fixed\nIMAGE_PA 10 fixed\nFLUX_SCALE 1 fixed\nX0 4.2 fixed\nY0 3.7 fixed\n"); }
struct R { int st; string out, err; std::set<string> files; };
static R call(const Prog& p, vector<string> a) {
  string line = p.name; for (auto& x : a) line += " " + x; mc::note("%s", line.c_str()); a.insert(a.begin(), p.name); vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr); R r; stopSignal_flag = 0; std::set<string> had; for (auto& f : ls(".")) had.insert(f);
  { Capture c1, c2(2); jmp_buf jb; mc::exitJump() = &jb; if (setjmp(jb)) r.st = mc::exitStatus(); else { r.st = p.f((int)a.size(), v.data()); mc::exitJump() = nullptr; } r.err = c2.done(); r.out = c1.done(); } if (chdir(D().c_str())) abort(); mc::count("transitions"); r.st &= 255;
  for (auto& f : ls(".")) if (!had.count(f)) r.files.insert(f); for (auto& f : ls("out")) r.files.insert("out/" + f); return r; }
static void clean(const R& r) { for (auto& f : r.files) remove(f.c_str()); }
static string trim(string s) { size_t a = s.find_first_not_of(" \t\r"); if (a == string::npos) return ""; return s.substr(a, s.find_last_not_of(" \t\r") - a + 1); }
static vector<string> functions(const Prog& p) { static std::map<string, vector<string>> m; if (m.count(p.name)) return m[p.name]; world(); R r = call(p, {"--list-functions"}); vector<string> v; for (auto& l : lines(r.out)) { string t = trim(l); if (t.empty() || t.find(' ') != string::npos || t.back() == ':') continue; v.push_back(t); } return m[p.name] = v; }
struct Block { string name; vector<string> labels, units; };
static vector<Block> blocks(const Prog& p) { static std::map<string, vector<Block>> m; if (m.count(p.name)) return m[p.name]; world(); R r = call(p, {"--list-parameters"}); vector<Block> v; for (auto& l : lines(r.out)) { string t = trim(l); if (t.find("FUNCTION ") == 0) { v.push_back({trim(t.substr(9)), {}, {}}); continue; } if (v.empty() || t.empty()) continue; size_t h = t.find('#'); v.back().labels.push_back(trim(t.substr(0, h))); v.back().units.push_back(h == string::npos ? "" : trim(t.substr(h + 1))); } return m[p.name] = v; }
static vector<string> split(const string& s, char d) { vector<string> v; size_t a = 0; for (;;) { size_t e = s.find(d, a); v.push_back(s.substr(a, e == string::npos ? e : e - a)); if (e == string::npos) return v; a = e + 1; } }
static const T* known(const string& n) { for (auto& t : functable()) if (n == t.name) return &t; return nullptr; }
// the list of functions: every documented function, every name once, the same in all programs; the parameter lists are those documented
MC_PART(lists) {
  int k = mc::choose(5); const Prog& p = progs()[k]; vector<string> f = functions(p); std::set<string> s(f.begin(), f.end()); MC_CHECK(s.size() == f.size(), "twice", "%s lists a function twice", p.name); for (auto& t : functable()) MC_CHECK(s.count(t.name), "not-listed", "%s does not list %s", p.name, t.name);
  vector<Block> b = blocks(p); std::set<string> bs; for (auto& x : b) { MC_CHECK(bs.insert(x.name).second, "twice", "%s lists the parameters of %s twice", p.name, x.name.c_str()); const T* t = known(x.name); if (!t) continue; vector<string> L = split(t->labels, ' '), U = split(t->units, '|'); MC_CHECK(x.labels == L, "parameters", "%s: parameters of %s differ from the documented ones (%s)", p.name, t->name, t->labels); for (size_t i = 0; i < L.size(); i++) MC_CHECK(x.units[i] == (i < U.size() ? U[i] : ""), "units", "%s: %s %s has units \"%s\"", p.name, t->name, L[i].c_str(), x.units[i].c_str()); }
  MC_CHECK(bs == s, "lists-differ", "%s lists %zu functions, but parameters of %zu", p.name, s.size(), bs.size()); MC_CHECK(functions(progs()[0]) == f, "programs-differ", "%s lists other functions than imfit", p.name); mc::state((mc::Hash()(k)).h);
}
// a listed block, completed with values, is a valid description - and with a line too many or too few it is not
static string config(const Block& b, bool fix, int drop, int extra) { const T* t = known(b.name); string s = string("X0 3.2") + (fix ? " fixed" : "") + "\nY0 2.7" + (fix ? " 1,5" : "") + "\nFUNCTION " + b.name + "\n"; for (size_t i = 0; i < b.labels.size(); i++) { if ((int)i == drop) continue; double v = t && i < t->p.size() ? t->p[i] : 1; for (int rep = 0; rep < ((int)i == extra ? 2 : 1); rep++) s += b.labels[i] + "\t\t" + num(v) + (fix ? " fixed" : "") + (b.units[i].empty() ? "" : "\t# " + b.units[i]) + "\n"; } return s; }
static vector<string> use(int k, bool psf) { vector<string> a = k == 0 ? vector<string>{"img.fits", "-c", "use", "--fitstat-only", "--max-threads", "1"} : k == 2 ? vector<string>{"use", "-o", "out/u.fits", "--ncols", "6", "--nrows", "5", "--max-threads", "1"} : k == 3 ? vector<string>{"-c", "use", "-i", "info1", "--fitstat-only", "--max-threads", "1"} : vector<string>{"use", "--image-info", "info1", "-o", "out/u", "--max-threads", "1"}; if (psf && (k == 0 || k == 2)) { a.push_back("--psf"); a.push_back("psf.fits"); } return a; }
MC_PART(blocks) {
  int k = mc::pick(vector<int>{2, 0, 3, 4}); const Prog& p = progs()[k]; vector<Block> bs = blocks(p); MC_CHECK(!bs.empty(), "empty", "%s lists nothing", p.name); Block b = mc::pick(bs); mc::shard(); int n = (int)b.labels.size(), d = mc::choose(2 * n + 1), drop = d >= 1 && d <= n ? d - 1 : -1, extra = d > n ? d - n - 1 : -1; if (k > 2 && d > n && !mc::thorough()) mc::prune(); world(); spit("use", config(b, k == 0 || k == 3, drop, extra)); spit("info1", "IMAGE_START\nDATA img.fits\nPSF psf.fits\n" + string(k == 4 ? "NCOLS 6\nNROWS 5\n" : "")); R r = call(p, use(k, true)); mc::note("%s\n%s", slurp("use").c_str(), (r.out + r.err).c_str());
  if (d == 0) { MC_CHECK(r.st == 0, "listed-refused", "%s lists %s and its parameters, but a description of that form fails: status %d\n%s", p.name, b.name.c_str(), r.st, r.err.c_str()); if (k == 2 || k == 4) MC_CHECK(!r.files.empty(), "no-image", "%s: no image of %s", p.name, b.name.c_str()); } else MC_CHECK(r.st != 0, drop >= 0 ? "too-few" : "too-many", "%s accepts %s %s the parameter %s", p.name, b.name.c_str(), drop >= 0 ? "without" : "with twice", b.labels[drop >= 0 ? drop : extra].c_str()); clean(r); mc::state((mc::Hash()(k)(b.name)(d)).h);
}
// a name that is not listed is refused: every name at one edit from a listed one
static vector<string> edits(const string& n) { std::set<string> e; for (size_t i = 0; i < n.size(); i++) { e.insert(n.substr(0, i) + n.substr(i + 1)); e.insert(n.substr(0, i) + n[i] + n.substr(i)); string c = n; if (isalpha(c[i])) { c[i] ^= 32; e.insert(c); } if (i + 1 < n.size()) { c = n; std::swap(c[i], c[i + 1]); e.insert(c); } } e.insert(n + "2"); e.insert(n + "2D"); e.insert(n + "_"); e.erase(n); return vector<string>(e.begin(), e.end()); }
MC_PART(names) {
  int k = mc::pick(vector<int>{2, 0}); const Prog& p = progs()[k]; vector<Block> bs = blocks(p); Block b = mc::pick(bs); if (k == 0 && !mc::thorough() && b.labels.size() % 2) mc::prune(); string e = mc::pick(edits(b.name)); mc::shard(); vector<string> fs = functions(p); if (std::find(fs.begin(), fs.end(), e) != fs.end()) mc::prune(); world(); b.name = e; string c = config(b, k == 0, -1, -1); spit("use", c); R r = call(p, use(k, true)); MC_CHECK(r.st != 0, "unlisted", "%s accepts the function \"%s\", which it does not list", p.name, e.c_str()); MC_CHECK(!r.err.empty(), "silent", "%s refuses \"%s\" without a message", p.name, e.c_str()); clean(r); mc::state((mc::Hash()(k)(e)).h);
}
// the sample configuration files are accepted by the programs they are for
MC_PART(samples) {
  int k = mc::choose(5), old = mc::choose(2); const Prog& p = progs()[k]; world(); vector<string> cand = {"config_imfit_sample.dat", "config_makeimage_sample.dat"}; if (old) for (auto& c : cand) spit(c, string(9000, 'x')); R r0 = call(p, {"--sample-config"}); string fn; for (auto& c : cand) if (r0.out.find(c) != string::npos) fn = c; MC_CHECK(!fn.empty() && (old || r0.files.count(fn)), "not-written", "%s --sample-config has not written what it says:\n%s", p.name, r0.out.c_str()); R h = call(p, {"--help"}); MC_CHECK((h.out + h.err).find(fn) != string::npos, "help-name", "the help of %s announces another sample file than %s", p.name, fn.c_str());
  for (int q = 0; q < 5; q++) { bool mk = q == 2 || q == 4; if (mk != (fn == "config_makeimage_sample.dat")) continue; vector<string> a; Img big; big.c = 140; big.r = 140; big.v.assign(140 * 140, 100); if (!mk) put("big.fits", big); spit("infob", mk ? "IMAGE_START\nNCOLS 20\nNROWS 20\n" : "IMAGE_START\nDATA big.fits\n");
    a = q == 0 ? vector<string>{"big.fits", "-c", fn, "--fitstat-only"} : q == 1 ? vector<string>{"big.fits", "-c", fn, "-o", "out/c", "--nchains", "7", "--max-chain-length", "2", "--burnin-length", "1", "--gelman-evals", "1", "--seed", "3"} : q == 2 ? vector<string>{fn, "-o", "out/s.fits"} : q == 3 ? vector<string>{"-c", fn, "-i", "infob", "--fitstat-only"} : vector<string>{fn, "--image-info", "infob", "-o", "out/s"}; a.push_back("--max-threads"); a.push_back("1"); R r = call(progs()[q], a); MC_CHECK(r.st == 0, "sample-refused", "%s does not accept the sample configuration file of %s: status %d\n%s", progs()[q].name, p.name, r.st, r.err.c_str());
    if (q == 2) { string t = slurp(fn); int nc = (int)after(t, "NCOLS"), nr = (int)after(t, "NROWS"); Img i = get("out/s.fits"); MC_CHECK(i.c == nc && i.r == nr, "sample-size", "the image of the sample configuration has %dx%d pixels", i.c, i.r); } clean(r); } remove("big.fits"); for (auto& c : cand) remove(c.c_str()); mc::state((mc::Hash()(k)(old)).h);
}
// ---- the options announced by --help
struct Opt { string shrt, lng, arg, dflt; };
static vector<Opt> options(const Prog& p) { static std::map<string, vector<Opt>> m; if (m.count(p.name)) return m[p.name]; world(); R r = call(p, {"--help"}); vector<Opt> v; for (auto& l : lines(r.out + r.err)) { string t = trim(l); Opt o; if (t.size() > 2 && t[0] == '-' && t[1] != '-' && t[2] == ' ') { o.shrt = t.substr(0, 2); t = trim(t.substr(2)); } if (t.find("--") != 0) continue; size_t e = t.find_first_of(" \t"); o.lng = t.substr(2, e == string::npos ? e : e - 2); string rest = e == string::npos ? "" : trim(t.substr(e)); if (!rest.empty() && rest[0] == '<') o.arg = rest.substr(0, rest.find('>') + 1); if (o.lng == "ftol") o.arg = "<tolerance>"; size_t d = rest.find("default = "); if (d != string::npos) { string x = rest.substr(d + 10); o.dflt = x.substr(0, x.find_first_of("]) ")); } v.push_back(o); } return m[p.name] = v; }
static bool value(const string& n, string& v, vector<string>& with, bool solver = true) {
  static const std::map<string, string> m = {{"config", "cfg"}, {"image-info", "info"}, {"noise", "noise.fits"}, {"mask", "maskb.fits"}, {"psf", "psf.fits"}, {"overpsf", "op1.fits"}, {"overpsf_scale", "3"}, {"overpsf_region", "4:6,3:5"}, {"save-params", "out/p"}, {"save-params-root", "out/p"}, {"save-model", "out/m.fits"}, {"save-residual", "out/r.fits"}, {"save-weights", "out/w.fits"}, {"sky", "10"}, {"gain", "2"}, {"readnoise", "3"}, {"exptime", "2"}, {"ncombined", "2"}, {"ftol", "1e-4"}, {"nlopt", "NM"}, {"bootstrap", "2"}, {"save-bootstrap", "out/b"}, {"max-threads", "1"}, {"seed", "4"}, {"output", "out/o.fits"}, {"refimage", "ref.fits"}, {"ncols", "7"}, {"nrows", "6"}, {"output-functions", "out/f"}, {"estimation-size", "40"}, {"zero-point", "20"}, {"save-fluxes", "out/x"}, {"timing", "1"}, {"debug", "0"}, {"nchains", "3"}, {"max-chain-length", "20"}, {"burnin-length", "10"}, {"gelman-evals", "8"}, {"gelman-rubin-limit", "1.1"}, {"uniform-offset", "0.02"}, {"gaussian-offset", "1e-5"}};
  if (n == "overpsf") with = {"--overpsf_scale", "3", "--overpsf_region", "4:6,3:5"}; if (n == "overpsf_scale") with = {"--overpsf", "op1.fits", "--overpsf_region", "4:6,3:5"}; if (n == "overpsf_region") with = {"--overpsf", "op1.fits", "--overpsf_scale", "3"}; if (n == "save-bootstrap") with = {"--bootstrap", "2"}; if (n == "cashstat" && solver) with = {"--nm"}; auto it = m.find(n); if (it == m.end()) return false; v = it->second; return true; }
static bool info(const string& n) { return n == "help" || n == "version" || n == "list-functions" || n == "list-parameters" || n == "sample-config"; }
static vector<string> without(const vector<string>& base, const Opt& o) { vector<string> a; for (size_t i = 0; i < base.size(); i++) if (base[i] == "--" + o.lng || (!o.shrt.empty() && base[i] == o.shrt)) i++; else a.push_back(base[i]); return a; }
static bool unknown(const R& r) { string t = r.out + r.err; for (char& c : t) c = (char)tolower(c); return t.find("unrecognized") != string::npos || t.find("unknown option") != string::npos; }
MC_PART(options) {
  int k = mc::choose(5); const Prog& p = progs()[k]; vector<Opt> os = options(p); MC_CHECK(os.size() >= 10, "help", "the help of %s announces %zu options", p.name, os.size()); Opt o = mc::pick(os); int form = mc::choose(3); mc::shard(); string v; vector<string> with; bool kn = value(o.lng, v, with, k == 0 || k == 3); if (o.arg.empty()) { if (form == 2) mc::prune(); } else if (!kn) v = "1"; if (form == 1 && o.shrt.empty()) mc::prune(); world();
  vector<string> a; if (info(o.lng)) a = {}; else a = without(p.base, o); if (o.lng == "append") { R r = call(p, p.base); } a.insert(a.end(), with.begin(), with.end()); if (form == 2) a.push_back("--" + o.lng + "=" + v); else { a.push_back(form == 1 ? o.shrt : "--" + o.lng); if (!o.arg.empty()) a.push_back(v); }
  R r = call(p, a); mc::note("status %d\n%s%s", r.st, r.out.c_str(), r.err.c_str()); MC_CHECK(!unknown(r), "announced", "%s announces --%s, but does not know it", p.name, o.lng.c_str()); if (info(o.lng)) MC_CHECK(!(r.out + r.err).empty(), "no-answer", "%s --%s says nothing", p.name, o.lng.c_str()); else if (o.arg.empty() || kn) MC_CHECK(r.st == 0, "announced-fails", "%s with --%s %s ends with status %d:\n%s", p.name, o.lng.c_str(), v.c_str(), r.st, r.err.c_str());
  if (kn && v.find("out/") == 0 && r.st == 0 && !(k == 3 && (o.lng == "save-residual" || o.lng == "save-weights")) && !(k == 4 && o.lng == "output-functions")) { bool any = false; for (auto& f : r.files) any |= f.find(v) == 0 || (f.find(v.substr(0, v.rfind('.'))) == 0 && v.rfind('.') != string::npos); MC_CHECK(any, "no-output", "%s with --%s %s has written no such file", p.name, o.lng.c_str(), v.c_str()); }
  clean(r); mc::state((mc::Hash()(k)(o.lng)(form)).h);
}
// options that do not exist, or lack their value, are refused
MC_PART(typos) {
  int k = mc::choose(5); const Prog& p = progs()[k]; vector<Opt> os = options(p); Opt o = mc::pick(os); mc::shard(); vector<string> es = edits(o.lng); es.push_back(""); string e = mc::pick(es); world(); vector<string> a = p.base; if (e.empty()) { if (o.arg.empty()) mc::prune(); a = without(p.base, o); a.push_back("--" + o.lng); } else { for (auto& x : os) if (x.lng == e) mc::prune(); if (e == "nosubsampling" || e == "no-subsampling" || e[0] == '-') mc::prune(); a.push_back("--" + e); string v; vector<string> w; value(o.lng, v, w); if (!o.arg.empty()) a.push_back(v.empty() ? "1" : v); }
  R r = call(p, a); MC_CHECK(r.st != 0, e.empty() ? "no-value" : "typo", "%s accepts --%s%s", p.name, e.empty() ? o.lng.c_str() : e.c_str(), e.empty() ? " without its value" : ", which its help does not announce"); clean(r); mc::state((mc::Hash()(k)(o.lng)(e)).h);
}
// announced default names of outputs
MC_PART(defaults) {
  int k = mc::choose(5); const Prog& p = progs()[k]; vector<Opt> os = options(p), d; for (auto& o : os) if (!o.dflt.empty() && !o.arg.empty() && isalpha(o.dflt[0])) d.push_back(o); MC_CHECK(!d.empty(), "help", "%s announces no default output", p.name); Opt o = mc::pick(d); mc::shard(); world(); R r = call(p, p.base); bool any = false; string l; for (auto& f : r.files) { any |= f.find(o.dflt) == 0; l += f + " "; } MC_CHECK(r.st == 0 && any, "default-name", "%s: the announced default of --%s is %s, written: %s", p.name, o.lng.c_str(), o.dflt.c_str(), l.c_str()); clean(r); mc::state((mc::Hash()(k)(o.lng)).h);
}
// "uncomment and edit if needed"; "this file can also be used with imfit": the sample files, with any of their commented-out lines made active, in the other programs
MC_PART(samplelines) {
  int k = mc::pick(vector<int>{0, 2}), mask = mc::choose(k ? 1 : 32), q = mc::choose(3); mc::shard(); world(); string fn = k ? "config_makeimage_sample.dat" : "config_imfit_sample.dat"; call(progs()[k], {"--sample-config"}); string t = slurp(fn), s; int n = 0; for (auto& l : lines(t)) { string u = l; if (l.size() > 2 && l[0] == '#' && l[1] == ' ' && isupper(l[2]) && isupper(l[3])) { string w = trim(l.substr(2)); size_t e = w.find_first_of(" \t"); bool key = e != string::npos; for (size_t i = 0; key && i < e; i++) key = isupper(w[i]) || w[i] == '_'; if (key && (isdigit(trim(w.substr(e))[0]))) { if (mask >> n & 1) u = w; n++; } } s += u + "\n"; }
  MC_CHECK(k == 2 || n == 5, "sample-lines", "the imfit sample configuration offers %d image-description lines", n); spit("use", s); Img big; big.c = 30; big.r = 28; big.v.assign(30 * 28, 100); put("big.fits", big); vector<string> a = q == 0 ? vector<string>{"big.fits", "-c", "use", "--fitstat-only"} : q == 1 ? vector<string>{"big.fits", "-c", "use", "-o", "out/c", "--nchains", "7", "--max-chain-length", "2", "--burnin-length", "1", "--gelman-evals", "1", "--seed", "3"} : vector<string>{"use", "-o", "out/s.fits", "--ncols", "20", "--nrows", "18"}; if (k == 2 && q == 1) mc::prune(); a.push_back("--max-threads"); a.push_back("1");
  R r = call(progs()[q], a); MC_CHECK(r.st == 0, "sample-refused", "%s does not accept the sample file of %s with lines %d made active: status %d\n%s%s", progs()[q].name, progs()[k].name, mask, r.st, s.c_str(), r.err.c_str()); MC_CHECK((r.out + r.err).find("nknown") == string::npos || q == 2 || k == 2, "sample-ignored", "%s does not know a line of the sample file:\n%s", progs()[q].name, (r.out + r.err).c_str());
  if (q == 0) { static std::map<int, double> plain; double v = after(r.out, "CHI-SQUARE = "); if (k == 0) { spit("use", t); R r0 = call(progs()[0], a); same(v, after(r0.out, "CHI-SQUARE = "), 1e-6 * (1 + fabs(v)), "sample-defaults", "the statistic with the sample file's \"default values\" made active"); clean(r0); } } clean(r); remove("big.fits"); remove(fn.c_str()); mc::state((mc::Hash()(k)(mask)(q)).h);
}
