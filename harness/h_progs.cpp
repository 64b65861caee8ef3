// P25: imfit, makeimage and imfit-mcmc, run from their main() with every single and every pair of deviations from a good
// command line (defective or merely different inputs): bad inputs are refused with a message and a failure status before
// anything is computed or written, good inputs succeed and leave the requested outputs.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "mc.h"
#include "capture.h"
#include "image_io.h"
#include <dirent.h>
#include <sys/stat.h>
#include <set>
#include <algorithm>
#include <fftw3.h>
using std::string; using std::vector;
extern int imfit_main_entry(int, char**); extern int mcmc_main_entry(int, char**); extern int makeimage_main_entry(int, char**);

enum { IMFIT, MCMC, MAKEIMAGE, NPROG }; static const char* PN[] = {"imfit", "imfit-mcmc", "makeimage"};

// ---- the input files
static string D() { return mc::scratch() + "/w"; }
static void cutFile(const string& from, const string& to, size_t n) { spit(to, slurp(from).substr(0, n)); }
static string crd(string s) { s.resize(80, ' '); return s; }
static void rawFits(const string& fn, const vector<string>& cards, size_t data) { string h; for (auto& c : cards) h += crd(c); h += crd("END"); h.resize((h.size() + 2879) / 2880 * 2880, ' '); string d(data, '\0'); d.resize((data + 2879) / 2880 * 2880, '\0'); spit(fn, h + d); }
static void img(const string& fn, int c, int r, int kind) {
  vector<double> v; for (int y = 1; y <= r; y++) for (int x = 1; x <= c; x++) { double p = 0; switch (kind) {
    case 0: p = 100 + 60 * exp(-0.5 * ((x - 4.3) * (x - 4.3) + (y - 3.8) * (y - 3.8)) / 2.0) + 2 * ((x * 5 + y * 3) % 7); break;   // data
    case 1: p = (x + 3 * y) % 11 == 0; break;                                          // mask
    case 2: p = 8 + (x * y) % 3; break;                                                // noise
    case 3: p = exp(-0.5 * ((x - 0.5 * (c + 1)) * (x - 0.5 * (c + 1)) + (y - 0.5 * (r + 1)) * (y - 0.5 * (r + 1)))); break;   // PSF
    case 4: p = 1; break; case 5: p = 0; break; case 6: p = x == 2 && y == 2 ? NAN : 1 + x; break; case 7: p = NAN; break; case 8: p = x == 2 && y == 2 ? 0 : 9; break; case 9: p = -1 - x; break; case 10: p = x == 1 && y == 1 ? NAN : 100 + x; break; } v.push_back(p); }
  Capture c1, c2(2); vector<string> h; SaveVectorAsImage(v.data(), fn, c, r, h);
}
static void prepare() {
  static bool done = false; if (done) return; done = true; mkdir(D().c_str(), 0700); if (chdir(D().c_str())) abort(); mkdir("dir", 0700); mkdir("dir.fits", 0700); mkdir("out", 0700);
  img("img.fits", 8, 7, 0); img("imgn.fits", 8, 7, 10); img("imgt.fits", 7, 8, 0); img("mask.fits", 8, 7, 1); img("maskz.fits", 8, 7, 4); img("noise.fits", 8, 7, 2); img("noisen.fits", 8, 7, 6); img("noise0.fits", 8, 7, 8); img("noiseneg.fits", 8, 7, 9);
  img("zeros.fits", 8, 7, 5); img("nans.fits", 8, 7, 7); img("psf.fits", 5, 5, 3); img("psfe.fits", 4, 6, 3); img("psf1.fits", 1, 1, 4); img("psfbig.fits", 15, 13, 3); img("psfn.fits", 5, 5, 6); img("psf0.fits", 5, 5, 5); img("psfneg.fits", 5, 5, 9); img("small.fits", 3, 3, 0);
  string f = slurp("img.fits"), p = slurp("psf.fits"); spit("trunc.fits", f.substr(0, f.size() - 2880 + 40)); spit("cuthdr.fits", f.substr(0, 700)); spit("empty.fits", ""); spit("text.fits", string(6000, 'x') + "\n");
  rawFits("cube.fits", {"SIMPLE  =                    T", "BITPIX  =                  -32", "NAXIS   =                    3", "NAXIS1  =                    8", "NAXIS2  =                    7", "NAXIS3  =                    2"}, 8 * 7 * 2 * 4);
  rawFits("line.fits", {"SIMPLE  =                    T", "BITPIX  =                  -32", "NAXIS   =                    1", "NAXIS1  =                   56"}, 56 * 4);
  rawFits("noimage.fits", {"SIMPLE  =                    T", "BITPIX  =                    8", "NAXIS   =                    0"}, 0);
  rawFits("zerosize.fits", {"SIMPLE  =                    T", "BITPIX  =                  -32", "NAXIS   =                    2", "NAXIS1  =                    0", "NAXIS2  =                    7"}, 0);
}
// ---- a command line with what it is expected to give
struct Cmd {
  int prog; string image = "img.fits", cfgName = "cfg", header, cfgText, section, psf, refimage, tail; vector<string> args, outs; bool writeCfg = true, limits = true, noImageArg = false, noCfgArg = false;
  bool mask = false, noise = false, de = false, lm = true, cash = false, overpsf = false, point = false, norm = true, sizeCmd = true, sizeCfg = false, fluxOnly = false, badSize = false, noSave = false, fitNone = false, noiseNone = false, noiseUnused = false, printOnly = false, unit = false;
  vector<string> bad; bool either = false; string root = "out/ch"; std::set<string> gaveOpt; vector<std::pair<string, bool>> hdrOpt;   // options of the configuration file: name, bad value
  void B(const string& w) { bad.push_back(w); }
  void A(std::initializer_list<string> l) { args.insert(args.end(), l.begin(), l.end()); }
};
struct Alt { string label; std::function<void(Cmd&)> f; };
struct Slot { string name; vector<Alt> alts; };
static const char* TWO = "FUNCTION Gaussian\nPA 30 fixed\nell 0.1 fixed\nI_0 55%s\nsigma 1.5 fixed\nFUNCTION FlatSky\nI_sky 100%s\n";
static string body(bool limits, int variant = 0) {
  string x = limits ? " 2,6" : "", r = limits ? " 5,400" : "", b; char t[400]; snprintf(t, sizeof t, TWO, r.c_str(), r.c_str());
  string X = "X0 4.2" + x + "\nY0 3.7 fixed\n";
  switch (variant) {
    case 1: return X + string(t) + "X0 3 fixed\nY0 3 fixed\nFUNCTION Gaussian\nPA 30 fixed\nell 0.1 fixed\nI_0 5 fixed\nsigma 1.5 fixed\n";
    case 2: return X + "FUNCTION Gaussian # LABEL a\nPA 30 fixed\nell 0.1 fixed\nI_0 55" + r + "\nsigma 1.5 fixed\n";
    case 3: return X + string(t) + "FUNCTION PointSource\nI_tot 20" + (limits ? " 1,50\n" : "\n");
    case 4: return X + "FUNCTION Gaussian\nPA 30 fixed\nell 0.1 fixed\nI_0 55 fixed\nsigma 1.5 fixed\n";   // one free parameter
  }
  return X + t;
}
static vector<Slot> slotsFor(int prog) {
  vector<Slot> S; bool fit = prog != MAKEIMAGE;
  auto cfg = [](const string& text) { return [text](Cmd& c) { c.cfgText = text; }; };
  auto cfgB = [](const string& text, const char* why) { return [text, why](Cmd& c) { c.cfgText = text; c.B(why); }; };
  auto rep = [](const string& a, const string& b) { string s = body(true); size_t i = s.find(a); if (i == string::npos) abort(); return s.replace(i, a.size(), b); };
  { Slot s; s.name = "configuration"; auto& a = s.alts;
    a.push_back({"two function sets", cfg(body(true, 1))}); a.push_back({"labelled", cfg(body(true, 2))}); a.push_back({"no limits", [](Cmd& c) { c.cfgText = body(false); c.limits = false; }});
    a.push_back({"point source", [](Cmd& c) { c.cfgText = body(true, 3); c.point = true; }}); a.push_back({"one free parameter", cfg(body(true, 4))}); a.push_back({"comments and blank lines", cfg("# first\n\n" + body(true) + "\n# last\n")}); a.push_back({"DOS line ends", [](Cmd& c) { string t; for (char ch : body(true)) { if (ch == '\n') t += '\r'; t += ch; } c.cfgText = t; c.either = true; }});
    a.push_back({"no newline at the end", cfg(body(true).substr(0, body(true).size() - 1))});
    a.push_back({"missing file", [](Cmd& c) { c.cfgName = "nofile"; c.writeCfg = false; c.B("missing configuration file"); }}); a.push_back({"a directory", [](Cmd& c) { c.cfgName = "dir"; c.writeCfg = false; c.B("configuration is a directory"); }}); a.push_back({"empty", cfgB("", "empty configuration file")}); a.push_back({"comments only", cfgB("# nothing\n\n", "no model")});
    a.push_back({"no function", cfgB("X0 3\nY0 4\n", "no function")}); a.push_back({"function without X0", cfgB("FUNCTION FlatSky\nI_sky 100\n", "no X0")}); a.push_back({"X0 only", cfgB("X0 3\nFUNCTION FlatSky\nI_sky 100\n", "no Y0")});
    a.push_back({"unknown function", cfgB(rep("FlatSky", "FlatSkye"), "unknown function")}); a.push_back({"function without name", cfgB(rep("FUNCTION FlatSky", "FUNCTION"), "no function name")}); a.push_back({"a parameter too few", cfgB(rep("sigma 1.5 fixed\n", ""), "missing parameter")}); a.push_back({"a parameter too many", cfgB(body(true) + "extra 3\n", "extra parameter")}); a.push_back({"value not a number", cfgB(rep("PA 30", "PA abc"), "value not numeric")}); a.push_back({"no value", cfgB(rep("PA 30 fixed", "PA"), "no value")});
    a.push_back({"parameter before X0", cfg("PA 3\n" + body(true))});
    if (fit) { a.push_back({"limits reversed", cfgB(rep("2,6", "6,2"), "limits reversed")}); a.push_back({"one limit", cfgB(rep("2,6", "2"), "only one limit")}); a.push_back({"limits not numbers", cfgB(rep("2,6", "a,b"), "limits not numeric")}); a.push_back({"value outside the limits", cfgB(rep("X0 4.2", "X0 8.2"), "value outside limits")}); a.push_back({"everything fixed", [rep](Cmd& c) { string t = body(true, 4); size_t i = t.find(" 2,6"); t.replace(i, 4, " fixed"); c.cfgText = t; c.either = true; }}); }
    a.push_back({"unfinished optional parameters", cfgB(rep("FUNCTION FlatSky\nI_sky 100 5,400\n", "FUNCTION FlatSky\nOPTIONAL_PARAMS_START\nmethod x\n"), "unfinished optional parameters")});
    S.push_back(s); }
  { Slot s; s.name = "configuration header"; auto& a = s.alts; auto H = [](const string& l, const string& o, bool bad) { return [l, o, bad](Cmd& c) { c.header += l + "\n"; c.hdrOpt.push_back({o, bad}); }; };
    a.push_back({"unknown keyword", H("FOO 3", "foo", false)});
    if (fit) { a.push_back({"good values", [](Cmd& c) { c.header = "GAIN 2.5\nREADNOISE 0.7\nEXPTIME 20\nNCOMBINED 3\nORIGINAL_SKY 10\n"; }}); for (string k : {"GAIN gain", "READNOISE readnoise", "EXPTIME exptime", "NCOMBINED ncombined", "ORIGINAL_SKY sky"}) { string K = k.substr(0, k.find(' ')), o = k.substr(k.find(' ') + 1); a.push_back({K + " not a number", H(K + " abc", o, true)}); if (o != "sky") a.push_back({K + " negative", H(K + " -2", o, true)}); else a.push_back({K + " negative", H(K + " -2.5", o, false)}); a.push_back({K + " without value", [K](Cmd& c) { c.header += K + "\n"; c.either = true; }}); } }
    else { a.push_back({"size", [](Cmd& c) { c.header += "NCOLS 6\nNROWS 5\n"; c.sizeCfg = true; }}); a.push_back({"only columns", [](Cmd& c) { c.header += "NCOLS 6\n"; }}); for (string K : {"NCOLS", "NROWS"}) { for (string v : {"abc", "-2", "0"}) a.push_back({K + " " + v, [K, v](Cmd& c) { c.header += K + " " + v + "\n"; c.hdrOpt.push_back({K == "NCOLS" ? "ncols" : "nrows", true}); }}); a.push_back({K + " without value", [K](Cmd& c) { c.header += K + "\n"; c.either = true; }}); } }
    S.push_back(s); }
  static const char* badImg[][2] = {{"nofile.fits", "missing"}, {"dir.fits", "a directory"}, {"trunc.fits", "truncated"}, {"cuthdr.fits", "cut in the header"}, {"empty.fits", "empty"}, {"text.fits", "not FITS"}, {"cube.fits", "three-dimensional"}, {"line.fits", "one-dimensional"}, {"noimage.fits", "without pixels"}, {"zerosize.fits", "of size zero"}};
  if (fit) {
    Slot s; s.name = "data image"; auto& a = s.alts; a.push_back({"section", [](Cmd& c) { c.section = "[2:7,2:6]"; }}); a.push_back({"first extension", [](Cmd& c) { c.image = "img.fits[0]"; }}); a.push_back({"some NaN", [](Cmd& c) { c.image = "imgn.fits"; }}); a.push_back({"all NaN", [](Cmd& c) { c.image = "nans.fits"; c.fitNone = true; }}); a.push_back({"all zero", [](Cmd& c) { c.image = "zeros.fits"; c.either = true; }});
    for (auto& b : badImg) { string n = b[0], w = b[1]; a.push_back({w, [n, w](Cmd& c) { c.image = n; c.B("data image " + w); }}); }
    for (string z : {"[2:17,2:6]", "[2:7", "[abc]"}) a.push_back({"section " + z, [z](Cmd& c) { c.image += z; c.B("image section " + z); }});
    a.push_back({"none given", [](Cmd& c) { c.noImageArg = true; c.B("no image"); }}); S.push_back(s);
    auto second = [&](const string& opt, vector<std::pair<string, string>> good) {
      Slot s; s.name = opt; auto set = [opt](Cmd& c, const string& f) { (opt == "mask" ? c.mask : c.noise) = true; c.A({"--" + opt, f}); };
      for (auto& g : good) { string f = g.first; s.alts.push_back({g.second, [f, set](Cmd& c) { set(c, f + c.section); }}); }
      for (auto& b : badImg) { string n = b[0], w = b[1]; s.alts.push_back({w, [n, w, set, opt](Cmd& c) { set(c, n); c.B(opt + " image " + w); }}); }
      s.alts.push_back({"other size", [set, opt](Cmd& c) { set(c, "imgt.fits"); c.B(opt + " image of another size"); }}); s.alts.push_back({"full image for a section, section for the full image", [set, opt](Cmd& c) { set(c, opt + ".fits" + (c.section.empty() ? "[1:7,1:7]" : "")); c.B(opt + " image of another size"); }}); s.alts.push_back({"without value", [opt](Cmd& c) { c.tail = "--" + opt; c.B("option without value"); }});
      return s; };
    Slot m = second("mask", {{"mask.fits", "some pixels"}, {"zeros.fits", "no pixel"}}); m.alts.push_back({"zero is bad", [](Cmd& c) { c.mask = true; c.A({"--mask", "maskz.fits" + c.section, "--mask-zero-is-bad"}); }}); m.alts.push_back({"every pixel", [](Cmd& c) { c.mask = true; c.fitNone = true; c.A({"--mask", "maskz.fits" + c.section}); }}); S.push_back(m);
    Slot n = second("noise", {{"noise.fits", "plain"}, {"noisen.fits", "a NaN"}, {"noise0.fits", "a zero"}}); for (string o : {"variances", "weights"}) n.alts.push_back({o, [o](Cmd& c) { c.noise = true; c.A({"--noise", "noise.fits" + c.section, "--errors-are-" + o}); }}); n.alts.push_back({"negative", [](Cmd& c) { c.noise = true; c.A({"--noise", "noiseneg.fits" + c.section}); c.either = true; }}); n.alts.push_back({"all NaN", [](Cmd& c) { c.noise = true; c.A({"--noise", "nans.fits" + c.section}); c.noiseNone = true; }}); S.push_back(n);
  }
  { Slot s; s.name = "PSF"; auto& a = s.alts; auto set = [](const string& f) { return [f](Cmd& c) { c.psf = f; c.A({"--psf", f}); }; };
    a.push_back({"5x5", set("psf.fits")}); a.push_back({"4x6", set("psfe.fits")}); a.push_back({"1x1", set("psf1.fits")}); a.push_back({"larger than the image", set("psfbig.fits")}); a.push_back({"section", set("psfbig.fits[6:10,5:9]")}); a.push_back({"not normalised", [](Cmd& c) { c.psf = "psf.fits"; c.A({"--psf", "psf.fits", "--no-normalize"}); }});
    for (auto& b : badImg) { string n = b[0], w = b[1]; a.push_back({w, [n, w](Cmd& c) { c.psf = n; c.A({"--psf", n}); c.B("PSF image " + w); }}); }
    a.push_back({"a NaN", [](Cmd& c) { c.A({"--psf", "psfn.fits"}); c.B("NaN in the PSF"); }}); a.push_back({"zeros", [](Cmd& c) { c.A({"--psf", "psf0.fits"}); c.B("PSF of sum zero"); }}); a.push_back({"negative", [](Cmd& c) { c.A({"--psf", "psfneg.fits"}); c.B("PSF of negative sum"); }}); S.push_back(s); }
  { Slot s; s.name = "oversampled PSF"; auto& a = s.alts; auto O = [](std::initializer_list<string> l) { vector<string> v = l; return [v](Cmd& c) { c.overpsf = true; for (size_t i = 0; i + 1 < v.size(); i += 2) { c.args.push_back("--overpsf" + v[i]); c.args.push_back(v[i + 1]); } }; };
    auto OB = [O](std::initializer_list<string> l, const char* why) { auto f = O(l); return [f, why](Cmd& c) { f(c); c.B(why); }; };
    a.push_back({"one region", O({"", "psf.fits", "_scale", "3", "_region", "3:5,3:5"})}); a.push_back({"brackets", O({"", "psf.fits", "_scale", "2", "_region", "[3:5,3:5]"})}); a.push_back({"two regions, one PSF", O({"", "psf.fits", "_scale", "3", "_region", "3:4,3:5", "_region", "6:6,2:3"})}); a.push_back({"two regions, two PSFs", O({"", "psf.fits", "_scale", "3", "_region", "3:4,3:5", "", "psfe.fits", "_scale", "1", "_region", "6:6,2:3"})}); a.push_back({"region partly outside", O({"", "psf.fits", "_scale", "3", "_region", "-3:4,3:50"})});
    a.push_back({"no region", OB({"", "psf.fits", "_scale", "3"}, "no oversampling region")}); a.push_back({"no scale", OB({"", "psf.fits", "_region", "3:5,3:5"}, "no oversampling scale")}); a.push_back({"two PSFs, one scale", OB({"", "psf.fits", "", "psfe.fits", "_scale", "3", "_region", "3:4,3:5", "_region", "6:6,2:3"}, "two oversampled PSFs with one scale")}); a.push_back({"two PSFs, one region", OB({"", "psf.fits", "", "psfe.fits", "_scale", "3", "_scale", "2", "_region", "3:4,3:5"}, "two oversampled PSFs with one region")}); a.push_back({"two PSFs, three regions", OB({"", "psf.fits", "", "psfe.fits", "_scale", "3", "_scale", "2", "_region", "3:4,3:5", "_region", "6:6,2:3", "_region", "7:7,4:4"}, "two oversampled PSFs with three regions")}); a.push_back({"one PSF, two scales", OB({"", "psf.fits", "_scale", "3", "_scale", "2", "_region", "3:4,3:5", "_region", "6:6,2:3"}, "one oversampled PSF with two scales")});
    for (string z : {"0", "abc", "-2", "1.5"}) { auto f = O({"", "psf.fits", "_scale", z, "_region", "3:5,3:5"}); a.push_back({"scale " + z, [f, z](Cmd& c) { f(c); if (z == "1.5") c.either = true; else c.B("oversampling scale " + z); }}); }
    for (string z : {"abc", "3:5", "3,5", "30:50,3:5", "5:3,3:5", "", "3:5,3:5,3:5", "3:,3:5"}) { auto f = O({"", "psf.fits", "_scale", "2", "_region", z}); a.push_back({"region " + z, [f, z](Cmd& c) { f(c); c.B("oversampling region \"" + z + "\""); }}); }
    for (auto& b : badImg) { string n = b[0], w = b[1]; auto f = O({"", n, "_scale", "2", "_region", "3:5,3:5"}); a.push_back({w, [f, w](Cmd& c) { f(c); c.B("oversampled PSF image " + w); }}); }
    for (string z : {"psfn.fits", "psf0.fits", "psfneg.fits"}) { auto f = O({"", z, "_scale", "2", "_region", "3:5,3:5"}); a.push_back({z, [f, z](Cmd& c) { f(c); c.B("unusable oversampled PSF"); }}); }
    S.push_back(s); }
  auto num = [&](const string& opt, vector<string> good, vector<string> bad) { Slot s; s.name = opt; for (auto& g : good) s.alts.push_back({g, [opt, g](Cmd& c) { c.A({"--" + opt, g}); c.gaveOpt.insert(opt); }}); for (auto& b : bad) s.alts.push_back({"'" + b + "'", [opt, b](Cmd& c) { c.A({"--" + opt, b}); c.gaveOpt.insert(opt); c.B(opt + " '" + b + "'"); }}); s.alts.push_back({"without value", [opt](Cmd& c) { c.tail = "--" + opt; c.B("option without value"); }}); S.push_back(s); };
  vector<string> br0 = {"abc", "-1", "x0.3", ".", "0", "0.0"}, bi = {"abc", "-1", "0", "x3"}, br = {"abc", "-1", "x0.3", "."};
  if (fit) { num("gain", {"2.5", ".5"}, br0); num("readnoise", {"3", "0"}, br); num("exptime", {"30"}, br0); num("ncombined", {"4"}, bi); num("sky", {"10.5", "-3"}, {"abc", "x3", "."}); }
  num("max-threads", {"1", "2"}, bi);
  if (fit) num("seed", {"5"}, bi);
  if (prog == IMFIT) {
    num("ftol", {"0.01"}, br);
    { Slot s; s.name = "solver"; auto& a = s.alts; auto N = [](std::initializer_list<string> l) { vector<string> v = l; return [v](Cmd& c) { c.lm = false; c.args.insert(c.args.end(), v.begin(), v.end()); }; }; a.push_back({"N-M", N({"--nm"})}); for (string z : {"NM", "SBPLX", "BOBYQA", "COBYLA", "NEWUOA"}) a.push_back({z, N({"--nlopt", z})}); for (string z : {"de", "de-lhs"}) { auto f = N({"--" + z}); a.push_back({z, [f](Cmd& c) { f(c); c.de = true; }}); } for (string z : {"FOO", "bobyqa", "", "NMX"}) { auto f = N({"--nlopt", z}); a.push_back({"NLopt '" + z + "'", [f](Cmd& c) { f(c); c.B("unknown NLopt solver"); }}); } a.push_back({"nlopt without value", [](Cmd& c) { c.tail = "--nlopt"; c.B("option without value"); }}); S.push_back(s); }
    { Slot s; s.name = "bootstrap"; auto& a = s.alts; a.push_back({"2", [](Cmd& c) { c.A({"--bootstrap", "2"}); }}); a.push_back({"2, saved", [](Cmd& c) { c.A({"--bootstrap", "2", "--save-bootstrap", "out/boot.dat"}); c.outs.push_back("out/boot.dat"); }}); a.push_back({"saved in a missing directory", [](Cmd& c) { c.A({"--bootstrap", "2", "--save-bootstrap", "nodir/boot.dat"}); c.unit = true; }}); for (auto& z : bi) a.push_back({"'" + z + "'", [z](Cmd& c) { c.A({"--bootstrap", z}); c.B("bootstrap " + z); }}); S.push_back(s); }
    { Slot s; s.name = "outputs"; auto& a = s.alts; for (string z : {"model", "residual", "weights"}) { a.push_back({z, [z](Cmd& c) { c.A({"--save-" + z, "out/" + z + ".fits"}); c.outs.push_back("out/" + z + ".fits"); }}); a.push_back({z + " in a missing directory", [z](Cmd& c) { c.A({"--save-" + z, "nodir/" + z + ".fits"}); c.unit = true; }}); a.push_back({z + " without value", [z](Cmd& c) { c.tail = "--save-" + z; c.B("option without value"); }}); }
      a.push_back({"all", [](Cmd& c) { for (string z : {"model", "residual", "weights"}) { c.A({"--save-" + z, "out/" + z + ".fits"}); c.outs.push_back("out/" + z + ".fits"); } }}); a.push_back({"parameters in a missing directory", [](Cmd& c) { c.A({"--save-params", "nodir/p.dat"}); c.unit = true; }}); a.push_back({"statistic only", [](Cmd& c) { c.A({"--chisquare-only"}); c.printOnly = true; }}); a.push_back({"statistic only (2)", [](Cmd& c) { c.A({"--fitstat-only"}); c.printOnly = true; }}); S.push_back(s); }
  }
  if (fit) { Slot s; s.name = "statistic"; for (string z : {"model-errors", "cashstat", "mlr", "poisson-mlr"}) s.alts.push_back({z, [z](Cmd& c) { c.A({"--" + z}); c.noiseUnused = z != "model-errors"; if (z == "cashstat") c.cash = true; }}); S.push_back(s); }
  if (prog == MCMC) {
    num("nchains", {"3", "2"}, {"abc", "-1", "0"}); num("max-chain-length", {"8", "1"}, {"abc", "-1", "0"}); num("burnin-length", {"3", "50"}, {"abc", "-1", "0"}); num("gelman-evals", {"10", "1000"}, {"abc", "-1", "0"}); num("gelman-rubin-limit", {"1.2"}, {"abc", "-1"}); num("uniform-offset", {"0.01", "0"}, {"abc", "-1"}); num("gaussian-offset", {"1e-4"}, {"abc", "-1"});
    { Slot s; s.name = "outputs"; auto& a = s.alts; a.push_back({"in a missing directory", [](Cmd& c) { c.root = "nodir/ch"; c.B("chain files cannot be written"); }}); a.push_back({"append without chains", [](Cmd& c) { c.A({"--append"}); c.B("no chains to continue"); }}); a.push_back({"default name", [](Cmd& c) { c.root = ""; }}); S.push_back(s); }
  }
  if (!fit) {
    { Slot s; s.name = "size"; auto& a = s.alts; a.push_back({"none", [](Cmd& c) { c.sizeCmd = false; }}); a.push_back({"columns only", [](Cmd& c) { c.sizeCmd = false; c.gaveOpt.insert("ncols"); c.A({"--ncols", "6"}); c.badSize = true; }}); a.push_back({"rows only", [](Cmd& c) { c.sizeCmd = false; c.gaveOpt.insert("nrows"); c.A({"--nrows", "6"}); c.badSize = true; }}); for (auto& z : bi) { a.push_back({"columns '" + z + "'", [z](Cmd& c) { c.sizeCmd = false; c.A({"--ncols", z, "--nrows", "5"}); c.B("ncols " + z); }}); a.push_back({"rows '" + z + "'", [z](Cmd& c) { c.sizeCmd = false; c.A({"--ncols", "6", "--nrows", z}); c.B("nrows " + z); }}); }
      a.push_back({"reference image", [](Cmd& c) { c.sizeCmd = false; c.refimage = "img.fits"; }}); a.push_back({"section of a reference image", [](Cmd& c) { c.sizeCmd = false; c.refimage = "img.fits[2:7,2:6]"; }});
      for (auto& b : badImg) { string n = b[0], w = b[1]; if (n == "trunc.fits") continue; a.push_back({"reference image " + w, [n, w](Cmd& c) { c.sizeCmd = false; c.refimage = n; }}); }
      S.push_back(s); }
    { Slot s; s.name = "outputs"; auto& a = s.alts; a.push_back({"single functions", [](Cmd& c) { c.A({"--output-functions", "out/fn_"}); c.outs.push_back("out/fn_1_Gaussian.fits"); }}); a.push_back({"fluxes", [](Cmd& c) { c.A({"--print-fluxes"}); c.fluxOnly = c.noSave = true; }}); a.push_back({"fluxes saved", [](Cmd& c) { c.A({"--save-fluxes", "out/fl.dat"}); c.outs.push_back("out/fl.dat"); }}); a.push_back({"fluxes only, saved", [](Cmd& c) { c.A({"--save-fluxes", "out/fl.dat", "--nosave"}); c.outs.push_back("out/fl.dat"); c.fluxOnly = c.noSave = true; }}); a.push_back({"fluxes in a missing directory", [](Cmd& c) { c.A({"--save-fluxes", "nodir/fl.dat"}); c.unit = true; }}); a.push_back({"not saved", [](Cmd& c) { c.A({"--nosave"}); c.noSave = true; }}); a.push_back({"image in a missing directory", [](Cmd& c) { c.root = "nodir/m.fits"; c.unit = true; }}); a.push_back({"default name", [](Cmd& c) { c.root = ""; }}); a.push_back({"single functions in a missing directory", [](Cmd& c) { c.A({"--output-functions", "nodir/fn_"}); c.unit = true; }}); a.push_back({"expanded", [](Cmd& c) { c.A({"--save-expanded"}); c.root = ""; c.outs.push_back("expanded_modelimage.fits"); }}); S.push_back(s); }
    num("zero-point", {"25", "-3.5"}, {"abc", "x2", "."}); num("timing", {"2"}, bi); num("estimation-size", {"10"}, bi); num("debug", {"0", "1"}, {"abc"});
  }
  { Slot s; s.name = "command line"; auto& a = s.alts; a.push_back({"unknown option", [](Cmd& c) { c.A({"--foo"}); c.B("unknown option"); }}); a.push_back({"unknown option with value", [](Cmd& c) { c.A({"--foo=3"}); c.B("unknown option"); }}); a.push_back({"no subsampling", [](Cmd& c) { c.A({"--no-subsampling"}); }}); a.push_back({"'=' form", [](Cmd& c) { c.A({"--max-threads=1"}); }});
    if (fit) a.push_back({"no configuration option", [](Cmd& c) { c.noCfgArg = true; c.B("no configuration file given and none of the default name"); }}); if (fit) for (string z : {"silent", "quiet", "loud"}) a.push_back({z, [z](Cmd& c) { c.A({"--" + z}); }});
    if (!fit) a.push_back({"no configuration file", [](Cmd& c) { c.noCfgArg = true; c.B("no configuration file"); }});
    S.push_back(s); }
  return S;
}
static bool readable(const string& fn) { if (fn.size() > 5 && fn.substr(fn.size() - 5) == ".fits") { int c, r; Capture c1, c2(2); double* p = ReadImageAsVector(fn, &c, &r); if (!p) return false; fftw_free(p); return true; } return slurp(fn).size() > 40; }
static vector<string> ls(const string& d) { vector<string> v; DIR* p = opendir(d.c_str()); while (dirent* e = readdir(p)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(p); std::sort(v.begin(), v.end()); return v; }
static const std::set<string>& inputs() { static std::set<string> s; if (s.empty()) for (auto& f : ls(".")) s.insert(f); return s; }
static void clean() { for (auto& f : ls(".")) if (!inputs().count(f)) remove(f.c_str()); for (auto& f : ls("out")) remove(("out/" + f).c_str()); }
static string haveMsg(const string& t) { for (string k : {"ERROR", "Error", "error", "WARNING", "Warning", "nable to", "ouldn't open", "ailure", "usage", "Usage"}) if (t.find(k) != string::npos) return k; return ""; }

static int runMain(int prog, int argc, char** argv) {
  jmp_buf jb; mc::exitJump() = &jb; if (setjmp(jb)) return mc::exitStatus();
  int st = prog == IMFIT ? imfit_main_entry(argc, argv) : prog == MCMC ? mcmc_main_entry(argc, argv) : makeimage_main_entry(argc, argv); mc::exitJump() = nullptr; return st;
}
static void runOne(int prog, int maxDev) {
  static vector<Slot> all[NPROG]; if (all[prog].empty()) all[prog] = slotsFor(prog); auto& S = all[prog]; prepare(); inputs();
  Cmd c; c.prog = prog; c.cfgText = body(true); mc::Hash h; h(prog); int from = 0; string desc;
  vector<std::pair<int, int>> dev; for (int d = 0; d < maxDev; d++) { int n = (int)S.size() - from; int k = n ? mc::choose(n + 1) : 0; if (d == 0) {} if (!k) break; int si = from + k - 1, ai = mc::choose((int)S[si].alts.size()); if (d == 0) mc::shard(); dev.push_back({si, ai}); from = si + 1; h(si)(ai); desc += (desc.empty() ? "" : "; ") + S[si].name + ": " + S[si].alts[ai].label; }
  mc::note("%s [%s]", PN[prog], desc.c_str());
  // deviations that only change text come first (sections are used by others)
  for (auto& d : dev) if (S[d.first].name != "mask" && S[d.first].name != "noise") S[d.first].alts[d.second].f(c);
  for (auto& d : dev) if (S[d.first].name == "mask" || S[d.first].name == "noise") S[d.first].alts[d.second].f(c);
  // what depends on more than one input
  for (auto& o : c.hdrOpt) if (o.second) { if (c.gaveOpt.count(o.first) || (prog == MAKEIMAGE && c.sizeCmd)) c.either = true; else c.B(o.first + " in the configuration file"); }
  if (prog == MCMC && !c.limits) c.B("no limits"); if (c.de && !c.limits) c.B("no limits"); if (prog == IMFIT && c.cash && c.lm && !c.printOnly) c.B("Cash with LM"); if (c.point && (c.psf.empty() || c.psf == "psf1.fits")) c.B("point source without (large enough) PSF");
  if (c.noiseNone && !c.noiseUnused) c.fitNone = true; if (c.fitNone) c.B("no valid pixel"); if (c.de && c.printOnly) c.either = true; 
  bool timed = std::count(c.args.begin(), c.args.end(), "--timing") > 0;
  if (prog == MAKEIMAGE && !c.sizeCmd && !c.fluxOnly && !c.noSave && !timed && c.bad.empty()) { bool ref = !c.refimage.empty(); if (c.sizeCfg) {} else if (!ref) { if (c.header.find("NCOLS") != string::npos && c.gaveOpt.count("nrows")) {} else c.B("no image size"); } }
  if (prog == MAKEIMAGE && !c.refimage.empty() && c.refimage.find("img.fits") != 0) { if (c.sizeCfg || c.fluxOnly || c.noSave || timed) c.either = true; else c.B("unusable reference image " + c.refimage); }
  if (prog == MAKEIMAGE && c.badSize && (c.sizeCfg || c.header.size())) c.either = true;
  // files and arguments
  clean(); if (c.writeCfg) spit("cfg", c.header + c.cfgText);
  vector<string> a = {PN[prog]}; if (prog == MAKEIMAGE) { if (!c.noCfgArg) a.push_back(c.cfgName); if (c.sizeCmd) for (string z : {"--ncols", "8", "--nrows", "7"}) a.push_back(z); if (!c.refimage.empty()) { a.push_back("--refimage"); a.push_back(c.refimage); } if (c.root == "out/ch") c.root = "out/m.fits"; if (!c.root.empty()) { a.push_back("-o"); a.push_back(c.root); } if (!c.noSave && !c.unit) c.outs.push_back(c.root.empty() ? "modelimage.fits" : c.root); if (std::count(c.args.begin(), c.args.end(), "--timing")) { vector<string> o; for (auto& f : c.outs) if (f == "out/fl.dat") o.push_back(f); c.outs = o; } if (c.noSave || std::count(c.args.begin(), c.args.end(), "--timing")) { vector<string> o; for (auto& f : c.outs) if (f == "out/fl.dat") o.push_back(f); c.outs = o; } if (std::count(c.args.begin(), c.args.end(), "--print-fluxes")) c.outs.clear(); }
  else { if (!c.noImageArg) a.push_back(c.image + c.section); if (!c.noCfgArg) { a.push_back("-c"); a.push_back(c.cfgName); } }
  bool have = false; auto has = [&](const string& o) { for (auto& x : c.args) if (x == o) return true; return false; };
  if ((has("--print-fluxes") || has("--save-fluxes")) && !has("--estimation-size")) { a.push_back("--estimation-size"); a.push_back("20"); } if (has("--timing")) { if (!has("--save-fluxes") || c.root == "nodir/m.fits") c.unit = false; }
  if (prog == IMFIT) { if (!has("--save-params")) { a.push_back("--save-params"); a.push_back("out/p.dat"); if (!c.printOnly) c.outs.push_back("out/p.dat"); } if (!has("--ftol")) { a.push_back("--ftol"); a.push_back(c.de ? "0.05" : "1e-3"); } if (!has("--max-threads")) { a.push_back("--max-threads"); a.push_back("1"); } }
  if (prog == MCMC) { if (!c.root.empty()) { a.push_back("-o"); a.push_back(c.root); } if (!has("--max-chain-length")) { a.push_back("--max-chain-length"); a.push_back("6"); } if (!has("--burnin-length")) { a.push_back("--burnin-length"); a.push_back("3"); } if (!has("--seed")) { a.push_back("--seed"); a.push_back("7"); } string r = c.root.empty() ? "mcmc_out" : c.root; for (string z : {".1.txt", ".2.txt"}) c.outs.push_back(r + z); }
  (void)have; a.insert(a.end(), c.args.begin(), c.args.end()); if (!c.tail.empty()) a.push_back(c.tail);
  string line; for (auto& x : a) line += (line.empty() ? "" : " ") + (x.empty() ? string("''") : x); mc::note(" %s", line.c_str());
  vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr); int st; string o, e; stopSignal_flag = 0;
  { Capture c1, c2(2); st = runMain(prog, (int)a.size(), v.data()); e = c2.done(); o = c1.done(); }
  mc::count("transitions"); string key = desc; if (chdir(D().c_str())) abort();
  if (c.either) { mc::count("unspecified"); if (st) MC_CHECK(!haveMsg(o + e).empty(), "no-message:" + key, "%s: status %d without an error message", line.c_str(), st); mc::state(h.h); return; }
  if (!c.bad.empty()) {
    mc::count("refused"); MC_CHECK((st & 255) != 0, string("accepted:") + c.bad[0], "%s: exit status %d although there is something wrong with the input (%s)\n%s%s", line.c_str(), st, c.bad[0].c_str(), o.c_str(), e.c_str());
    MC_CHECK(!haveMsg(o + e).empty(), string("no-message:") + c.bad[0], "%s: status %d without an error message", line.c_str(), st);
    for (auto& f : ls("out")) MC_CHECK(false, string("output:") + c.bad[0], "%s: refused, but left %s", line.c_str(), f.c_str()); for (auto& f : ls(".")) MC_CHECK(inputs().count(f) || f == "cfg", string("output:") + c.bad[0], "%s: refused, but left %s", line.c_str(), f.c_str());
    if (!c.de) MC_CHECK(o.find("Performing fit") == string::npos, string("late:") + c.bad[0], "%s: the fit was started", line.c_str());
  } else {
    mc::count("accepted"); if (!c.unit) MC_CHECK(st == 0, "refused", "%s: exit status %d with good input\n%s%s", line.c_str(), st, o.c_str(), e.c_str());
    if (c.unit) MC_CHECK(!haveMsg(e + (st ? o : "")).empty(), "unwritten", "%s: an output that cannot be written is not reported", line.c_str());
    if (!st) for (auto& f : c.outs) MC_CHECK(readable(f), "missing-output", "%s: no (usable) output %s", line.c_str(), f.c_str());
  }
  mc::state(h.h);
}
static int depth() { return getenv("MC_DEV") ? atoi(getenv("MC_DEV")) : mc::tier(2, 3); }
MC_PART(imfit) { runOne(IMFIT, depth()); }
MC_PART(mcmc) { runOne(MCMC, depth()); }
MC_PART(makeimage) { runOne(MAKEIMAGE, depth()); }
