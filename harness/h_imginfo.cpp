// P20: multi-image image-info files versus an independent reference parser, and the arrays of
// image-description parameters built from them.
#define MC_DEFINE_MAIN
#include "mc.h"
#include <algorithm>
#include <map>
#include <cmath>
#include <sys/mman.h>
#include "capture.h"
#include "definitions.h"
#include "definitions_multimage.h"
#include "utilities_pub.h"
#include "imageparams_file_parser.h"
using std::string; using std::vector; using std::map;

static string writeDoc(const string& text) {
  static int fd = memfd_create("info", 0);
  if (ftruncate(fd, 0) != 0) abort();
  if (!text.empty() && pwrite(fd, text.data(), text.size(), 0) != (ssize_t)text.size()) abort();
  return "/proc/self/fd/" + std::to_string(fd);
}
static vector<string> toks(const string& s) {
  vector<string> o; string c;
  for (char ch : s) { if (ch == ' ' || ch == '\t' || ch == '\n') { if (!c.empty()) o.push_back(c); c.clear(); } else c += ch; }
  if (!c.empty()) o.push_back(c);
  return o;
}
static bool num(const string& s, double& v) {
  if (s.empty() || s.find_first_not_of("0123456789.+-eE") != string::npos) return false;
  char* e; v = strtod(s.c_str(), &e); return *e == 0;
}
struct Par { double v = 0; mp_par lim; bool limUnspec = false; Par() { memset(&lim, 0, sizeof lim); } };
struct Img {
  map<string, string> str;                 // DATA, MASK, ERROR, PSF
  double weight = 1, gain = 1, readNoise = 0, sky = 0, expTime = 1; int nComb = 1, nc = 0, nr = 0;
  int maskFormat = MASK_ZERO_IS_GOOD, errorType = WEIGHTS_ARE_SIGMAS;
  vector<string> oPsf, oReg; vector<int> oScale;
  Par p[5];                                // PIXEL_SCALE, IMAGE_PA, FLUX_SCALE, X0, Y0
  bool funcs = false, flimFound = false; vector<string> fn, fl; vector<int> starts; vector<double> fv; vector<mp_par> flim;
  Img() { p[0].v = 1; p[2].v = 1; }
};
struct Ref { int status = 0; vector<Img> im; };   // status: 0 accepted, -1 rejected, 1 anything but a crash
static const char* PN[5] = {"PIXEL_SCALE", "IMAGE_PA", "FLUX_SCALE", "X0", "Y0"};

// 0 fine, -1 malformed, 1 well formed but limits inconsistent
static int parLine(const vector<string>& t, Par& out, bool& any) {
  Par p; any = false;
  if (t.size() < 2 || !num(t[1], p.v)) return -1;
  int rc = 0;
  if (t.size() > 2) {
    any = true;
    if (t[2] == "fixed") p.lim.fixed = 1;
    else {
      size_t c = t[2].find(','); double lo, hi;
      if (c == string::npos) return -1;
      if (!num(t[2].substr(0, c), lo) || !num(t[2].substr(c + 1), hi)) return -1;
      p.lim.limited[0] = p.lim.limited[1] = 1; p.lim.limits[0] = lo; p.lim.limits[1] = hi;
      if (lo >= hi || p.v < lo || p.v > hi) { rc = 1; p.limUnspec = true; }
    }
  }
  out = p; return rc;
}
static Ref refParse(const string& text) {
  Ref r; vector<vector<string>> L; vector<string> raw;
  string cur; vector<string> lines; for (char c : text) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) lines.push_back(cur);
  for (auto& l : lines) { auto t = toks(l.substr(0, l.find('#'))); if (t.empty()) continue; L.push_back(t); raw.push_back(l); }
  auto bad = []() { Ref x; x.status = -1; return x; };
  auto unspec = []() { Ref x; x.status = 1; return x; };
  bool any = false; for (auto& t : L) any |= (t[0] == "IMAGE_START");
  if (!any) return bad();
  bool odd = false, reject = false;
  enum { HEAD, IMG, FUN, OPT } st = HEAD; bool expectY = false, curFunc = false, setHasF = true;
  auto endFun = [&]() { if (st == FUN || st == OPT) { if (expectY) reject = true; if (!setHasF || st == OPT || r.im.back().fn.empty()) odd = true; } expectY = false; };
  for (size_t i = 0; i < L.size(); i++) {
    const auto& t = L[i]; const string& k = t[0];
    if (k == "IMAGE_START") { endFun(); r.im.push_back(Img()); st = IMG; continue; }
    if (k == "FUNCTIONS_START") {
      if (st == FUN || st == OPT) odd = true;
      if (st == HEAD) { odd = true; continue; }
      endFun(); st = FUN; r.im.back().funcs = true; curFunc = false; setHasF = true; expectY = false; continue;
    }
    bool flag = k == "MASK_ZERO_IS_GOOD" || k == "MASK_ZERO_IS_BAD" || k == "ERRORS_ARE_SIGMAS" || k == "ERRORS_ARE_VARIANCES" || k == "ERRORS_ARE_WEIGHTS";
    bool optl = k == "OPTIONAL_PARAMS_START" || k == "OPTIONAL_PARAMS_END";
    if (st == HEAD) { if (flag || optl) { odd = true; continue; } if (t.size() < 2) reject = true; else odd = odd || false; if (k == "X0" || k == "Y0" || k == "PIXEL_SCALE" || k == "IMAGE_PA" || k == "FLUX_SCALE" || k == "NCOLS,NROWS" || k == "NROWS,NCOLS") odd = true; continue; }
    if (st == IMG) {
      Img& m = r.im.back();
      if (flag) {
        if (k == "MASK_ZERO_IS_GOOD") m.maskFormat = MASK_ZERO_IS_GOOD;
        if (k == "MASK_ZERO_IS_BAD") m.maskFormat = MASK_ZERO_IS_BAD;
        if (k == "ERRORS_ARE_SIGMAS") m.errorType = WEIGHTS_ARE_SIGMAS;
        if (k == "ERRORS_ARE_VARIANCES") m.errorType = WEIGHTS_ARE_VARIANCES;
        if (k == "ERRORS_ARE_WEIGHTS") m.errorType = WEIGHTS_ARE_WEIGHTS;
        continue;
      }
      if (optl) { odd = true; continue; }
      if (t.size() < 2) { reject = true; continue; }
      const string& v = t[1]; double d = 0; bool isnum = num(v, d);
      int pi = -1; for (int q = 0; q < 5; q++) if (k == PN[q]) pi = q;
      if (pi >= 0) {
        bool a; Par p; int rc = parLine(t, p, a);
        if (rc < 0) { reject = true; continue; }
        if (pi < 2 && !p.lim.limited[0]) { memset(&p.lim, 0, sizeof p.lim); p.lim.fixed = 1; }
        m.p[pi] = p; continue;
      }
      if (k == "DATA" || k == "MASK" || k == "ERROR" || k == "PSF") { m.str[k] = v; continue; }
      if (k == "OVERSAMPLED_PSF") { m.oPsf.push_back(v); continue; }
      if (k == "OVERSAMPLED_REGION") { m.oReg.push_back(v); continue; }
      if (k == "NCOLS,NROWS" || k == "NROWS,NCOLS") {
        size_t c = v.find(','); double a, b;
        if (c == string::npos || c == 0 || c + 1 == v.size()) { reject = true; continue; }
        if (!num(v.substr(0, c), a) || !num(v.substr(c + 1), b)) { odd = true; continue; }
        if (k == "NCOLS,NROWS") { m.nc = (int)a; m.nr = (int)b; } else { m.nr = (int)a; m.nc = (int)b; }
        continue;
      }
      static const char* known[] = {"WEIGHT", "GAIN", "READNOISE", "ORIGINAL_SKY", "EXPTIME", "NCOLS", "NROWS", "NCOMBINED", "OVERSAMPLE_SCALE"};
      bool kn = false; for (auto q : known) kn |= (k == q);
      if (!kn) continue;                       // unknown keyword: no effect on anything else
      if (!isnum) { odd = true; continue; }
      if (k == "WEIGHT") m.weight = d; else if (k == "GAIN") m.gain = d; else if (k == "READNOISE") m.readNoise = d;
      else if (k == "ORIGINAL_SKY") m.sky = d; else if (k == "EXPTIME") m.expTime = d; else if (k == "NCOLS") m.nc = (int)d;
      else if (k == "NROWS") m.nr = (int)d; else if (k == "NCOMBINED") m.nComb = (int)d; else m.oScale.push_back((int)d);
      continue;
    }
    Img& m = r.im.back();
    if (k == "OPTIONAL_PARAMS_START") { if (expectY || st == OPT || !curFunc) odd = true; st = OPT; continue; }
    if (k == "OPTIONAL_PARAMS_END") { if (st != OPT) odd = true; st = FUN; continue; }
    if (st == OPT) { if (t.size() < 2) reject = true; if (k == "FUNCTION" || k == "X0" || k == "Y0") odd = true; continue; }
    if (k == "FUNCTION") {
      if (expectY) { reject = true; expectY = false; }
      if (t.size() < 2) { reject = true; continue; }
      if (m.starts.empty()) odd = true;
      m.fn.push_back(t[1]); size_t p = raw[i].find("LABEL"); string lab;
      if (p != string::npos) { lab = raw[i].substr(p + 5); size_t a = lab.find_first_not_of(" \t"), b = lab.find_last_not_of(" \t"); lab = a == string::npos ? "" : lab.substr(a, b - a + 1); }
      m.fl.push_back(lab); curFunc = true; setHasF = true; continue;
    }
    bool a; Par p; int rc = parLine(t, p, a);
    if (rc != 0) { reject = true; continue; }      // malformed, or inconsistent limits
    if (expectY) { if (k != "Y0") reject = true; expectY = false; }
    else if (k == "X0") { if (!setHasF) odd = true; m.starts.push_back((int)m.fn.size()); expectY = true; curFunc = false; setHasF = false; }
    else if (k == "Y0" || !curFunc) odd = true;
    m.fv.push_back(p.v); m.flim.push_back(p.lim); if (a) m.flimFound = true;
  }
  endFun();
  if (reject && odd) return unspec();
  if (reject) return bad();
  if (odd) return unspec();
  return r;
}
static string showDoc(const string& t) { string o; for (char c : t) { if (c == '\n') o += " | "; else if (c == '\t') o += "\\t"; else o += c; } return o; }
static bool limEq(const mp_par& a, const mp_par& b) {
  bool ok = a.fixed == b.fixed && a.limited[0] == b.limited[0] && a.limited[1] == b.limited[1];
  if (b.limited[0]) ok = ok && a.limits[0] == b.limits[0];
  if (b.limited[1]) ok = ok && a.limits[1] == b.limits[1];
  return ok;
}
static void stateOf(const Ref& r) {
  mc::Hash h; h(r.status);
  for (auto& m : r.im) {
    for (auto& s : m.str) h(s.first)(s.second);
    h(m.weight)(m.gain)(m.readNoise)(m.sky)(m.expTime)(m.nComb)(m.nc)(m.nr)(m.maskFormat)(m.errorType);
    for (auto& s : m.oPsf) h(s); for (auto& s : m.oReg) h(s); for (int s : m.oScale) h(s);
    for (auto& p : m.p) h(p.v)(p.lim.fixed)(p.lim.limited[0])(p.lim.limits[0])(p.lim.limits[1]);
    for (auto& s : m.fn) h(s); for (auto& s : m.fl) h(s); h(m.fv); for (auto& p : m.flim) h(p.fixed)(p.limited[0])(p.limits[0])(p.limits[1]);
    for (int s : m.starts) h(s);
  }
  mc::state(h.h);
}
static bool quietRead = true;
static void check(const string& text, bool stale = false) {
  Ref w = refParse(text); stateOf(w);
  string sd = showDoc(text);
  vector<ImageInfo> g; int n = -7;
  if (stale) { g.resize(3); g[0].gain = 77; g[1].psfOversampleRegions.push_back("x"); n = 3; }
  string path = writeDoc(text);
  mc::phase("ReadImageParamsFile"); mc::count("transitions");
  int st = ReadImageParamsFile(path, n, g);
  mc::phase("");
  if (w.status == 1) { mc::count("unspecified_documents"); return; }
  if (w.status < 0) { mc::count("rejected_documents"); MC_CHECK(st < 0, "accepts-bad", "malformed image-info file accepted: %s", sd.c_str()); return; }
  mc::count("accepted_documents");
  MC_CHECK(st == 0, "rejects-good", "valid image-info file rejected (%d): %s", st, sd.c_str());
  MC_CHECK(n == (int)w.im.size() && g.size() == w.im.size(), "count", "%d images reported, %d records, %d in file: %s", n, (int)g.size(), (int)w.im.size(), sd.c_str());
  for (size_t i = 0; i < w.im.size(); i++) {
    const Img& a = w.im[i]; const ImageInfo& b = g[i]; int I = (int)i;
    auto S = [&](const char* k, const string& got, bool present) {
      auto it = a.str.find(k); string want = it == a.str.end() ? "" : it->second;
      MC_CHECK(got == want && present == (it != a.str.end()), "names", "image %d: %s is '%s' (present %d): %s", I, k, got.c_str(), (int)present, sd.c_str());
    };
    S("DATA", b.dataImageFileName, b.dataImage_present); S("MASK", b.maskImageFileName, b.maskImage_present);
    S("ERROR", b.errorImageFileName, b.errorImage_present); S("PSF", b.psfImageFileName, b.psfImage_present);
    MC_CHECK(b.weight == a.weight && b.gain == a.gain && b.readNoise == a.readNoise && b.originalSky == a.sky && b.expTime == a.expTime, "numbers",
             "image %d: weight %g gain %g read noise %g sky %g exptime %g: %s", I, b.weight, b.gain, b.readNoise, b.originalSky, b.expTime, sd.c_str());
    MC_CHECK(b.nCombined == a.nComb && b.nColumns == a.nc && b.nRows == a.nr, "integers", "image %d: ncombined %d size %d x %d: %s", I, b.nCombined, b.nColumns, b.nRows, sd.c_str());
    MC_CHECK(b.maskFormat == a.maskFormat && b.errorType == a.errorType, "flags", "image %d: mask format %d error type %d: %s", I, b.maskFormat, b.errorType, sd.c_str());
    MC_CHECK(b.psfOversampledFileNames == a.oPsf && b.nOversampledFileNames == (int)a.oPsf.size() && b.psfOversampledImage_present == !a.oPsf.empty() &&
             b.psfOversampleRegions == a.oReg && b.nOversampleRegions == (int)a.oReg.size() && b.oversampleRegionSet == !a.oReg.empty() &&
             b.psfOversamplingScales == a.oScale && b.nOversamplingScales == (int)a.oScale.size(), "oversampling", "image %d: oversampling lists wrong: %s", I, sd.c_str());
    const double pv[5] = {b.pixelScale, b.rotation, b.intensityScale, b.x0, b.y0};
    const mp_par* pl[5] = {&b.pixelScale_limitInfo, &b.rotation_limitInfo, &b.intensityScale_limitInfo, &b.x0_limitInfo, &b.y0_limitInfo};
    for (int q = 0; q < 5; q++) {
      MC_CHECK(pv[q] == a.p[q].v, "image-params", "image %d: %s = %g, should be %g: %s", I, PN[q], pv[q], a.p[q].v, sd.c_str());
      if (!a.p[q].limUnspec) MC_CHECK(limEq(*pl[q], a.p[q].lim), "image-limits", "image %d: limits of %s wrong (fixed %d limited %d %d: %g,%g): %s", I, PN[q], pl[q]->fixed, pl[q]->limited[0], pl[q]->limited[1], pl[q]->limits[0], pl[q]->limits[1], sd.c_str());
    }
    MC_CHECK(b.perImageFunctionsExist == a.funcs, "local-exist", "image %d: local functions exist = %d: %s", I, (int)b.perImageFunctionsExist, sd.c_str());
    if (a.funcs) {
      MC_CHECK(b.perImageFuncNames == a.fn && b.perImageFuncLabels == a.fl && b.perImageFuncSetIndices == a.starts && b.perImageParamVals == a.fv, "local", "image %d: local functions wrong (%d functions, %d values): %s", I, (int)b.perImageFuncNames.size(), (int)b.perImageParamVals.size(), sd.c_str());
      MC_CHECK(b.perImageParamLimits.size() == a.flim.size() && b.perImageParamLimitsExist == a.flimFound, "local-limits", "image %d: %d limits for %d local parameters (flag %d): %s", I, (int)b.perImageParamLimits.size(), (int)a.flim.size(), (int)b.perImageParamLimitsExist, sd.c_str());
      for (size_t q = 0; q < a.flim.size(); q++) MC_CHECK(limEq(b.perImageParamLimits[q], a.flim[q]), "local-limits", "image %d: limits of local parameter %d wrong: %s", I, (int)q, sd.c_str());
    } else MC_CHECK(b.perImageFuncNames.empty() && b.perImageParamVals.empty() && b.perImageParamLimits.empty() && b.perImageFuncSetIndices.empty(), "local", "image %d has local functions of another image: %s", I, sd.c_str());
  }
  // parameter arrays
  for (int form = 0; form < 2; form++) {
    double* v; int np; vector<mp_par> lims; bool exist = form & 1;
    mc::phase("GetImageDescriptionParams"); mc::count("transitions");
    if (form == 0) std::tie(v, np) = GetImageDescriptionParams(g); else std::tie(v, np) = GetImageDescriptionParams(g, lims, exist);
    mc::phase("");
    int nw = 5 * ((int)w.im.size() - 1); bool wexist = false, unk = false;
    MC_CHECK(np == nw, "array-size", "%d image-description parameters for %d images: %s", np, (int)w.im.size(), sd.c_str());
    for (int i = 0; i < nw; i++) {
      const Par& p = w.im[1 + i / 5].p[i % 5];
      MC_CHECK(v[i] == p.v, "array", "image-description parameter %d = %g, should be %g: %s", i, v[i], p.v, sd.c_str());
      if (p.limUnspec) { unk = true; continue; }
      if (p.lim.fixed || p.lim.limited[0]) wexist = true;
      if (form == 1) MC_CHECK((int)lims.size() == nw && limEq(lims[i], p.lim), "array-limits", "limits of image-description parameter %d wrong: %s", i, sd.c_str());
    }
    if (form == 1 && !unk) MC_CHECK(exist == wexist, "array-flag", "limits reported %d, should be %d: %s", (int)exist, (int)wexist, sd.c_str());
    free(v);
  }
}
static string line(const string& s) { return s + "\n"; }

MC_PART(sequences) {
  static const vector<string> A = {
    "IMAGE_START", "FUNCTIONS_START", "FUNCTION Gaussian", "X0 40", "Y0 41", "PA 10", "X0 30 20,40", "Y0 7 fixed", "X0 40 10,", "X0 b", "sigma 2 3,4",
    "DATA a.fits", "NCOLS 5", "NCOLS,NROWS 6,7", "NROWS,NCOLS 8", "GAIN 2", "PIXEL_SCALE 2 1,3", "FLUX_SCALE 3 fixed", "IMAGE_PA", "MASK_ZERO_IS_BAD",
    "OVERSAMPLE_SCALE 3", "OPTIONAL_PARAMS_START", "OPTIONAL_PARAMS_END", "FUNCTION", "", "# IMAGE_START", "UNKNOWN 3", "x"};
  static const vector<string> P = {"", "IMAGE_START\n", "IMAGE_START\nDATA q.fits\nX0 3\n", "IMAGE_START\nIMAGE_START\n", "IMAGE_START\nFUNCTIONS_START\n", "IMAGE_START\nFUNCTIONS_START\nX0 1\nY0 2\n",
    "IMAGE_START\nFUNCTIONS_START\nX0 1\nY0 2\nFUNCTION Gaussian\nPA 0\n", "IMAGE_START\nFUNCTIONS_START\nX0 1 0,3\nY0 2\nFUNCTION Gaussian\nPA 0\nIMAGE_START\n"};
  string d = P[mc::choose((int)P.size())]; int depth = mc::tier(3, 4);
  for (int i = 0; i < depth; i++) { int c = mc::choose((int)A.size() + 1); mc::shard(); if (c == (int)A.size()) break; d += line(A[c]); }
  check(d);
}
struct KW { const char* k; vector<string> v; };
static const vector<KW>& kws() {
  static const vector<string> lim = {"2.5", "2.5 fixed", "2.5 1,3", "2.5 1.0,2.0", "-1e1 -20.0,0", "0", "-3.25 -4,-3", "2.5 fixed extra", "2.5 1,3 extra", "2.5 Fixed", "2.5 1;3", "abc", "2.5 a,b", "2.5 1,", "2.5 ,1", "2.5 ,", "2.5 1,2,3", "1 1,1"};
  static const vector<string> numb = {"2.5", "0", "-1", "1e3", "7 # 9", "abc", "3 4"}, file = {"a.fits", "dir/a.fits[1:20,3:4]", "IMAGE_START.fits", "x=#y", "FUNCTIONS_START"};
  static const vector<string> pair = {"6,7", "6,7 8", "6", "6,", ",7", "a,b", "6,7,8", ","};
  static const vector<KW> K = {{"PIXEL_SCALE", lim}, {"IMAGE_PA", lim}, {"FLUX_SCALE", lim}, {"X0", lim}, {"Y0", lim},
    {"WEIGHT", numb}, {"GAIN", numb}, {"READNOISE", numb}, {"ORIGINAL_SKY", numb}, {"EXPTIME", numb}, {"NCOMBINED", {"3", "1", "0", "x"}}, {"NCOLS", {"30", "0x10", "1"}}, {"NROWS", {"31", "2"}},
    {"NCOLS,NROWS", pair}, {"NROWS,NCOLS", pair}, {"DATA", file}, {"MASK", file}, {"ERROR", file}, {"PSF", file}, {"OVERSAMPLED_PSF", file}, {"OVERSAMPLED_REGION", {"1:2,3:4", "*"}}, {"OVERSAMPLE_SCALE", {"3", "5", "x"}},
    {"MASK_ZERO_IS_GOOD", {"", "1"}}, {"MASK_ZERO_IS_BAD", {"", "1"}}, {"ERRORS_ARE_SIGMAS", {"", "1"}}, {"ERRORS_ARE_VARIANCES", {"", "x y"}}, {"ERRORS_ARE_WEIGHTS", {"", "1"}},
    {"GAINS", {"4"}}, {"gain", {"4"}}, {"SKY", {"4"}}, {"IMAGE_STARTED", {"4"}}, {"NCOLS,NROWS,", {"4,5"}}};
  return K;
}
static string deco(int d, const string& l, const string& k) {
  size_t s = l.find(' '); string a = s == string::npos ? l : l.substr(0, s), b = s == string::npos ? "" : l.substr(s + 1);
  switch (d) {
    case 0: return l; case 1: return "  " + l; case 2: return "\t" + l + "  \t"; case 3: return s == string::npos ? l : a + "\t\t" + b; case 4: return l + "  # IMAGE_START"; case 5: return l + " #a,b fixed";
    case 6: return l + "# FUNCTIONS_START 4"; case 7: return "# " + l; case 8: return "\n" + l + "\n\n"; case 9: return l + " # X0 3 4,5 LABEL q"; case 10: return "#" + l; default: return " # " + k + " 99\n" + l;
  }
}
static string kwLine(const KW& k, int v) { return k.v[v].empty() ? string(k.k) : string(k.k) + " " + k.v[v]; }
MC_PART(keywords) {      // every keyword x value x decoration, in each of three images
  const KW& k = kws()[mc::choose((int)kws().size())]; mc::shard(); string l = kwLine(k, mc::choose((int)k.v.size()));
  l = deco(mc::choose(12), l, k.k);
  int where = mc::choose(4); string d;
  for (int i = 0; i < 3; i++) { d += line("IMAGE_START"); if (i == where) d += line(l); }
  if (where == 3) d = line(l) + d;
  check(d, mc::flip());
}
MC_PART(pairs) {         // two keyword lines, in the same image or in different images: last one wins, no inheritance
  const auto& K = kws();
  const KW& a = K[mc::choose((int)K.size())]; mc::shard(); const KW& b = K[mc::choose((int)K.size())];
  bool same = !strcmp(a.k, b.k);
  int va = mc::choose(same ? (int)a.v.size() : std::min((int)a.v.size(), mc::tier(2, 3))), vb = mc::choose(same ? (int)b.v.size() : std::min((int)b.v.size(), mc::tier(3, 4)));
  int w = mc::choose(4); string la = line(kwLine(a, va)), lb = line(kwLine(b, vb)), S = line("IMAGE_START");
  if (w == 0) check(S + S + la + lb); else if (w == 1) check(S + la + S + lb); else if (w == 2) check(S + la + S + S + lb); else check(S + la + lb + S);
}
MC_PART(functions) {     // all arrangements of local-function sections over one to three images
  static const vector<string> F = {"FUNCTION Exponential\nPA 10\nell 0.2 0,1\n", "FUNCTION Gaussian # LABEL bulge\nsigma 3 fixed\n", "FUNCTION FlatSky   # a comment FUNCTIONS_START\n  I_sky\t4 # 5,6\n\n", "FUNCTION PointSource # LABEL IMAGE_START\nI_tot 2\nOPTIONAL_PARAMS_START\nmethod bicubic\nOPTIONAL_PARAMS_END\n"};
  static const vector<string> X = {"X0 10\nY0 11\n", "X0 12 10,20\nY0 13 fixed\n", "X0 14 # x\n# c\n  Y0 15 1,30 # y\n"};
  int n = 1 + mc::choose(3); string d;
  for (int i = 0; i < n; i++) {
    d += "IMAGE_START\nGAIN " + std::to_string(2 + i) + "\n" + (i ? "X0 5 1,9\n" : "");
    int sets = mc::choose(n == 3 || (i && !mc::thorough()) ? 2 : 3);
    if (sets) d += mc::flip() ? "FUNCTIONS_START\n" : " FUNCTIONS_START # here\n";
    for (int s = 0; s < sets; s++) { d += X[mc::choose((int)X.size())]; int nf = 1 + (n < 3 && s == 0 ? mc::choose(2) : 0); for (int f = 0; f < nf; f++) d += F[mc::choose(f ? 2 : (int)F.size())]; }
    if (i == 0) mc::shard();
  }
  check(d);
}
MC_PART(badfunctions) {  // one faulty line at every place of a correct section
  static const vector<string> B = {"X0 1", "Y0 2", "FUNCTION", "PA", "PA x", "PA 1 2", "PA 1 2,", "PA 1 2,3", "PA 1 3,2", "PA 1 a,b", "PA 1 0,2", "PA 1 fixed", "FUNCTIONS_START", "OPTIONAL_PARAMS_START", "OPTIONAL_PARAMS_END", "IMAGE_START", "junk"};
  static const vector<string> G = {"X0 10", "Y0 11 10,12", "FUNCTION Exponential", "PA 10", "ell 0.2 0,1", "X0 20 fixed", "Y0 21", "FUNCTION Gaussian", "PA 5", "OPTIONAL_PARAMS_START", "a b", "OPTIONAL_PARAMS_END"};
  bool opt = mc::flip(); int ng = opt ? (int)G.size() : 9; bool repl = mc::flip(); int at = mc::choose(ng + 1), b = mc::choose((int)B.size()); mc::shard(); int b2 = mc::choose((int)B.size() + 1), at2 = b2 == (int)B.size() ? 0 : mc::choose(ng + 1);
  string d = "IMAGE_START\nGAIN 2\nFUNCTIONS_START\n";
  for (int i = 0; i <= ng; i++) { if (i == at) d += line(B[b]); if (b2 < (int)B.size() && i == at2) d += line(B[b2]); if (i < ng && !(repl && i == at)) d += line(G[i]); }
  if (mc::flip()) d += "IMAGE_START\nGAIN 3\n";
  check(d);
}
MC_PART(messages) {      // a malformed line is reported with its line number in the file
  static const vector<string> G = {"IMAGE_START", "", "# c", "DATA a", "   ", "GAIN 2"};
  static const vector<string> B = {"GAIN", "X0", "x", "NCOLS # 4"};
  int n = mc::tier(4, 5); vector<string> L; for (int i = 0; i < n; i++) { L.push_back(G[mc::choose((int)G.size())]); if (i == 1) mc::shard(); }
  int at = mc::choose(n + 1); L.insert(L.begin() + at, B[mc::choose((int)B.size())]);
  int at2 = mc::choose(n + 3); if (at2 <= n + 1) L.insert(L.begin() + at2, B[0]); else at2 = -1;
  if (at2 >= 0 && at2 <= at) at++;
  string d; bool start = false; for (auto& l : L) { d += line(l); start |= l == "IMAGE_START"; }
  if (!start) { d = "IMAGE_START\n" + d; at++; if (at2 >= 0) at2++; }
  Capture cap(2); int ni; vector<ImageInfo> g; int st = ReadImageParamsFile(writeDoc(d), ni, g); string out = cap.done(); mc::count("transitions");
  mc::state(mc::Hash()(d).h);
  MC_CHECK(st < 0, "accepts-bad", "malformed image-info file accepted: %s", showDoc(d).c_str());
  auto all = toks(out); vector<int> nums, want; for (auto& t : all) if (t[0] == '#') nums.push_back(atoi(t.c_str() + 1));
  if (at2 >= 0) want = at2 < at ? vector<int>{at2 + 1, at + 1} : vector<int>{at + 1, at2 + 1}; else want = {at + 1};
  std::sort(nums.begin(), nums.end());
  MC_CHECK(nums == want, "line-number", "line %d reported as malformed line(s) '%s': %s", at + 1, showDoc(out).c_str(), showDoc(d).c_str());
}
MC_PART(missing) {       // no file, empty file, only comments
  static const vector<string> D = {"", "\n", "# c\n\n", "IMAGE_START", "DATA a.fits\n", "FUNCTIONS_START\n"};
  int c = mc::choose((int)D.size() + 1); int n = 0; vector<ImageInfo> g;
  if (c == (int)D.size()) { int st = ReadImageParamsFile(mc::scratch() + "/no_such_file", n, g); MC_CHECK(st < 0, "accepts-missing", "a missing image-info file is accepted"); return; }
  check(D[c]);
}
