// P01: configuration-file parsing versus an independent reference parser.
#define MC_DEFINE_MAIN
#include "mc.h"
#include <map>
#include <sys/mman.h>
#include "definitions.h"
#include "utilities_pub.h"
#include "config_file_parser.h"
using std::string; using std::vector; using std::map;

static string writeDoc(const string& text) {
  static int fd = memfd_create("cfg", 0);
  if (ftruncate(fd, 0) != 0) abort();
  if (!text.empty() && pwrite(fd, text.data(), text.size(), 0) != (ssize_t)text.size()) abort();
  return "/proc/self/fd/" + std::to_string(fd);
}
struct Doc {
  bool oneChar = false;      // contains a line with a single non-blank character
  int status = 0;            // 0 accepted, -1 rejected, 1 unspecified
  vector<string> funcs, labels; vector<double> vals; vector<mp_par> lims; vector<int> starts;
  bool limFound = false; vector<string> oname, oval; vector<map<string, string>> opt;
};
static vector<string> toks(const string& s) {
  vector<string> o; string c;
  for (char ch : s) { if (ch == ' ' || ch == '\t' || ch == '\n') { if (!c.empty()) o.push_back(c); c.clear(); } else c += ch; }
  if (!c.empty()) o.push_back(c);
  return o;
}
static bool num(const string& s, double& v) {
  if (s.empty()) return false;
  if (s.find_first_not_of("0123456789.+-eE") != string::npos) return false;
  char* e; v = strtod(s.c_str(), &e); return *e == 0;
}
// Reference: line-oriented, first-token keywords, comments stripped first.
static Doc refParse(const string& text, bool mode2D, bool limits) {
  Doc d; vector<vector<string>> L; vector<string> raw;
  std::string cur; std::vector<string> lines; for (char c : text) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) lines.push_back(cur);
  for (auto& l : lines) { string body = l.substr(0, l.find('#')); auto t = toks(body); if (t.empty()) continue; L.push_back(t); raw.push_back(l); }
  size_t s = 0; while (s < L.size() && L[s][0] != "X0") s++;
  if (s == L.size()) { d.status = -1; return d; }
  bool oneChar = false; for (auto& l : lines) { size_t a = l.find_first_not_of(" \t"), b = l.find_last_not_of(" \t"); if (a != string::npos && a == b && l[a] != '#') oneChar = true; }
  auto bad = [&]() { Doc x; x.status = -1; x.oneChar = oneChar; return x; };
  auto unspec = [&]() { Doc x; x.status = 1; return x; };
  bool anyF = false; for (size_t i = s; i < L.size(); i++) anyF |= (L[i][0] == "FUNCTION");
  if (mode2D && (s + 1 >= L.size() || L[s + 1][0] != "Y0")) return bad();
  if (!anyF) return bad();
  for (size_t i = 0; i < s; i++) if (L[i].size() == 2) { d.oname.push_back(L[i][0]); d.oval.push_back(L[i][1]); }
  bool odd = false, opt = false, lateBad = false;
  bool expectY = false; bool anyFuncInSet = true; bool curFunc = false;
  for (size_t i = s; i < L.size(); i++) {
    const vector<string>& t = L[i];
    if (t[0] == "FUNCTION") {
      if (expectY) return bad();
      if (opt) odd = true;                      // keyword inside an optional-parameter block
      if (t.size() < 2) { lateBad = true; continue; }
      d.funcs.push_back(t[1]); d.opt.push_back({}); curFunc = true; anyFuncInSet = true;
      size_t p = raw[i].find("LABEL"); string lab;
      if (p != string::npos) { lab = raw[i].substr(p + 5); size_t a = lab.find_first_not_of(" \t"), b = lab.find_last_not_of(" \t"); lab = a == string::npos ? "" : lab.substr(a, b - a + 1); }
      d.labels.push_back(lab); continue;
    }
    if (t[0] == "OPTIONAL_PARAMS_START") { if (expectY) return bad(); if (opt || !curFunc) odd = true; opt = true; continue; }
    if (t[0] == "OPTIONAL_PARAMS_END") { if (expectY) return bad(); if (!opt) odd = true; opt = false; continue; }
    if (opt) {
      if (t[0] == "X0") odd = true;
      if (t.size() < 2) return bad();
      if (!curFunc || d.opt.empty()) { odd = true; continue; }
      d.opt.back()[t[0]] = t[1]; continue;
    }
    if (expectY) { if (t[0] != "Y0") return bad(); }
    else if (t[0] == "X0") { if (!anyFuncInSet) odd = true; d.starts.push_back((int)d.funcs.size()); anyFuncInSet = false; curFunc = false; }
    else if (t[0] == "Y0" || !curFunc) odd = true;
    // value line
    double v, lo, hi; mp_par m; memset(&m, 0, sizeof m);
    if (t.size() < 2 || !num(t[1], v)) return bad();
    if (t.size() >= 3) {
      if (t[2] == "fixed") m.fixed = 1;
      else {
        size_t c = t[2].find(',');
        if (c == string::npos) return bad();
        if (t[2].find(',', c + 1) != string::npos) odd = true;
        if (!num(t[2].substr(0, c), lo) || !num(t[2].substr(c + 1), hi)) { if (odd) return unspec(); return bad(); }
        m.limited[0] = m.limited[1] = 1; m.limits[0] = lo; m.limits[1] = hi;
        if (limits && (lo >= hi || v < lo || v > hi)) lateBad = true;
      }
      d.limFound = true;
    }
    d.vals.push_back(v); d.lims.push_back(m);
    bool wasX = (t[0] == "X0") && !expectY; expectY = wasX && mode2D;
  }
  if (expectY) return bad();
  if (lateBad) return bad();
  if (opt || odd || !anyFuncInSet) return unspec();
  return d;
}

static string showDoc(const string& t) { string o; for (char c : t) { if (c == '\n') o += " | "; else if (c == '\t') o += "\\t"; else o += c; } return o; }

static void compare(const string& text, bool mode2D, bool limits, const Doc& w, bool stale = true) {
  Doc g; configOptions co; co.nOptions = -7;
  if (stale) { g.funcs = {"stale"}; g.vals = {1, 2}; g.starts = {9}; g.labels = {"l"}; co.optionNames = {"OLD"}; co.optionValues = {"1"}; co.nOptions = 1; g.lims.resize(1); g.limFound = true; }
  string path = writeDoc(text);
  int st;
  mc::phase(limits ? "ReadConfigFile-full" : "ReadConfigFile-simple");
  if (limits) st = ReadConfigFile(path, mode2D, g.funcs, g.labels, g.vals, g.lims, g.starts, g.limFound, co, g.opt);
  else st = ReadConfigFile(path, mode2D, g.funcs, g.labels, g.vals, g.starts, co, g.opt);
  mc::phase("");
  mc::count("parses");
  string sd = showDoc(text);
  if (w.status == 1) { mc::count("unspecified_documents"); return; }
  if (w.status == -1) {
    mc::count("rejected_documents");
    MC_CHECK(st < 0, w.oneChar ? "accepts-bad-one-char-line" : "accepts-bad", "malformed file accepted (%s reader): %s", limits ? "limits" : "simple", sd.c_str()); return; }
  mc::count("accepted_documents");
  MC_CHECK(st == 0, "rejects-good", "valid file rejected (%d, %s reader): %s", st, limits ? "limits" : "simple", sd.c_str());
  MC_CHECK(g.funcs == w.funcs, "functions", "function list wrong (%d vs %d): %s", (int)g.funcs.size(), (int)w.funcs.size(), sd.c_str());
  MC_CHECK(g.labels == w.labels, "labels", "labels wrong (got '%s'): %s", g.labels.empty() ? "-" : g.labels[0].c_str(), sd.c_str());
  MC_CHECK(g.vals == w.vals, "values", "parameter values wrong: %s", sd.c_str());
  MC_CHECK(g.starts == w.starts, "sets", "function-set starts wrong: %s", sd.c_str());
  MC_CHECK(co.nOptions == (int)w.oname.size() && co.optionNames == w.oname && co.optionValues == w.oval, "options", "option lines wrong (%d): %s", co.nOptions, sd.c_str());
  MC_CHECK(g.opt.size() == w.opt.size(), "optparams-size", "optional-parameter maps: %d for %d functions: %s", (int)g.opt.size(), (int)w.opt.size(), sd.c_str());
  for (size_t i = 0; i < w.opt.size(); i++) MC_CHECK(g.opt[i] == w.opt[i], "optparams", "optional parameters of function %d wrong: %s", (int)i, sd.c_str());
  if (limits) {
    MC_CHECK(g.lims.size() == w.lims.size(), "limits-size", "limits list has wrong size: %s", sd.c_str());
    MC_CHECK(g.limFound == w.limFound, "limits-flag", "parameterLimitsFound = %d: %s", (int)g.limFound, sd.c_str());
    for (size_t i = 0; i < w.lims.size(); i++) {
      const mp_par &a = g.lims[i], &b = w.lims[i];
      bool ok = a.fixed == b.fixed && a.limited[0] == b.limited[0] && a.limited[1] == b.limited[1] && a.offset == 0 && a.side == 0 && a.step == 0 && a.relstep == 0;
      if (b.limited[0]) ok = ok && a.limits[0] == b.limits[0] && a.limits[1] == b.limits[1];
      MC_CHECK(ok, "limits", "limits of parameter %d wrong: %s", (int)i, sd.c_str());
    }
  }
}
static void stateOf(const Doc& d) {
  mc::Hash h; h(d.status)((int)d.limFound); for (auto& f : d.funcs) h(f); for (auto& f : d.labels) h(f); h(d.vals);
  for (int s : d.starts) h(s); for (auto& m : d.lims) h(m.fixed)(m.limited[0])(m.limits[0])(m.limits[1]); for (auto& o : d.oname) h(o);
  for (auto& o : d.opt) { for (auto& p : o) h(p.first)(p.second); h(7); }
  mc::state(h.h);
}
static void both(const string& t, bool mode2D) {
  mc::note("%s", showDoc(t).c_str());
  Doc a = refParse(t, mode2D, true); stateOf(a);
  compare(t, mode2D, true, a);
  compare(t, mode2D, false, refParse(t, mode2D, false));
}

static const vector<string> ALPHA = {
  "X0   10.5", "Y0  20", "FUNCTION Exponential", "FUNCTION  Sersic # LABEL A", "PA 18", "PA 18 0,90", "n 2.5 fixed", "OPTIONAL_PARAMS_START",
  "OPTIONAL_PARAMS_END", "method lanczos2", "# comment with X0 FUNCTION Y0", "I_0 5  # FUNCTION and X0 here", "GAIN 4.5", "X0 11 # Y0", "Y0 21 # X0 OPTIONAL_PARAMS_END",
  "FUNCTION", "X0", "PA", "PA abc", "PA 5 1", "PA 5 1,a", "PA 5 9,1", "PA 5 6,9", "PA 5 5,5", "FUNCTION # Sersic", "h 3 ,5", "h 3 5,", "   \t ", "X0 12 1,20", "Y0 22 fixed", "n"};
static const vector<string> PREFIX = {"", "X0 10\nY0 20\n", "X0 10\nY0 20\nFUNCTION Exponential\n", "X0 10\nY0 20\nFUNCTION Exponential\nPA 5 0,10\nX0 30\nY0 40\n",
  "GAIN 2\nX0 1 0,5\nY0 2 fixed\nFUNCTION PointSource # LABEL psf\nI 3\nOPTIONAL_PARAMS_START\nmethod bicubic\nOPTIONAL_PARAMS_END\n", "X0 10\nFUNCTION Exponential-1D\n"};
MC_PART(sequences) {
  int p = mc::choose((int)PREFIX.size(), "prefix");
  string t = PREFIX[p];
  int maxl = mc::tier(3, 4);
  int n = 0;
  for (; n < maxl; n++) {
    int c = mc::choose((int)ALPHA.size() + 1, "line");
    if (n == 1) mc::shard();
    if (c == 0) break;
    t += ALPHA[c - 1] + "\n";
  }
  mc::shard();
  both(t, p != 5);
}
// longer sequences of well-formed lines
static const vector<string> GOOD = {"X0 10 5,15", "Y0 20", "FUNCTION Exponential", "FUNCTION Sersic # LABEL bulge 2", "PA 18 0,90", "n 2.5 fixed", "OPTIONAL_PARAMS_START", "OPTIONAL_PARAMS_END", "method x"};
MC_PART(goodsequences) {
  int maxl = mc::tier(6, 7); string t;
  for (int n = 0; n < maxl; n++) {
    int c = mc::choose((int)GOOD.size() + 1, "line");
    if (n == 2) mc::shard();
    if (c == 0) break;
    if (n == 0 && c != 1) mc::prune();
    if (n == 1 && c != 2) mc::prune();
    t += GOOD[c - 1] + "\n";
  }
  mc::shard();
  both(t, true);
}
// decorations of valid documents: spacing, comments, blank lines must be inert
static const vector<vector<string>> DOCS = {
  {"X0 10.5 1,20", "Y0 20", "FUNCTION Exponential", "PA 18 0,90", "ell 0.5 fixed", "I_0 3e2", "h -1.5"},
  {"GAIN 4.5", "READNOISE 1", "X0 10", "Y0 20 15,25", "FUNCTION Sersic", "n 2", "FUNCTION Gaussian", "PA 3", "X0 30", "Y0 40", "FUNCTION FlatSky", "I_sky 0.1"},
  {"X0 1", "Y0 2", "FUNCTION PointSource", "I_tot 5", "OPTIONAL_PARAMS_START", "method lanczos3", "OPTIONAL_PARAMS_END", "X0 3", "Y0 4", "FUNCTION Exponential", "PA 1"},
};
static const vector<string> LEAD = {"", "  ", "\t", " \t "};
static const vector<string> SEP = {" ", "\t", "   \t"};
static const vector<string> TRAIL = {"", "  ", "\t", " # c", " #X0 1", "# FUNCTION foo", " # Y0", " # OPTIONAL_PARAMS_START", "\t# OPTIONAL_PARAMS_END 5", " # fixed", " # 1,2"};
static const vector<string> BETWEEN = {"", "\n", "#\n", "# X0 5\n", "   # FUNCTION Sersic\n", "  \t\n# OPTIONAL_PARAMS_START\n"};
static string decorate(const string& l) {
  string o = mc::pick(LEAD), sep = mc::pick(SEP);
  for (char c : l) { if (c == ' ') o += sep; else o += c; }
  o += mc::pick(TRAIL) + "\n"; o += mc::pick(BETWEEN);
  return o;
}
MC_PART(decorations) {
  int di = mc::choose((int)DOCS.size(), "doc"); const vector<string>& D = DOCS[di];
  int a = mc::choose((int)D.size(), "line"); bool lastNoNewline = mc::flip("no final newline");
  string plain, deco;
  for (size_t i = 0; i < D.size(); i++) { plain += D[i] + "\n"; deco += ((int)i == a) ? decorate(D[i]) : D[i] + "\n"; if ((int)i == a) mc::shard(); }
  if (lastNoNewline) deco.erase(deco.size() - 1);
  mc::note("%s", showDoc(deco).c_str());
  mc::state(mc::Hash()(deco).h);
  for (int lim = 0; lim < 2; lim++) {
    Doc w = refParse(plain, true, lim), w2 = refParse(deco, true, lim);
    if (w.status != 0 || w2.vals != w.vals || w2.status != 0) mc::fail("harness", "reference disagrees on %s", showDoc(deco).c_str());
    w.labels = w2.labels;
    compare(deco, true, lim, w, true);
  }
}
// all pairs of lines decorated from a reduced decoration list
static const vector<std::pair<string, string>> RED = {{"", ""}, {"  ", " # X0 FUNCTION"}, {"\t", "\n\n# Y0 # OPTIONAL_PARAMS_START"}, {"", " # LABEL_NOT FUNCTION"}};
MC_PART(decopairs) {
  int di = mc::choose((int)DOCS.size(), "doc"); const vector<string>& D = DOCS[di];
  int a = mc::choose((int)D.size(), "line"), b = mc::choose((int)D.size(), "line2"); if (b <= a) mc::prune();
  int ra = mc::choose((int)RED.size()), rb = mc::choose((int)RED.size()); mc::shard();
  string plain, deco;
  for (size_t i = 0; i < D.size(); i++) { plain += D[i] + "\n"; int r = (int)i == a ? ra : (int)i == b ? rb : 0; deco += RED[r].first + D[i] + RED[r].second + "\n"; }
  mc::note("%s", showDoc(deco).c_str()); mc::state(mc::Hash()(deco).h);
  for (int lim = 0; lim < 2; lim++) { Doc w = refParse(plain, true, lim); w.labels = refParse(deco, true, lim).labels; compare(deco, true, lim, w, true); }
}
// numeric spellings x limits, on every parameter position
static const vector<string> NUMS = {"0", "1", "-1", "+2", "10.5", ".5", "5.", "1e2", "1E-3", "-2.5e+1", "007", "123456.789012345", "1e300", "-0"};
static const vector<string> LIMS = {"", "fixed", "-1e9,1e9", "0,1", "-3,-1", "1,2", "-25,100", "1e-4,1e301", "0.5,0.5", "2,1", "1,2,3", "0,", ",1", "fixed,1", "Fixed", "0:1"};
MC_PART(numbers) {
  int slot = mc::choose(4, "slot"); string v = mc::pick(NUMS), l = mc::pick(LIMS); mc::shard();
  string extra = mc::flip() ? " trailing words 3" : "";
  string line = v + " " + l + (l.empty() ? "" : extra);
  const char* nm[4] = {"X0", "Y0", "PA", "X0"};
  string t;
  string dflt[6] = {"X0 1", "Y0 2", "FUNCTION Sersic", "PA 3", "X0 4", "Y0 5"};
  int pos[4] = {0, 1, 3, 4};
  for (int i = 0; i < 6; i++) t += (i == pos[slot] ? string(nm[slot]) + " " + line : dflt[i]) + "\n";
  t += "FUNCTION Exponential\nI_0 9 8,10\n";
  both(t, true);
}
// labels
static const vector<string> LABS = {"", " # LABEL", " # LABEL a", " # LABEL  bulge", " # LABEL two words", "# LABEL x # y", " # label lower", " LABEL b", " # some comment", "\t# LABEL\tz ", " # LABEL LABEL c", " # LABEL FUNCTION", " # LABEL X0"};
MC_PART(labels) {
  string a = mc::pick(LABS), b = mc::pick(LABS); int k = mc::choose(3); mc::shard();
  string t = "X0 1\nY0 2\nFUNCTION Sersic" + a + "\nn 3\n" + (k == 1 ? "X0 5\nY0 6\n" : "") + "FUNCTION Exponential" + b + (k == 2 ? "" : "\nh 1") + "\n";
  both(t, true);
}
// a missing file is an error, not an empty model
MC_PART(missing) {
  int lim = mc::choose(2); mc::note("missing file"); mc::state(lim);
  vector<string> f, l; vector<double> v; vector<mp_par> m; vector<int> s; bool pf; configOptions co; vector<map<string, string>> o;
  int st = lim ? ReadConfigFile("/nonexistent/x", true, f, l, v, m, s, pf, co, o) : ReadConfigFile("/nonexistent/x", true, f, l, v, s, co, o);
  MC_CHECK(st < 0, "missing-file", "missing configuration file accepted");
}
// larger, well-formed documents: numbers of option lines, sets, functions per set, parameters per function
MC_PART(structure) {
  int nopt = mc::choose(5, "options"), nset = 1 + mc::choose(mc::tier(4, 5), "sets");
  string t; int serial = 0; double v = 1;
  for (int i = 0; i < nopt; i++) t += "OPT" + std::to_string(i) + " " + std::to_string(i * 1.5) + "\n";
  vector<int> nf; int total = 0;
  for (int s = 0; s < nset; s++) { nf.push_back(1 + mc::choose(mc::tier(nset > 3 ? 2 : 3, 3), "functions")); total += nf.back(); if (s == 0) mc::shard(); }
  int style = mc::choose(4, "style"), special = mc::choose(total + 1, "special function"), kind = mc::choose(3, "special kind");
  if (special == total && kind) mc::prune();
  for (int s = 0; s < nset; s++) {
    t += "X0 " + std::to_string(v) + (style & 1 ? " 0,1000" : "") + "\n"; v += 1; t += "Y0 " + std::to_string(v) + (style & 2 ? " fixed" : "") + "\n"; v += 1;
    for (int f = 0; f < nf[s]; f++, serial++) {
      t += "FUNCTION F" + std::to_string(serial);
      if (serial == special && kind == 0) t += "   # LABEL  lab " + std::to_string(serial);
      t += "\n";
      int np = (serial + style) % 4;
      for (int p = 0; p < np; p++) { t += "p" + std::to_string(p) + "\t" + std::to_string(v) + (p == style ? "   0.25,2000" : p == 2 ? " fixed # why" : "") + "\n"; v += 1.25; }
      if (serial == special && kind >= 1) { t += "OPTIONAL_PARAMS_START\n"; for (int k = 0; k < kind; k++) t += "k" + std::to_string(k) + " val" + std::to_string(serial) + "\n"; t += "OPTIONAL_PARAMS_END\n"; }
    }
  }
  both(t, true);
}
// long lines: padding, comments, labels, numbers and names of every length of an alphabet around usual buffer sizes
MC_PART(widths) {
  static const vector<int> W = {62, 63, 64, 65, 79, 80, 81, 126, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 5000, 8192, 70000};
  int w = mc::pick(W), kind = mc::choose(7), line = mc::choose(8); mc::shard(); string pad(w, ' '), x(w, 'x'); string L[8] = {"GAIN 4.5", "X0 1 0,10", "Y0 2 fixed", "FUNCTION Sersic # LABEL bulge", "PA 3 -1,5", "n 4", "FUNCTION Exponential", "h 7.5 1,9"}, t;
  for (int i = 0; i < 8; i++) { string s = L[i]; if (i == line) { size_t sp = s.find(' '); if (kind == 0) s = pad + s; if (kind == 1) s = s + pad; if (kind == 2) s = s.substr(0, sp) + pad + s.substr(sp); if (kind == 3) { if (i == 3) mc::prune(); s += " # " + x; } if (kind == 4) { if (i == 3) s += x; else s = "# " + x + "\n" + s; } if (kind == 5) { if (s.find('#') != string::npos || i == 3 || i == 6) mc::prune(); string v = s.substr(sp + 1); size_t e = v.find(' '); s = s.substr(0, sp + 1) + v.substr(0, e) + (v.substr(0, e).find('.') == string::npos ? "." : "") + string(w, '0') + (e == string::npos ? "" : v.substr(e)); } if (kind == 6) { if (i < 3 && i > 0) mc::prune(); if (i == 3 || i == 6) { s.insert(s.find_first_of(" ", 9) == string::npos ? s.size() : s.find_first_of(" ", 9), x); } else s = s.substr(0, sp) + x + s.substr(sp); } } t += s + "\n"; }
  both(t, true);
}
