// P26: text helpers, all strings up to a length over small alphabets.
#define MC_DEFINE_MAIN
#include "mc.h"
#include "utilities_pub.h"
#include <sstream>
using std::string; using std::vector;

static string genString(const string& alpha, int maxLen, int shardAt = 3) {
  string s;
  for (int i = 0; i < maxLen; i++) {
    int c = mc::choose((int)alpha.size() + 1, "char");
    if (i + 1 == shardAt) mc::shard();
    if (c == 0) break;
    s += alpha[c - 1];
  }
  mc::shard();
  return s;
}
static string q(const string& s) { string o = "'"; for (char c : s) { if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else o += c; } return o + "'"; }
static bool in(char c, const string& d) { return d.find(c) != string::npos; }

MC_PART(trim) {
  string s = genString(" \t\nab#", mc::tier(6, 8)), t = s;
  mc::note("TrimWhitespace(%s)", q(s).c_str());
  size_t a = 0, b = s.size();
  while (a < b && in(s[a], " \t\n")) a++;
  while (b > a && in(s[b - 1], " \t\n")) b--;
  string want = s.substr(a, b - a);
  TrimWhitespace(t);
  mc::state(mc::Hash()(string("trim"))(want).h);
  MC_CHECK(t == want, "trim", "TrimWhitespace(%s) gave %s, expected %s", q(s).c_str(), q(t).c_str(), q(want).c_str());
}

static vector<string> refSplit(const string& s, const string& d) {
  vector<string> o; string cur;
  for (char c : s) { if (in(c, d)) { if (!cur.empty()) o.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) o.push_back(cur);
  return o;
}

MC_PART(split) {
  static const vector<string> D = {"\n\t ", ",", ":", ",:", " ="};
  string d = mc::pick(D, "delims");
  string s = genString("ab ,:=\t", mc::tier(5, 7));
  mc::note("SplitString(%s,%s)", q(s).c_str(), q(d).c_str());
  vector<string> want = refSplit(s, d), got = {"stale", "junk"};
  if (d == "\n\t " && mc::flip("default-arg")) SplitString(s, got); else SplitString(s, got, d);
  mc::Hash h; for (auto& w : want) h(w); mc::state(h(string("split")).h);
  bool ok = (got == want);
  if (want.empty()) ok = got.empty() || (got.size() == 1 && got[0] == s);   // no piece at all: left open
  MC_CHECK(ok, "split", "SplitString(%s, %s) gave %d pieces, first %s; expected %d pieces", q(s).c_str(), q(d).c_str(), (int)got.size(), got.empty() ? "-" : q(got[0]).c_str(), (int)want.size());
  vector<string> add = {"x"};
  SplitStringAdd(s, add, d);
  want.insert(want.begin(), "x");
  MC_CHECK(add == want, "splitadd", "SplitStringAdd(%s, %s) gave %d pieces, expected %d", q(s).c_str(), q(d).c_str(), (int)add.size(), (int)want.size());
}

MC_PART(chop) {
  string s = genString("a #[]", mc::tier(6, 8));
  string t = s, st;
  mc::note("ChopComment/StripBrackets(%s)", q(s).c_str());
  bool br = mc::flip();
  char dl = br ? '[' : '#';
  string want = s.substr(0, s.find(dl));
  mc::state(mc::Hash()(want)((int)dl).h);
  if (!br) ChopComment(t); else ChopComment(t, '[');
  MC_CHECK(t == want, "chop", "ChopComment(%s,'%c') gave %s", q(s).c_str(), dl, q(t).c_str());
  if (br) { StripBrackets(s, st); MC_CHECK(st == want, "strip", "StripBrackets(%s) gave %s", q(s).c_str(), q(st).c_str()); }
}

// decimal literal grammar: [+-]? (digits [. digits?] | . digits) ([eE] [+-]? digits)?
static bool isDecimal(const string& s) {
  size_t i = 0; int nd = 0;
  if (i < s.size() && in(s[i], "+-")) i++;
  while (i < s.size() && isdigit(s[i])) { i++; nd++; }
  if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit(s[i])) { i++; nd++; } }
  if (!nd) return false;
  if (i < s.size() && in(s[i], "eE")) {
    i++; if (i < s.size() && in(s[i], "+-")) i++;
    int ne = 0; while (i < s.size() && isdigit(s[i])) { i++; ne++; }
    if (!ne) return false;
  }
  return i == s.size();
}
MC_PART(numeric) {
  string s = genString("01.-+eg ", mc::tier(6, 7));
  mc::note("IsNumeric(%s)", q(s).c_str());
  bool want = isDecimal(s), got = IsNumeric(s.c_str());
  mc::state(mc::Hash()(s)(string("num")).h);
  MC_CHECK(want == got, "isnumeric", "IsNumeric(%s) = %d", q(s).c_str(), (int)got);
}
// canonical numbers and obvious non-numbers
MC_PART(notanumber) {
  static const vector<string> I = {"0", "1", "9", "10", "23", "100"};
  static const vector<string> F = {"", ".0", ".5", ".25"};
  bool word = mc::flip("word");
  if (word) {
    string s = genString("abz_ +%", 4, 1);
    int r = mc::choose(5, "restriction");
    mc::note("NotANumber(%s,%d)", q(s).c_str(), r);
    if (!s.empty() && s[0] == '+') return;
    mc::state(mc::Hash()(s)(r).h);
    MC_CHECK(NotANumber(s.c_str(), 0, r), "notanumber-word", "NotANumber(%s, 0, %d) accepts a non-number", q(s).c_str(), r);
    return;
  }
  int sign = mc::choose(2, "sign"); string i = mc::pick(I), f = mc::pick(F); bool noint = mc::flip("omit int");
  if (noint && (f.empty() || i != "0")) mc::prune();
  mc::shard();
  string s = string(sign ? "-" : "") + (noint ? "" : i) + f;
  double v = strtod(s.c_str(), 0); bool isint = f.empty();
  mc::note("NotANumber(%s)", q(s).c_str());
  mc::state(mc::Hash()(s).h);
  auto chk = [&](int r, bool ok, const char* w) { MC_CHECK(NotANumber(s.c_str(), 0, r) == !ok, string("notanumber-") + w, "NotANumber(%s, 0, %s) = %d", q(s).c_str(), w, (int)NotANumber(s.c_str(), 0, r)); };
  chk(kAnyReal, true, "kAnyReal");
  if (!(sign && v == 0)) chk(kPosReal, v >= 0 && !sign, "kPosReal");
  if (isint) { if (!(sign && v == 0)) chk(kAnyInt, true, "kAnyInt"); chk(kPosInt, v > 0, "kPosInt"); if (v != 0) chk(kNonzeroInt, true, "kNonzeroInt"); }
}

MC_PART(format) {
  int n = mc::choose(mc::tier(2200, 6000), "len");
  if ((n & 15) == 0) {}
  mc::shard();
  int kind = mc::choose(3, "kind");
  string body; for (int i = 0; i < n; i++) body += (char)('a' + i % 26);
  mc::note("PrintToString of %d chars kind %d", n, kind);
  mc::state(mc::Hash()(n)(kind).h);
  string got, want;
  if (kind == 0) { got = PrintToString("%s", body.c_str()); want = body; }
  else if (kind == 1) { got = PrintToString("%d|%s|%.3f|%s", n, body.c_str(), 1.5, "end"); want = std::to_string(n) + "|" + body + "|1.500|end"; }
  else { got = PrintToString("%s%s", body.c_str(), body.c_str()); want = body + body; }
  MC_CHECK(got == want, "format", "PrintToString with %d characters gave %d characters: ...%s", (int)want.size(), (int)got.size(), got.size() > 20 ? got.substr(got.size() - 20).c_str() : got.c_str());
}

static void mkModel() {}
// header lines / image comments are built from arbitrarily long names
MC_PART(headers) {
  int n = mc::choose(60, "len") * 40; mc::shard(); int mode = mc::choose(5, "mode"); int psf = mc::choose(2);
  string name(n, 'x'); name += ".dat"; vector<string> c;
  mc::note("header lines with %d-character names, mode %d", n, mode);
  mc::state(mc::Hash()(n)(mode)(psf).h);
  if (mode < 4) {
    PrepareImageComments(&c, "prog 1.0", name, psf, "p" + name, mode, "d" + name);
    bool prog = false, cfg = false, p = false, dat = false;
    for (auto& l : c) { prog |= l.find("prog 1.0") != string::npos; cfg |= l.size() >= name.size() && l.find("Using config file " + name) == 0; p |= l.find("p" + name) != string::npos; dat |= l.find("d" + name) != string::npos; }
    MC_CHECK(prog, "hdr-prog", "image comments lack the program name");
    MC_CHECK(mode == HDR_WEIGHTIMAGE || cfg, "hdr-config", "image comments lack the config-file name (%d chars)", n);
    MC_CHECK(p == (psf == 1), "hdr-psf", "image comments: psf used %d, mentioned %d", psf, (int)p);
    MC_CHECK((mode != HDR_MODELIMAGE && mode != HDR_RESIDUALIMAGE) || dat, "hdr-data", "image comments lack the data-file name");
  } else {
    string a0 = "imfit", a1 = name, a2 = "--x=1"; char* argv[] = {&a0[0], &a1[0], &a2[0]};
    MakeOutputHeader(&c, "prog 1.0", 3, argv);
    bool cmd = false; for (auto& l : c) { cmd |= l.find("imfit " + name + " --x=1") != string::npos; MC_CHECK(l[0] == '#', "hdr-comment", "output header line is not a comment"); }
    MC_CHECK(cmd, "hdr-cmd", "output header lacks the full command line");
  }
}
