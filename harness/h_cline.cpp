// P03: command-line parsing versus a reference.
#define MC_DEFINE_MAIN
#include "mc.h"
#include <map>
#include "commandline_parser.h"
using std::string; using std::vector; using std::map;

// declared: flags h/help, printimage, q ; options o/output, psf, x ; queue r/region ; long-only queue overpsf
struct Ref {
  map<string, string> canon; map<string, bool> isFlag; map<string, bool> flag; map<string, vector<string>> val; vector<string> args; int status = 0; bool empty = true;
  Ref() { auto f = [&](const char* c, const char* a) { canon[c] = c; canon[a] = c; isFlag[c] = true; flag[c] = false; };
    auto o = [&](const char* c, const char* a) { canon[c] = c; canon[a] = c; isFlag[c] = false; val[c]; };
    f("help", "h"); f("printimage", "printimage"); f("q", "q"); o("output", "o"); o("psf", "psf"); o("x", "x"); o("region", "r"); o("overpsf", "overpsf"); }
};
static const vector<string> A = {"--help", "-h", "-q", "--printimage", "--output", "-o", "--psf", "-x", "--region", "-r", "--overpsf",
  "--output=a.fits", "-o=b", "--psf=p=1.fits[2:3,4:5]", "--region=1:2,3:4", "-r=9", "--psf=", "--x=-3", "file.fits", "-5", "val", "", "a=b", "--unknown", "-u=3", "-", "--", "--=v", "--q", "--outputx"};
static void run(CLineParser& p, bool strict, const vector<string>& av) {
  p.AddFlag("h", "help"); p.AddFlag("printimage"); p.AddFlag("q");
  p.AddOption("o", "output"); p.AddOption("psf"); p.AddOption("x"); p.AddQueueOption("r", "region"); p.AddQueueOption("overpsf");
  if (strict) p.UnrecognizedAreErrors();
}
MC_PART(argv) {
  vector<string> av = {"prog"}; int maxl = mc::tier(4, 5);
  for (int i = 0; i < maxl; i++) { int c = mc::choose((int)A.size() + 1, "arg"); if (i == 1) mc::shard(); if (!c) break; av.push_back(A[c - 1]); }
  mc::shard();
  bool strict = mc::flip("strict");
  string show; for (auto& s : av) show += s + "|";
  mc::note("%s strict=%d", show.c_str(), (int)strict);
  // reference
  Ref R;
  for (size_t i = 1; i < av.size(); i++) {
    const string& s = av[i];
    R.empty = false;
    if (s.empty() || s[0] != '-') { R.args.push_back(s); continue; }
    size_t d = s.find_first_not_of('-'); if (d == string::npos) { R.status = -1; break; }
    string body = s.substr(d); size_t e = body.find('='); string name = body.substr(0, e);
    auto c = R.canon.find(name);
    if (c == R.canon.end()) { if (strict) { R.status = -1; break; } continue; }
    if (R.isFlag[c->second]) { R.flag[c->second] = true; continue; }
    if (e != string::npos) { if (e + 1 == body.size()) { R.status = -1; break; } R.val[c->second].push_back(body.substr(e + 1)); }
    else if (i + 1 < av.size()) R.val[c->second].push_back(av[++i]);
    else { R.status = -1; break; }
  }
  CLineParser p; run(p, strict, av);
  vector<string> copy = av; vector<char*> ptr; for (auto& s : copy) ptr.push_back(&s[0]);
  ptr.push_back(nullptr);
  int st = p.ParseCommandLine((int)av.size(), ptr.data());
  mc::Hash h; h(R.status); for (auto& f : R.flag) h((int)f.second); for (auto& v : R.val) { for (auto& s : v.second) h(s); h(1); } for (auto& a : R.args) h(a); mc::state(h.h);
  MC_CHECK((st < 0) == (R.status < 0), "status", "return value %d for %s (strict %d)", st, show.c_str(), (int)strict);
  if (st < 0) return;
  MC_CHECK(p.CommandLineEmpty() == R.empty, "empty", "CommandLineEmpty() = %d for %s", (int)p.CommandLineEmpty(), show.c_str());
  for (auto& c : R.canon) {
    if (R.isFlag[c.second]) MC_CHECK(p.FlagSet(c.first) == R.flag[c.second], "flag", "flag %s = %d for %s", c.first.c_str(), (int)p.FlagSet(c.first), show.c_str());
    else {
      vector<string>& w = R.val[c.second];
      MC_CHECK(p.OptionSet(c.first) == !w.empty(), "optionset", "OptionSet(%s) = %d for %s", c.first.c_str(), (int)p.OptionSet(c.first), show.c_str());
      MC_CHECK(p.GetNTargets(c.first) == (int)w.size(), "ntargets", "GetNTargets(%s) = %d for %s", c.first.c_str(), p.GetNTargets(c.first), show.c_str());
      for (size_t k = 0; k < w.size(); k++) MC_CHECK(p.GetTargetString(c.first, (int)k) == w[k], "target", "value %d of %s is '%s', expected '%s' (%s)", (int)k, c.first.c_str(), p.GetTargetString(c.first, (int)k).c_str(), w[k].c_str(), show.c_str());
      if (!w.empty()) MC_CHECK(p.GetTargetString(c.first) == w[0], "target0", "default value of %s is '%s'", c.first.c_str(), p.GetTargetString(c.first).c_str());
    }
  }
  MC_CHECK(p.nArguments() == (int)R.args.size(), "nargs", "%d plain arguments instead of %d: %s", p.nArguments(), (int)R.args.size(), show.c_str());
  for (size_t k = 0; k < R.args.size(); k++) MC_CHECK(p.GetArgument((int)k) == R.args[k], "arg", "argument %d is '%s' for %s", (int)k, p.GetArgument((int)k).c_str(), show.c_str());
  for (size_t k = 0; k < av.size(); k++) MC_CHECK(copy[k] == av[k], "argv-modified", "argv[%d] modified", (int)k);
}
// many arguments, order preserved
MC_PART(longlines) {
  int n = 1 + mc::choose(40, "n"); int kind = mc::choose(4, "kind"); int pos = mc::choose(4, "pos"); mc::shard();
  vector<string> av = {"prog"}; vector<string> args, vals;
  for (int i = 0; i < n; i++) {
    string v = "v" + std::to_string(i);
    if (kind == 0) { av.push_back(v); args.push_back(v); }
    else if (kind == 1) { av.push_back(i % 2 ? "-r" : "--region"); av.push_back(v); vals.push_back(v); if (i % 3 == pos % 3) { av.push_back("a" + v); args.push_back("a" + v); } }
    else if (kind == 2) { av.push_back((i % 2 ? "--r=" : "--region=") + v); vals.push_back(v); if (i % 4 == pos) { av.push_back("-q"); } }
    else { string big(i * 37, 'y'); av.push_back("--region=" + big + "z"); vals.push_back(big + "z"); }
  }
  mc::note("%d arguments kind %d", (int)av.size(), kind); mc::state(mc::Hash()(n)(kind)(pos).h);
  CLineParser p; run(p, true, av); vector<char*> ptr; for (auto& s : av) ptr.push_back(&s[0]);
  MC_CHECK(p.ParseCommandLine((int)av.size(), ptr.data()) == 0, "long-status", "long command line rejected");
  MC_CHECK(p.nArguments() == (int)args.size() && p.GetNTargets("r") == (int)vals.size(), "long-count", "%d args, %d values", p.nArguments(), p.GetNTargets("r"));
  for (size_t i = 0; i < args.size(); i++) MC_CHECK(p.GetArgument(i) == args[i], "long-arg", "argument %d", (int)i);
  for (size_t i = 0; i < vals.size(); i++) MC_CHECK(p.GetTargetString("region", i) == vals[i], "long-val", "value %d", (int)i);
}
// which names an option answers to: all declaration orders / styles of three options
MC_PART(declarations) {
  int style[3]; for (int i = 0; i < 3; i++) style[i] = mc::choose(6, "style"); mc::shard();
  const char* sh[3] = {"a", "b", "c"}; const char* lo[3] = {"alpha", "beta", "a-c"};
  CLineParser p; 
  for (int i = 0; i < 3; i++) switch (style[i]) { case 0: p.AddFlag(sh[i]); break; case 1: p.AddFlag(sh[i], lo[i]); break; case 2: p.AddOption(sh[i]); break; case 3: p.AddOption(sh[i], lo[i]); break; case 4: p.AddQueueOption(sh[i]); break; case 5: p.AddQueueOption(sh[i], lo[i]); }
  p.UnrecognizedAreErrors();
  int k = mc::choose(3, "used"); bool useLong = mc::flip("long"); bool dd = mc::flip("--");
  string name = useLong ? lo[k] : sh[k]; bool known = !useLong || (style[k] & 1);
  vector<string> av = {"p", (dd ? "--" : "-") + name, "value"}; vector<char*> ptr; for (auto& s : av) ptr.push_back(&s[0]);
  mc::note("styles %d%d%d, %s", style[0], style[1], style[2], av[1].c_str()); mc::state(mc::Hash()(style[0])(style[1])(style[2])(k)((int)useLong)((int)dd).h);
  int st = p.ParseCommandLine(3, ptr.data());
  MC_CHECK((st == 0) == known, "decl-status", "%s: status %d", av[1].c_str(), st);
  if (!known) return;
  for (int i = 0; i < 3; i++) for (int l = 0; l < 1 + (style[i] & 1); l++) {
    string nm = l ? lo[i] : sh[i];
    if (style[i] < 2) MC_CHECK(p.FlagSet(nm) == (i == k), "decl-flag", "flag %s wrong", nm.c_str());
    else { MC_CHECK(p.OptionSet(nm) == (i == k), "decl-opt", "option %s wrong", nm.c_str()); if (i == k) MC_CHECK(p.GetTargetString(nm) == "value", "decl-val", "value of %s", nm.c_str()); }
  }
  MC_CHECK(p.nArguments() == (style[k] < 2 ? 1 : 0), "decl-args", "arguments %d", p.nArguments());
}
