// P29: psfconvolve1d convolves a one-dimensional profile as defined.
#define MC_DEFINE_MAIN
#include "mc.h"
#include "capture.h"
#include "convolver1d.h"
#include "read_profile_pub.h"
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
using std::string; using std::vector;
typedef vector<double> V;
int psfconvolve1d_main_entry(int, char**);
static V reference(const V& d, const V& p) {            // centred kernel, normalised to unit sum, zero outside the profile
  double s = 0; for (double x : p) s += x; int c = p.size() / 2; V o(d.size(), 0);
  for (int i = 0; i < (int)d.size(); i++) for (int k = 0; k < (int)p.size(); k++) { int j = i - (k - c); if (j >= 0 && j < (int)d.size()) o[i] += d[j] * p[k] / s; }
  return o;
}
static V pattern(int n, int kind) { V v(n, 0); if (kind < n) v[kind] = 2.5; else for (int i = 0; i < n; i++) { static const double A[3][9] = {{1, 2, 4, 3.5, -1, 0.25, 7, 1e3, 5}, {-3, 0.5, 1e-3, 12, 8, -2, 6, 1, 0.1}, {100, 250.75, 3, 3, 3, 0, 17, 2, 9}}; v[i] = A[kind - n][i % 9] * (1 + i / 9); } return v; }
static V kernel(int n, int kind) { V v = pattern(n, kind); double s = 0; for (double& x : v) { x = fabs(x); s += x; } if (s == 0) v[0] = 1; return v; }
// the convolution object: every impulse profile x every impulse kernel (the operation is bilinear) and dense ones, several profiles one after another
MC_PART(convolver) {
  int nd = 1 + mc::choose(mc::tier(7, 11)), np = 1 + mc::choose(mc::tier(8, 12)), kd = mc::choose(nd + 3), kp = mc::choose(np + 3), before = mc::choose(3); mc::shard(); bool measure = mc::tier(0, mc::choose(2)); double scale = mc::choose(2) ? 1 : 40;
  V d = pattern(nd, kd), p = kernel(np, kp), pp = p; for (double& x : pp) x *= scale; mc::note("profile of %d values (%d), kernel of %d values (%d)", nd, kd, np, kp);
  Convolver1D c; c.SetupPSF(pp.data(), np); c.SetupProfile(nd); MC_CHECK(c.DoFullSetup(0, measure) == 0, "setup", "set-up failed"); for (int b = 0; b < before; b++) { V x = pattern(nd, nd + b); c.ConvolveProfile(x.data()); }
  V g = d, w = reference(d, p); c.ConvolveProfile(g.data()); double m = 0; for (double x : d) m += fabs(x); for (int i = 0; i < nd; i++) MC_CHECK(fabs(g[i] - w[i]) <= 1e-12 * m, "convolution", "value %d is %.15g instead of %.15g (%d profiles before)", i, g[i], w[i], before);
  mc::count("transitions", 1 + before); mc::state((mc::Hash()(nd)(np)(kd)(kp)).h);
}
MC_PART(notready) { int k = mc::choose(3); V p = {1, 2, 1}; Convolver1D c; if (k == 1) c.SetupPSF(p.data(), 3); if (k == 2) c.SetupProfile(5); Capture e(2); int st = c.DoFullSetup(0); e.done(); MC_CHECK(st != 0, "notready", "set-up without a kernel or a profile succeeds"); mc::state(k); }
struct R { int rc; string out, err; };
static R program(vector<string> a, bool full = false) {      // full: nothing can be written (the captured output goes to files as well, so there is none)
  struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, SIG_IGN); struct Reset { struct rlimit& o; ~Reset() { setrlimit(RLIMIT_FSIZE, &o); } } reset{old}; lim = old; lim.rlim_cur = 0;
  a.insert(a.begin(), "psfconvolve1d"); vector<char*> av; for (auto& x : a) av.push_back(&x[0]); av.push_back(nullptr); R r; { Capture o(1), e(2); if (full) setrlimit(RLIMIT_FSIZE, &lim); try { r.rc = psfconvolve1d_main_entry((int)a.size(), av.data()) & 255; } catch (mc::ExitCalled& x) { r.rc = x.status & 255; } r.out = o.done(); r.err = e.done(); } mc::note("-> %d %s", r.rc, r.err.c_str()); return r;
}
static string F(const char* n) { return mc::scratch() + "/" + n; }
static string num(double v, int form) { char b[64]; snprintf(b, sizeof b, form == 0 ? "%.6f" : form == 1 ? "%.12e" : form == 2 ? "%+.9G" : "%.10g", v); return b; }
// how a table is written: separators, leading blanks, further columns, comments, line ends
static string table(const V& x, const V& y, int form, int deco, int at, int longc) {
  string t; static const char *SEP[] = {"\t", " ", "   \t ", "\t\t"}, *LEAD[] = {"", "  ", "\t", ""}, *MORE[] = {"", " 0.1 0", "\tabc", "  # end 5 6"};
  for (size_t i = 0; i <= x.size(); i++) { if ((int)i == at) { if (deco == 1) t += "# 17 18\n"; if (deco == 2) t += "#\n#x y\n"; if (deco == 3) t += "# " + string(longc, 'x') + " 5 6\n"; if (deco == 4) t += "#99 98 97\n# 3\t4"; if (deco == 4) t += "\n"; } if (i < x.size()) t += string(LEAD[form]) + num(x[i], form) + SEP[form] + num(y[i], form) + (deco == 5 ? MORE[1 + i % 3] : "") + (deco == 6 && (int)i == at ? string(longc, ' ') : "") + (i + 1 < x.size() || deco != 7 ? "\n" : ""); }
  return t;
}
static void judge(const string& f, const V& x, const V& w, const char* what) {
  string t = slurp(f); vector<string> l = lines(t); mc::note("%s", t.substr(0, 400).c_str()); MC_CHECK(l.size() == x.size(), "rows", "%s: %zu rows instead of %zu", what, l.size(), x.size());
  for (size_t i = 0; i < l.size(); i++) { double a, b; char rest; int k = sscanf(l[i].c_str(), "%lf %lf %c", &a, &b, &rest); MC_CHECK(k == 2, "format", "%s: row \"%s\"", what, l[i].c_str()); MC_CHECK(fabs(a - x[i]) <= 5.1e-7 + 1e-9 * fabs(x[i]), "x", "%s: row %zu: x is %.9g instead of %.9g", what, i, a, x[i]); MC_CHECK(fabs(b - w[i]) <= 5.1e-7 + 1e-9 * fabs(w[i]), "y", "%s: row %zu: y is %.9g instead of %.9g", what, i, b, w[i]); }
}
static V xs(int n, int k) { V v(n); for (int i = 0; i < n; i++) v[i] = k == 0 ? i : k == 1 ? 0.019 * pow(1.5, i) : 1000.25 - 3.5 * i; return v; }
// whole runs of the program
MC_PART(program) {
  int nd = 2 + mc::choose(mc::tier(5, 9)), np = 1 + mc::choose(mc::tier(8, 12)), kd = mc::choose(2) ? nd + mc::choose(3) : mc::choose(nd), kp = mc::choose(2) ? np + mc::choose(3) : mc::choose(np), form = mc::choose(4), opt = mc::choose(5); mc::shard();
  V x = xs(nd, mc::choose(3)), d = pattern(nd, kd), p = kernel(np, kp); string fd = F("d.dat"), fp = F("p.dat"), fo = F("o.dat"); remove(fo.c_str()); if (opt == 4) spit(fo, string(5000, '9')); spit(fd, table(x, d, form, 0, 0, 0)); spit(fp, table(xs(np, 0), p, 3 - form, 0, 0, 0));
  vector<string> a = {fd, fp, fo}; if (opt == 1) a.insert(a.begin(), {"--debug", "3"}); if (opt == 2) a.insert(a.begin() + 1, "--printProfiles"); if (opt == 3) a.push_back("--debug=1");
  mc::note("%d data, %d kernel values, option %d", nd, np, opt); R r = program(a); MC_CHECK(r.rc == 0, "status", "status %d: %s", r.rc, r.err.c_str()); judge(fo, x, reference(d, p), "output"); mc::count("transitions"); mc::state((mc::Hash()(nd)(np)(kd)(kp)(form)(opt)).h);
}
MC_PART(tables) {
  int nd = 2 + mc::choose(3), np = 1 + mc::choose(4), form = mc::choose(4), which = mc::choose(2), deco = 1 + mc::choose(7), at = mc::choose((which ? np : nd) + 1); static const vector<int> LEN = {1, 70, 500, 1000, 1010, 1013, 1014, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2030, 2044, 2045, 2046, 2047, 2048, 5000, 70000}; int len = deco == 3 || deco == 6 ? mc::pick(LEN) : 0; if ((deco == 5 || deco == 7) && at) mc::prune(); mc::shard();
  V x = xs(nd, 1), d = pattern(nd, nd), p = kernel(np, np + 1); string fd = F("d.dat"), fp = F("p.dat"), fo = F("o.dat"); remove(fo.c_str()); spit(fd, table(x, d, form, which ? 0 : deco, at, len)); spit(fp, table(xs(np, 0), p, form, which ? deco : 0, at, len)); mc::note("%d data, %d kernel values, form %d, %s: decoration %d (%d) at %d", nd, np, form, which ? "kernel" : "profile", deco, len, at);
  R r = program({fd, fp, fo}); MC_CHECK(r.rc == 0, "status", "status %d: %s", r.rc, r.err.c_str()); judge(fo, x, reference(d, p), "output"); mc::count("transitions"); mc::state((mc::Hash()(nd)(np)(form)(deco)(at)(len)(which)).h);
}
// what is left out on the command line has its default name
MC_PART(defaults) {
  int k = mc::choose(4); string dir = F("def"); mkdir(dir.c_str(), 0700); char cwd[4096]; if (!getcwd(cwd, sizeof cwd) || chdir(dir.c_str())) mc::fail("harness", "chdir"); for (const char* n : {"some_profile.dat", "psf_gaussian1d.dat", "convolve1d_out.dat", "d", "p", "o"}) remove(n);
  V x = xs(4, 0), d = pattern(4, 5), p = kernel(3, 4); spit(k > 0 ? "d" : "some_profile.dat", table(x, d, 0, 0, 0, 0)); spit(k > 1 ? "p" : "psf_gaussian1d.dat", table(xs(3, 0), p, 0, 0, 0, 0)); vector<string> a = {"d", "p", "o"}; a.resize(k); R r = program(a); if (r.rc == 0) judge(k > 2 ? "o" : "convolve1d_out.dat", x, reference(d, p), "output"); if (chdir(cwd)) abort(); MC_CHECK(r.rc == 0, "status", "status %d: %s", r.rc, r.err.c_str()); mc::state(k);
}
// defective input ends with an error, and nothing is presented as a result
MC_PART(defects) {
  int which = mc::choose(2), kind = mc::choose(6), n = 2 + mc::choose(3), at = mc::choose(n); mc::shard(); string fd = F("d.dat"), fp = F("p.dat"), fo = F("o.dat"); remove(fo.c_str()); V x = xs(n, 0), y = kernel(n, n); string good = table(x, y, 1, 0, 0, 0), bad;
  if (kind == 0) bad = ""; if (kind == 1) bad = "# 1 2\n# 3 4\n"; if (kind == 2 || kind == 3) { vector<string> l = lines(good); l[at] = kind == 2 ? "3.5" : "  7 "; for (auto& s : l) bad += s + "\n"; } string &tb = which ? fp : fd; if (at && kind != 2 && kind != 3) mc::prune(); spit(fd, which || kind > 3 ? good : bad); spit(fp, which && kind <= 3 ? bad : good); if (kind == 4) tb = F("missing.dat"); if (kind == 5) { if (!which) fo = F("nowhere") + "/o.dat"; }
  mc::note("defect %d in %s, row %d", kind, which ? "kernel" : "profile", at); bool full = kind == 5 && which; R r = program({fd, fp, fo}, full); MC_CHECK(r.rc != 0, "accepted", "defective input (kind %d) ends with status 0", kind); MC_CHECK(full || r.err != "" || r.out.find("wrong") != string::npos, "silent", "no message"); if (kind != 5) { struct stat st; MC_CHECK(stat(fo.c_str(), &st) != 0, "output", "an output file is written from defective input"); } mc::count("transitions"); mc::state((mc::Hash()(which)(kind)(n)(at)).h);
}
// tables with errors and masks, and ranges of rows
MC_PART(columns) {
  int n = 1 + mc::choose(mc::tier(4, 6)), cols = 1 + mc::choose(5), want = 2 + mc::choose(3), form = mc::choose(4), com = mc::choose(n + 2), first = mc::choose(n), last = first + mc::choose(n - first + 1); mc::shard(); static const char* SEP[] = {"\t", " ", " \t ", "    "}; vector<V> v(5, V(n)); string t;
  for (int i = 0; i < n; i++) { if (i == com) t += "# 1 2 3 4\n"; if (form == 3) t += " "; for (int c = 0; c < cols; c++) { v[c][i] = (c + 1) * 10.5 + i * (c % 2 ? -1.25 : 3) - 0.001 * i * i; t += (c ? SEP[form] : "") + num(v[c][i], form); } t += i + 1 == n && com == n ? "" : "\n"; }
  string f = F("t.dat"); spit(f, t); mc::note("%s", t.c_str()); MC_CHECK(CountDataLines(f) == n, "count", "%ld rows counted instead of %d", CountDataLines(f), n); V g[4]; for (auto& x : g) x.assign(n + 1, -99); bool exited = false; long got = -1; { Capture e(2); try { got = ReadDataFile(f, first, last, g[0].data(), g[1].data(), want > 2 ? g[2].data() : nullptr, want > 3 ? g[3].data() : nullptr); } catch (mc::ExitCalled& x) { exited = x.status != 0; } string s = e.done(); if (exited) MC_CHECK(s.find("issing") != string::npos, "silent", "no message"); }
  if (cols < want) { MC_CHECK(exited, "missing-column", "a table with %d columns is read as one with %d", cols, want); } else { long w = std::min(last, n - 1) - first + 1; MC_CHECK(!exited && got == w, "range", "rows %d..%d: %ld rows read instead of %ld", first, last, got, w); for (int c = 0; c < want; c++) for (int i = 0; i <= n; i++) { double e = i < w ? v[c][first + i] : -99; MC_CHECK(fabs(g[c][i] - e) <= 1e-6, "value", "column %d, row %d is %.9g instead of %.9g", c, i, g[c][i], e); } }
  mc::count("transitions"); mc::state((mc::Hash()(n)(cols)(want)(form)(first)(last)(com)).h);
}
