// P31: the Python modules of the repository return what the programs wrote. A Python process (lib/pyserver.py) imports
// /repo/python/imfit.py and answers questions; files are enumerated in the programs' formats, or written by the programs themselves.
#define OPTIONS_COMMON_ONLY
#include "h_options.cpp"
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <algorithm>
#include <fstream>
#include "funclist.h"
#include "functable.h"
static vector<string> splitAt(const string& s, char d) { vector<string> v; size_t i = 0; for (;;) { size_t j = s.find(d, i); v.push_back(s.substr(i, j == string::npos ? j : j - i)); if (j == string::npos) return v; i = j + 1; } }
static vector<string> words(const string& s) { vector<string> v; size_t i = 0; while ((i = s.find_first_not_of(" \t", i)) != string::npos) { size_t j = s.find_first_of(" \t", i); v.push_back(s.substr(i, j == string::npos ? j : j - i)); if (j == string::npos) break; i = j; } return v; }
static V nums(const string& s) { V v; for (auto& w : words(s)) v.push_back(strtod(w.c_str(), nullptr)); return v; }
struct Answer { int said = 0; vector<string> l; };
static Answer ask(const vector<string>& q) {
  static FILE *to = nullptr, *from = nullptr;
  if (!to) { int a[2], b[2]; if (pipe(a) || pipe(b)) abort(); if (fork() == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(a[0], 0); dup2(b[1], 1); for (int i = 3; i < 200; i++) close(i); setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1); if (chdir("/")) _exit(9); execlp("python3", "python3", "-B", PYSERVER, PYREPO, (char*)nullptr); _exit(9); } close(a[0]); close(b[1]); to = fdopen(a[1], "w"); from = fdopen(b[0], "r"); signal(SIGPIPE, SIG_IGN); }
  string s; for (size_t i = 0; i < q.size(); i++) s += (i ? "\t" : "") + q[i]; fprintf(to, "%s\n", s.c_str()); fflush(to); Answer r; char* line = nullptr; size_t n = 0; ssize_t k; bool first = true, end = false;
  while ((k = getline(&line, &n, from)) > 0) { string t(line, k - 1); if (first) { r.said = atoi(t.c_str()); first = false; continue; } if (t == "END") { end = true; break; } r.l.push_back(t); } free(line);
  if (!end) mc::fail("python", "the Python modules cannot be used (no answer)"); mc::count("transitions"); return r;
}
typedef vector<V> Rows;
static void judge(const Answer& a, const vector<string>& names, const Rows& want, const char* what, bool anyOrder = false) {
  MC_CHECK(!a.l.empty() && a.l[0] == "ok" && a.l.size() >= 3, "failed", "%s: %s", what, a.l.empty() ? "no answer" : a.l[0].c_str());
  MC_CHECK(splitAt(a.l[1], '\t') == names, "names", "%s: column names are %s", what, a.l[1].c_str());
  Rows got; for (size_t i = 3; i < a.l.size(); i++) got.push_back(nums(a.l[i])); MC_CHECK(got.size() == want.size(), "rows", "%s: %zu rows instead of %zu", what, got.size(), want.size());
  Rows w = want; if (anyOrder) { std::sort(got.begin(), got.end()); std::sort(w.begin(), w.end()); }
  for (size_t i = 0; i < w.size(); i++) { MC_CHECK(got[i].size() == names.size(), "columns", "%s: %zu columns in row %zu, %zu names", what, got[i].size(), i, names.size()); for (size_t j = 0; j < w[i].size(); j++) MC_CHECK(got[i][j] == w[i][j], "value", "%s: row %zu, column %zu is %.17g instead of %.17g", what, i, j, got[i][j], w[i][j]); }
}
static string path(const char* n) { return mc::scratch() + "/" + n; }
static void clean() { for (auto& f : ls(mc::scratch())) if (f.compare(0, 2, "f_") == 0 || f.compare(0, 2, "g_") == 0) remove((mc::scratch() + "/" + f).c_str()); }
static double value(int chain, int row, int col) { return chain * 1000 + row * 10 + col + 0.25 * ((row * 7 + col) % 3) - (col == 1 ? 5000 : 0); }
static vector<string> pnames(int n) { static const char* N[] = {"X0_1", "Y0_1", "PA_1", "ell_1", "I_0_1", "h_1"}; return vector<string>(N, N + n); }
static string preamble(int n) { string s; for (int i = 0; i < n; i++) s += i % 3 == 0 ? "# note " + num(i) + "\n" : i % 3 == 1 ? "#\n" : "# X0   12.5 # Column names later, 1 2 3\n"; return s; }
MC_PART(bootstrap) {
  static const vector<int> PRE = {0, 1, 3, 30, 96, 97, 98, 99, 100, 101, 150}, IT = {1, 2, 3, 5, 50, 98, 99, 100, 101, 200}; int n = 1 + mc::choose(6), pre = mc::pick(PRE), it = mc::pick(IT), form = mc::choose(3); mc::shard(); clean();
  string t = preamble(pre) + "#\n# Bootstrap resampling output (" + num(it) + " iterations requested):\n# "; Rows w; for (auto& s : pnames(n)) t += s + (form == 1 ? "\t" : "   "); t += "\n"; for (int i = 0; i < it; i++) { V r; for (int j = 0; j < n; j++) { r.push_back(atof(num(form == 2 ? value(0, i, j) * 1e-9 : value(0, i, j)).c_str())); t += (j ? form == 1 ? "\t" : "     " : form == 0 ? " " : "") + num(r[j]); } t += form == 2 && i + 1 == it ? "" : "\n"; w.push_back(r); }
  spit(path("f_boot.dat"), t); mc::note("%d parameters, %d iterations after %d lines, form %d", n, it, pre, form); judge(ask({"boot", path("f_boot.dat")}), pnames(n), w, "bootstrap output"); mc::state((mc::Hash()(n)(pre)(it)(form)).h);
}
static vector<string> chainNames(int n, bool all) { vector<string> v = pnames(n); if (all) for (const char* s : {"likelihood", "burn-in", "CR1", "CR2", "CR3", "accept"}) v.push_back(s); return v; }
MC_PART(chains) {
  static const vector<int> PRE = {0, 5, 97, 98, 99, 100, 130}, START = {-1, 0, 1, 2, 3, 4, 6, 7, 20}, LAST = {-1, 1, 2, 3, 7, 50}; int n = 1 + mc::choose(3), ch = 1 + mc::choose(mc::tier(4, 6)), gen = 1 + mc::choose(7), pre = mc::pick(PRE), com = mc::choose(2), mode = mc::choose(3); bool all = mc::flip(); mc::shard();
  int start = mode == 0 ? mc::pick(START) : -1, last = mode == 1 ? mc::pick(LAST) : -1, mx = mc::choose(ch + 2); clean(); string root = path("f_ch"); vector<Rows> R(ch);
  for (int c = 0; c < ch; c++) { string t = preamble(pre) + "#\n# Column Headers\n# "; for (auto& s : chainNames(n, true)) t += s + "  "; t += "\n"; for (int g = 0; g < gen; g++) { if (com && g == gen / 2) t += "# a remark 1 2 3\n"; V r; for (int j = 0; j < n + 6; j++) { r.push_back(value(c + 1, g, j)); t += num(r[j]) + (j + 1 < n + 6 ? " " : "\n"); } if (!all) r.resize(n); R[c].push_back(r); } spit(root + "." + num(c + 1) + ".txt", t); }
  spit(path("f_chx.1.txt"), "# Column Headers\n# X0_1\n 77\n"); spit(path("g_ch.1.txt"), "3\n"); mc::note("%d chains of %d generations, %d parameters, %d lines before; start %d, last %d, mode %d, maximum %d, all columns %d", ch, gen, n, pre, start, last, mode, mx, all);
  judge(ask({"single", root + ".1.txt", all ? "1" : "0"}), chainNames(n, all), R[0], "single chain");
  Answer a = ask({"merge", root, mx ? num(mx) : "-", all ? "1" : "0", start < 0 ? "-" : num(start), last < 0 ? "-" : num(last), mode == 2 ? "1" : "0"});
  int from = mode == 2 ? gen / 2 : mode == 1 && last >= 0 ? std::max(0, gen - last) : start < 0 ? 10000 : start; mc::state((mc::Hash()(n)(ch)(gen)(pre)(com)(mode)(start)(last)(mx)((int)all)).h);
  if (mx > ch || from >= gen) { MC_CHECK(a.l[0] == "none" && a.said > 0, "accepted", "there are no such chains or generations, but the answer is %s", a.l[0].c_str()); return; }
  Rows w; for (int c = 0; c < (mx ? mx : ch); c++) w.insert(w.end(), R[c].begin() + from, R[c].end()); judge(a, chainNames(n, all), w, "merged chains", mx == 0);
}
MC_PART(missing) {
  int k = mc::choose(5); mc::shard(); clean(); vector<string> q[5] = {{"boot", path("f_no")}, {"single", path("f_no"), "0"}, {"merge", path("f_no"), "-", "0", "-", "-", "0"}, {"merge", path("f_no"), "2", "0", "-", "-", "1"}, {"config", path("f_no"), "0", "1", "0", "1"}}; Answer a = ask(q[k]); MC_CHECK(a.l[0] == "none" && a.said > 0, "missing", "a file that does not exist: %s, %d characters printed", a.l[0].c_str(), a.said); mc::state(k);
}
// configuration and parameter files: the profiles are those of the program's functions
static const vector<string> MAPPED = {"Exponential", "Exponential_GenEllipse", "Sersic", "Sersic_GenEllipse", "Gaussian", "GaussianRing", "GaussianRing2Side", "Moffat", "BrokenExponential"};
struct M { int skip; vector<int> len, inv; bool ring; };
static M info(const string& n) { M m; m.skip = n.find("GenEllipse") != string::npos ? 3 : 2; m.ring = n.find("Ring") != string::npos; const T* t = nullptr; for (auto& x : functable()) if (n == x.name) t = &x; vector<string> u = splitAt(t->units, '|'); for (int i = 0; i < (int)u.size(); i++) { if (u[i] == "pixels") m.len.push_back(i); if (u[i] == "1/pixels") m.inv.push_back(i); } return m; }
static V params(const string& n, int v) { for (auto& t : functable()) if (n == t.name) { V p = t.p; for (size_t i = 0; i < p.size(); i++) p[i] *= 1 + 0.125 * v * ((i * 3 + v) % 3); p[1] = 0.3 + 0.15 * v; return p; } abort(); }
MC_PART(profiles) {
  static const vector<string> PIX = {"1", "0.4", "2.5"}, X0 = {"0", "3.5"}, R = {"0.5", "1", "2", "3", "4.5", "6", "9", "15"}; int nf = 1 + mc::choose(mc::tier(2, 3)); vector<int> f, v; for (int i = 0; i < nf; i++) f.push_back(mc::choose((int)MAPPED.size())); int newset = nf > 1 ? mc::choose(2) : 0, form = mc::choose(7); mc::shard(); for (int i = 0; i < nf; i++) v.push_back((f[i] + i + form) % 3);
  bool minor = mc::flip(); string pix = mc::pick(PIX), x0 = mc::pick(X0); clean(); string t; if (form == 1) t += "# Best-fit model results for imfit 1.9\n#   X0 is below\n\n"; if (form == 2) t += "GAIN 4.7\nREADNOISE 0.7 # e-\n\n"; string in = form == 3 ? "  " : ""; vector<V> P; string sep = form == 4 ? "\t" : "    ";
  for (int i = 0; i < nf; i++) { if (i == 0 || (newset && i == nf - 1)) t += in + "X0" + sep + "100.5 90,110\n" + in + "Y0" + sep + "80.25 # +/- 0.5\n"; t += in + "FUNCTION " + MAPPED[f[i]] + (form == 5 ? " # LABEL thing" : "") + "\n"; P.push_back(params(MAPPED[f[i]], v[i])); const char* lab = nullptr; for (auto& x : functable()) if (MAPPED[f[i]] == x.name) lab = x.labels; vector<string> L = splitAt(lab, ' '); for (size_t k = 0; k < P[i].size(); k++) { t += in + L[k] + sep + num(P[i][k]) + (form == 1 ? "   # +/- 0.25" : form == 5 && k % 2 ? " fixed" : form == 6 ? " 0.0,1000.0   # limits" : "") + "\n"; if (form == 6 && k == 1) t += "\n   # remark\n"; } }
  spit(path("f_conf.dat"), t); string rs; for (auto& s : R) rs += (rs.empty() ? "" : ",") + s; mc::note("pix %s, X0 %s, minor axis %d: %s", pix.c_str(), x0.c_str(), minor, t.c_str()); Answer a = ask({"config", path("f_conf.dat"), minor ? "1" : "0", pix, x0, rs});
  MC_CHECK(a.l[0] == "ok", "failed", "%s\n%s", a.l[0].c_str(), t.c_str()); MC_CHECK((int)a.l.size() == 1 + 8 * nf, "functions", "%zu functions", (a.l.size() - 1) / 8);
  for (int i = 0; i < nf; i++) { const string& n = MAPPED[f[i]]; M m = info(n); MC_CHECK(a.l[1 + 8 * i].compare(0, n.size() + 1, n + "\t") == 0, "name", "function %d is %s", i, a.l[1 + 8 * i].c_str()); double q = (minor ? 1 - P[i][1] : 1) * atof(pix.c_str()); V w = {atof(x0.c_str())}, full = P[i]; for (int k : m.len) full[k] *= q; for (int k : m.inv) full[k] /= q; w.insert(w.end(), full.begin() + m.skip, full.end());
    V g = nums(a.l[2 + 8 * i]); MC_CHECK(g.size() == w.size(), "count", "%s: %zu values", n.c_str(), g.size()); for (size_t k = 0; k < w.size(); k++) MC_CHECK(mc::close(g[k], w[k], 1e-12), "parameter", "%s: value %zu is %.12g instead of %.12g", n.c_str(), k, g[k], w[k]);
    std::unique_ptr<FunctionObject> o(makeFunction(n)); o->SetSubsampling(false); V p = P[i]; o->Setup(p.data(), 0, 50, 60); double th = p[0] * 3.14159265358979 / 180, ux = minor ? cos(th) : -sin(th), uy = minor ? sin(th) : cos(th);
    for (int k = 0; k < 6; k++) { V got = nums(a.l[3 + 8 * i + k]); for (size_t j = 0; j < R.size(); j++) { double r = m.ring ? atof(R[j].c_str()) : fabs(atof(R[j].c_str()) - atof(x0.c_str())), d = r / atof(pix.c_str()), e = o->GetValue(50 + d * ux, 60 + d * uy); if (k % 3 == 1) e = -2.5 * log10(e); double tol = n.compare(0, 6, "Sersic") == 0 || n == "BrokenExponential" ? 2e-4 : 1e-8; MC_CHECK((k % 3 == 1 ? e > 490 && got[j] > 490 : fabs(e) + fabs(got[j]) < 1e-190) || fabs(got[j] - e) <= tol * fabs(e) + 1e-7 * (k % 3 == 1), "profile", "%s (form %d) at r = %s is %.10g, the program's function gives %.10g", n.c_str(), k, R[j].c_str(), got[j], e); } } }
  mc::Hash h; for (int i : f) h(i); mc::state(h(newset)(form)((int)minor)(pix)(x0).h);
}
// files written by the programs themselves
static int run(int (*f)(int, char**), vector<string> a) { vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr); Capture c1, c2(2); int st; { jmp_buf jb; mc::exitJump() = &jb; if (setjmp(jb)) st = mc::exitStatus(); else { st = f((int)a.size(), v.data()); mc::exitJump() = nullptr; } } return st; }
static Rows readRows(const string& fn, const char* head, vector<string>& names, int keep) { std::ifstream in(fn); string l; Rows r; while (std::getline(in, l)) { if (!l.empty() && l[0] == '#') { if (l.find(head) != string::npos && std::getline(in, l)) { names = words(l.substr(1)); for (size_t i = 0; keep && i < names.size(); i++) if (names[i] == "likelihood") { names.resize(i); break; } } continue; } if (words(l).empty()) continue; V v = nums(l); if (keep) v.resize(names.size()); r.push_back(v); } return r; }
MC_PART(programs) {
  int kind = mc::choose(3), it = 1 + mc::choose(4), sec = mc::choose(2), lab = mc::choose(2); mc::shard(); prepare(); O o; if (sec) o.section(); string b = body(false); if (lab) { size_t i = b.find("FUNCTION FlatSky\n"); b.insert(i + 16, " # LABEL a b # c"); } spit("cfg", b); mc::note("kind %d, %d, section %d", kind, it, sec);
  mc::state((mc::Hash()(kind)(it)(sec)(lab)).h);
  if (kind == 0) { int st = run(imfit_main_entry, {"imfit", "img.fits" + o.secText(), "-c", "cfg", "--max-threads", "1", "--nm", "--bootstrap", num(it), "--save-bootstrap", "out/b.dat", "--seed", "3"}); MC_CHECK(st == 0, "harness", "imfit ends with %d", st); vector<string> n; Rows w = readRows("out/b.dat", "# Bootstrap resampling output", n, 0); MC_CHECK((int)w.size() == it && n.size() == P0.size(), "harness-read", "%zu rows, %zu names", w.size(), n.size()); judge(ask({"boot", D() + "/out/b.dat"}), n, w, "bootstrap output of imfit"); return; }
  int nch = 3 + (it % 2), len = kind == 1 ? 12 + it : 60 * it; int st = run(mcmc_main_entry, {"imfit-mcmc", "img.fits" + o.secText(), "-c", "cfg", "--max-threads", "1", "-o", "out/ch", "--nchains", num(nch), "--max-chain-length", num(len), "--burnin-length", "10", "--gelman-evals", "10", "--seed", "7"}); MC_CHECK(st == 0, "harness", "imfit-mcmc ends with %d", st);
  for (int all = 0; all < 2; all++) { vector<Rows> R; vector<string> n; for (int c = 1; c <= nch; c++) { vector<string> m; R.push_back(readRows("out/ch." + num(c) + ".txt", "# Column Headers", m, !all)); MC_CHECK(c == 1 || m == n, "harness-read", "names differ"); n = m; } MC_CHECK(!n.empty() && R[0].size() > 1, "harness-read", "%zu names, %zu rows", n.size(), R[0].size()); for (auto& r : R) MC_CHECK(r.size() == R[0].size(), "harness-read", "chains of different lengths");
    for (int c = 1; c <= nch; c++) judge(ask({"single", D() + "/out/ch." + num(c) + ".txt", all ? "1" : "0"}), n, R[c - 1], "chain of imfit-mcmc");
    for (int half = 0; half < 2; half++) for (int mx : {0, 1, nch}) { Rows w; size_t from = half ? R[0].size() / 2 : 1; for (int c = 0; c < (mx ? mx : nch); c++) w.insert(w.end(), R[c].begin() + from, R[c].end()); judge(ask({"merge", D() + "/out/ch", mx ? num(mx) : "-", all ? "1" : "0", "1", "-", half ? "1" : "0"}), n, w, "merged chains of imfit-mcmc", mx == 0); } }
}
// names of the images makeimage saves for single functions
MC_PART(functionimages) {
  int n = 1 + mc::choose(4), slash = mc::choose(2); vector<int> f; static const vector<string> FN = {"FlatSky", "Exponential", "Gaussian"}; for (int i = 0; i < n; i++) f.push_back(mc::choose(3)); mc::shard(); prepare(); string t = "X0 4\nY0 3\n", base = slash ? "out/im_" : "im_"; vector<string> q = {"names", base}; for (int i : f) { t += "FUNCTION " + FN[i] + "\n"; for (auto& x : functable()) if (FN[i] == x.name) { vector<string> L = splitAt(x.labels, ' '); for (size_t k = 0; k < L.size(); k++) t += (FN[i] == "FlatSky" ? string("I_sky") : L[k]) + " " + num(x.p[k]) + "\n"; q.push_back(FN[i]); } }
  spit("cfg", t); int st = run(makeimage_main_entry, {"makeimage", "cfg", "--ncols", "8", "--nrows", "6", "--max-threads", "1", "-o", "out/whole.fits", "--output-functions", base}); MC_CHECK(st == 0, "harness", "makeimage ends with %d:\n%s", st, t.c_str()); vector<string> got = ask(q).l, have; for (auto& x : ls(slash ? "out" : ".")) if (x.compare(0, 3, "im_") == 0) have.push_back((slash ? "out/" : "") + x); got.erase(got.begin()); std::sort(got.begin(), got.end()); std::sort(have.begin(), have.end()); string s; for (auto& x : have) { s += " " + x; remove(x.c_str()); } string s2; for (auto& x : got) s2 += " " + x; MC_CHECK(got == have, "image-names", "makeimage writes%s, Python says%s", s.c_str(), s2.c_str()); mc::Hash h; for (int i : f) h(i); mc::state(h(slash).h);
}
