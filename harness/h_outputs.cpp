// P30: an output file that cannot be created or written completely is never passed over in silence. The five programs run from
// main(); the file system refuses to create an output, or accepts only the first L bytes of every file, for every L of a set.
#define OPTIONS_COMMON_ONLY
#include "h_options.cpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <set>
#include <map>
extern int multimfit_main_entry(int, char**); extern int makemultimages_main_entry(int, char**);
struct Sc { const char* name; int (*f)(int, char**); vector<string> a; };
static const vector<Sc>& scenarios() {
  static const vector<string> im = {"img.fits", "-c", "cfg", "--max-threads", "1"}; auto I = [](const char* prog, vector<string> more) { vector<string> v = {prog}; v.insert(v.end(), im.begin(), im.end()); v.insert(v.end(), more.begin(), more.end()); return v; };
  static const vector<Sc> s = {
    {"imfit", imfit_main_entry, I("imfit", {"--save-params", "out/a.dat", "--save-model", "out/m.fits", "--save-residual", "out/r.fits", "--save-weights", "out/w.fits"})},
    {"imfit with bootstrap", imfit_main_entry, I("imfit", {"--nm", "--save-params=out/a.dat", "--bootstrap", "2", "--save-bootstrap", "out/b.dat", "--seed", "3"})},
    {"imfit with many bootstrap iterations", imfit_main_entry, I("imfit", {"--save-params=out/a.dat", "--bootstrap", "60", "--save-bootstrap", "out/b.dat", "--seed", "3"})},
    {"imfit for the statistic only", imfit_main_entry, I("imfit", {"--fitstat-only", "--save-model", "out/m.fits", "--save-weights", "out/w.fits"})},
    {"imfit-mcmc", mcmc_main_entry, I("imfit-mcmc", {"-o", "out/ch", "--nchains", "3", "--max-chain-length", "24", "--burnin-length", "10", "--gelman-evals", "10", "--seed", "7"})},
    {"makeimage", makeimage_main_entry, {"makeimage", "cfgm", "-o", "out/i.fits", "--ncols", "9", "--nrows", "8", "--output-functions", "out/f", "--save-fluxes", "out/x.dat", "--estimation-size", "30", "--max-threads", "1"}},
    {"makeimage with PSF", makeimage_main_entry, {"makeimage", "cfgm", "-o", "expanded_i.fits", "--ncols=31", "--nrows=30", "--psf", "psf.fits", "--save-expanded", "--max-threads", "1"}},
    {"multimfit", multimfit_main_entry, {"multimfit", "-c", "cfg", "-i", "info", "--max-threads", "1", "--save-params-root", "out/p", "--save-model", "out/m"}},
    {"multimfit with bootstrap", multimfit_main_entry, {"multimfit", "-c", "cfg", "-i", "info", "--max-threads", "1", "--save-params-root", "out/p", "--bootstrap", "2", "--save-bootstrap", "out/b.dat", "--seed", "3", "--nm"}},
    {"makemultimages", makemultimages_main_entry, {"makemultimages", "cfgm", "--image-info", "info", "-o", "out/m", "--max-threads", "1"}}};
  return s;
}
static void world() { prepare(); spit("cfg", body(false)); string m = BODY; size_t i; while ((i = m.find(" fixed")) != string::npos) m.erase(i, 6); spit("cfgm", m); spit("info", "IMAGE_START\nDATA img.fits\nIMAGE_START\nDATA img.fits\nPIXEL_SCALE 1 fixed\nIMAGE_PA 10 fixed\nFLUX_SCALE 1 fixed\nX0 4.2 fixed\nY0 3.7 fixed\n"); }
struct Res { int st; string err; std::map<string, long> size; };
// transient: only the first write beyond the limit fails (its SIGXFSZ lifts the limit)
static volatile sig_atomic_t failedWrites; static struct rlimit plainLimit;
static void lift(int) { failedWrites = failedWrites + 1; setrlimit(RLIMIT_FSIZE, &plainLimit); }
static Res go(const Sc& s, const vector<string>& args, long limit, bool transient = false) {
  vector<string> a = args; vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr); Res r; fflush(stdout); fflush(stderr); int so = dup(1), se = dup(2), p[2]; if (pipe2(p, O_NONBLOCK)) abort(); fcntl(p[1], F_SETPIPE_SZ, 1 << 18); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(p[1], 2); close(nul); close(p[1]); stopSignal_flag = 0; signal(SIGXFSZ, transient ? lift : SIG_IGN); failedWrites = 0;
  struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = plainLimit = old; if (limit >= 0) { lim.rlim_cur = limit; setrlimit(RLIMIT_FSIZE, &lim); }
  { jmp_buf jb; mc::exitJump() = &jb; if (setjmp(jb)) r.st = mc::exitStatus(); else { r.st = s.f((int)a.size(), v.data()); mc::exitJump() = nullptr; } }
  setrlimit(RLIMIT_FSIZE, &old); fflush(stdout); fflush(stderr); dup2(so, 1); dup2(se, 2); close(so); close(se); char b[4096]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) r.err.append(b, k); close(p[0]); if (chdir(D().c_str())) abort(); r.st &= 255; mc::count("transitions"); fflush(nullptr);
  for (auto& f : ls("out")) { struct stat st; if (!stat(("out/" + f).c_str(), &st) && S_ISREG(st.st_mode)) r.size[f] = st.st_size; } for (auto& f : ls(".")) if (f.find("expanded") == 0) { struct stat st; if (!stat(f.c_str(), &st)) r.size[f] = st.st_size; }
  return r;
}
static const Res& baseline(int k) { static std::map<int, Res> m; if (!m.count(k)) { world(); m[k] = go(scenarios()[k], scenarios()[k].a, -1); } return m[k]; }
static bool has(const string& t, const char* w) { return t.find(w) != string::npos; }
static void quiet(int k) { const Res& b = baseline(k); MC_CHECK(b.st == 0 && b.size.size() >= 2, "baseline", "%s: status %d, %zu outputs\n%s", scenarios()[k].name, b.st, b.size.size(), b.err.c_str()); for (auto& f : b.size) MC_CHECK(!has(b.err, f.first.c_str()), "false-alarm", "%s: a message about %s although everything could be written:\n%s", scenarios()[k].name, f.first.c_str(), b.err.c_str()); MC_CHECK(!has(b.err, "Unable to write") && !has(b.err, "Problems"), "false-alarm", "%s: a message although everything could be written:\n%s", scenarios()[k].name, b.err.c_str()); }
static void judge(int k, const Res& r, const char* spared = nullptr) {
  const Res& b = baseline(k); mc::note("status %d; %s", r.st, r.err.c_str()); if (r.st != 0) { MC_CHECK(!r.err.empty(), "silent-status", "%s ends with status %d without a message", scenarios()[k].name, r.st); return; }
  for (auto& f : b.size) { auto it = r.size.find(f.first); if (it != r.size.end() && it->second == f.second) continue; string stem = f.first.substr(0, f.first.rfind('.')); MC_CHECK(has(r.err, stem.c_str()), "silent", "%s: %s has %ld of %ld bytes, the exit status is 0 and no message mentions it:\n%s", scenarios()[k].name, f.first.c_str(), it == r.size.end() ? -1L : it->second, f.second, r.err.c_str()); if (spared) MC_CHECK(f.first == spared, "others", "%s: because of %s, %s has not been written", scenarios()[k].name, spared, f.first.c_str()); }
}
// every file of the run is cut after L bytes
MC_PART(cut) {
  int k = mc::choose((int)scenarios().size()); quiet(k); const Res& b = baseline(k); std::set<long> L; long mx = 0; for (auto& f : b.size) { long s = f.second; mx = std::max(mx, s); for (long x : {0L, 1L, 2L, 80L, s / 3, s / 2, s - 2, s - 1, s, s + 1}) L.insert(x); for (long x = 2880; x <= s; x += 2880) for (long d : {-1L, 0L, 1L}) L.insert(x + d); for (long x = 4096; x <= s; x += 4096) for (long d : {-1L, 0L, 1L}) L.insert(x + d); } if (mc::thorough()) for (long x = 0; x <= mx; x += 13) L.insert(x); else for (long x = 0; x <= mx; x += 331) L.insert(x);
  vector<long> lv(L.begin(), L.end()); long l = mc::pick(lv); mc::shard(); world(); mc::note("%s, files limited to %ld bytes", scenarios()[k].name, l); Res r = go(scenarios()[k], scenarios()[k].a, l); judge(k, r); bool all = true; for (auto& f : b.size) all &= l >= f.second; if (all) MC_CHECK(r.st == 0 && r.err == b.err, "false-alarm", "nothing was cut, but: status %d\n%s", r.st, r.err.c_str()); mc::state((mc::Hash()(k)(l)).h);
}
// one write fails (a disk that is full for a moment): the bytes of that write are missing, the rest is there
MC_PART(transient) {
  int k = mc::choose((int)scenarios().size()); quiet(k); const Res& b = baseline(k); std::set<long> L; long mx = 0; for (auto& f : b.size) { long s = f.second; mx = std::max(mx, s); for (long x : {0L, 1L, 80L, s / 3, s / 2, s - 1, s}) L.insert(x); for (long x = 2880; x <= s; x += 2880) for (long d : {-1L, 0L, 1L}) L.insert(x + d); for (long x = 4096; x <= s; x += 4096) for (long d : {-1L, 0L, 1L}) L.insert(x + d); } for (long x = 0; x <= mx; x += mc::tier(653, 13)) L.insert(x);
  vector<long> lv(L.begin(), L.end()); long l = mc::pick(lv); mc::shard(); world(); mc::note("%s, the first write beyond byte %ld of a file fails", scenarios()[k].name, l); Res r = go(scenarios()[k], scenarios()[k].a, l, true); judge(k, r);
  if (failedWrites) MC_CHECK(r.st != 0 || r.err != b.err, "unnoticed-write", "%s: a write failed, but the exit status is 0 and nothing is said about it:\n%s", scenarios()[k].name, r.err.c_str()); else MC_CHECK(r.st == 0 && r.err == b.err, "false-alarm", "nothing failed, but: status %d\n%s", r.st, r.err.c_str()); mc::state((mc::Hash()(k)(l)).h);
}
// one output cannot be created: a directory has its name; its directory does not exist
MC_PART(refused) {
  int k = mc::choose((int)scenarios().size()); quiet(k); const Res& b = baseline(k); vector<string> names; for (auto& f : b.size) names.push_back(f.first); string f = mc::pick(names); mc::shard(); world(); string path = f.find("expanded") == 0 ? f : "out/" + f; mkdir(path.c_str(), 0700);
  mc::note("%s: %s is a directory", scenarios()[k].name, f.c_str()); Res r = go(scenarios()[k], scenarios()[k].a, -1); judge(k, r, f.c_str()); remove(path.c_str()); mc::state((mc::Hash()(k)(f)).h);
}
MC_PART(nodirectory) {
  int k = mc::choose((int)scenarios().size()); quiet(k); vector<string> a = scenarios()[k].a; vector<int> w; for (int i = 0; i < (int)a.size(); i++) if (has(a[i], "out/")) w.push_back(i); if (w.empty()) mc::prune(); int i = mc::pick(w); mc::shard(); world(); size_t at = a[i].find("out/"); string stem = a[i].substr(at + 4); a[i].replace(at, 4, "out/none/"); mc::note("%s: %s", scenarios()[k].name, a[i].c_str()); Res r = go(scenarios()[k], a, -1); mc::note("status %d; %s", r.st, r.err.c_str()); stem = stem.substr(0, stem.rfind('.'));
  MC_CHECK(!r.err.empty() && (r.st != 0 || has(r.err, ("none/" + stem).c_str())), "silent", "%s with %s: status %d, no message:\n%s", scenarios()[k].name, a[i].c_str(), r.st, r.err.c_str()); if (r.st == 0) for (auto& f : baseline(k).size) if (f.first.find(stem) != 0 && f.first.find("expanded") != 0) MC_CHECK(r.size.count(f.first), "others", "%s: because of %s, %s has not been written", scenarios()[k].name, a[i].c_str(), f.first.c_str()); mc::state((mc::Hash()(k)(i)).h);
}
