// P17: crashes at every byte of the MCMC output, and restarts from what is left.
#define MC_DEFINE_MAIN
#define MC_WRAP_CORES
#include "h_chains.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/stat.h>

// ---- everything that happens to chain files is recorded; a crash leaves a prefix of it (any number of bytes of a write)
struct Op { char kind; string path, data; long pos; };
static vector<Op> journal; static long budget = -1, spent = 0; static string watchRoot; static bool watching = false;
static bool ours(const char* path) { return watching && path && !strncmp(path, watchRoot.c_str(), watchRoot.size()); }
static string oursFd(int fd) { if (!watching) return ""; char l[64], b[600]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, b, sizeof b - 1); if (k <= 0) return ""; b[k] = 0; return ours(b) ? b : ""; }
static void tick(char kind, const string& path, const string& data = "", long pos = 0) { if (budget >= 0 && spent >= budget) _exit(77); spent++; journal.push_back({kind, path, data, pos}); }
extern "C" ssize_t write(int fd, const void* b, size_t n) {
  string p = oursFd(fd); if (p.empty()) return syscall(SYS_write, fd, b, n);
  if (budget >= 0 && spent + (long)n > budget) { size_t k = budget - spent; if (k) syscall(SYS_write, fd, b, k); _exit(77); }
  spent += n; struct stat sb; long pos = (fcntl(fd, F_GETFL) & O_APPEND) && !fstat(fd, &sb) ? sb.st_size : lseek(fd, 0, SEEK_CUR); journal.push_back({'w', p, string((const char*)b, n), pos}); return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) { if (oursFd(fd).empty()) return syscall(SYS_writev, fd, v, n); ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t k = write(fd, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : k; t += k; } return t; }
extern "C" int truncate(const char* p, off_t n) noexcept { if (ours(p)) tick('t', p, "", n); return syscall(SYS_truncate, p, n); }
extern "C" int ftruncate(int fd, off_t n) noexcept { string p = oursFd(fd); if (p.size()) tick('t', p, "", n); return syscall(SYS_ftruncate, fd, n); }
extern "C" int rename(const char* a, const char* b) noexcept { if (ours(a) || ours(b)) tick('r', a, b); return syscall(SYS_rename, a, b); }
extern "C" int unlink(const char* a) noexcept { if (ours(a)) tick('u', a); return syscall(SYS_unlink, a); }
extern "C" FILE* fopen64(const char* p, const char* m) { static FILE* (*r)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64"); if (ours(p) && m && m[0] != 'r') tick(m[0] == 'w' ? 'o' : 'a', p); return r(p, m); }
extern "C" FILE* fopen(const char* p, const char* m) { static FILE* (*r)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen"); if (ours(p) && m && m[0] != 'r') tick(m[0] == 'w' ? 'o' : 'a', p); return r(p, m); }
typedef std::map<string, string> Disk;
static Disk afterCrash(Disk d, const vector<Op>& j, long at) {
  for (auto& o : j) { if (at <= 0) break;
    switch (o.kind) { case 'o': d[o.path] = ""; at--; break; case 'a': d[o.path]; at--; break; case 't': d[o.path].resize(o.pos); at--; break; case 'r': d[o.data] = d[o.path]; d.erase(o.path); at--; break; case 'u': d.erase(o.path); at--; break;
      case 'w': { string w = o.data.substr(0, at); string& f = d[o.path]; if ((long)f.size() < o.pos + (long)w.size()) f.resize(o.pos + w.size()); f.replace(o.pos, w.size(), w); at -= w.size(); if (w.size() < o.data.size()) at = 0; break; } } }
  return d;
}

static const int NC = 5;
static Cfg cfg(int k) { Cfg c; c.loop = 2; c.nCR = 2; c.burn = 2; c.gens = 4; c.reenter = 1; switch (k) { case 1: c.chains = 2; c.ox = 1000; c.oy = 37; c.lockMask = 4; break; case 2: c.chains = 4; c.nCR = 3; c.burn = 0; c.lockMask = 2; c.ox = 12; break; case 3: c.nvar = 5 - 1; c.chains = 2; c.land = 2; c.gelman = 1; c.crit = 0.5; break; case 4: c.chains = 5; c.land = 4; c.loop = 1; c.gelman = 1; c.crit = 0.1; break; } return c; }
// a run, or a restart, which dies after `at` bytes; true if it did die
static bool crashRun(const Cfg& c, const string& root, bool append, int gens, long at, int sd) {
  fflush(stdout); fflush(stderr); pid_t p = fork();
  if (!p) { try { Run r; setupRun(r, c); r.root = root; Ctl g(&r, 0, sd); watchRoot = root; budget = at; spent = 0; watching = true; runDream(r, &g, append, gens); watching = false; } catch (...) { _exit(3); } _exit(0); }
  int st; waitpid(p, &st, 0); mc::count("crashes"); MC_CHECK(WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 0), "crash-run", "the interrupted run itself ended abnormally (wait status %d)", st); return WEXITSTATUS(st) == 77;
}
// what a run that is not interrupted does to the chain files
static vector<Op> record(const Cfg& c, const string& root, bool append, int gens, int sd, long& total) { Run r; setupRun(r, c); r.root = root; Ctl g(&r, 0, sd); watchRoot = root; budget = -1; spent = 0; journal.clear(); watching = true; runDream(r, &g, append, gens); watching = false; total = spent; return journal; }
typedef vector<string> Files;
static Files load(const string& root, int nc) { Files f; for (int i = 0; i < nc; i++) { struct stat sb; f.push_back(stat(chainName(root, i).c_str(), &sb) ? "<absent>" : slurp(chainName(root, i))); } return f; }
static void store(const string& root, const Files& f) { removeChains(root); for (size_t i = 0; i < f.size(); i++) if (f[i] != "<absent>") spit(chainName(root, i), f[i]); }
static Disk disk(const string& root, const Files& f) { Disk d; for (size_t i = 0; i < f.size(); i++) if (f[i] != "<absent>") d[chainName(root, i)] = f[i]; return d; }
static Files files(const string& root, int nc, const Disk& d) { Files f; for (int i = 0; i < nc; i++) { auto it = d.find(chainName(root, i)); f.push_back(it == d.end() ? "<absent>" : it->second); } return f; }
struct Journal { vector<Op> ops; long total; Files start; };
// the files left by a crash; now and then compared with those left by a process that really dies there
static Files crashed(const Cfg& c, const string& root, const Journal& j, bool append, int gens, long at, int sd) {
  Files f = files(root, c.chains, afterCrash(disk(root, j.start), j.ops, at)); mc::count("crashes");
  if (at % (mc::thorough() ? 23 : 97) == 0) { store(root, j.start); bool died = crashRun(c, root, append, gens, at, sd); Files g = load(root, c.chains); MC_CHECK(died == (at < j.total) && g == f, "harness:crash-model", "files left by a process that dies after %ld of %ld bytes differ from the recorded prefix", at, j.total); mc::count("crashes_validated_by_killing"); }
  return f;
}
static bool validLine(const string& t, const Cfg& c) { Chain k = parseChain(t + "\n", c.nvar, c.nCR, c.ox, c.oy); return k.problem.empty() && k.l.size() == 1; }
// complete lines of a chain file; -1 if one of them is not a state
static int complete(const string& text, const Cfg& c, vector<Line>& out) {
  if (text == "<absent>") return -2; size_t a = 0, e; int n = 0; out.clear(); while ((e = text.find('\n', a)) != string::npos) { string t = text.substr(a, e - a); a = e + 1; if (t.empty() || t[0] == '#') continue; if (!validLine(t, c)) return -1; Chain k = parseChain(t + "\n", c.nvar, c.nCR, c.ox, c.oy); out.push_back(k.l[0]); n++; } return n;
}
static bool same(const Line& a, const Line& b) { return a.p == b.p && a.lik == b.lik && a.burn == b.burn && a.acc == b.acc && a.pcr == b.pcr; }
// restart from the files as they are and judge everything that follows; false if it was refused
static bool restart(const Cfg& c, const string& root, int gens, int sd, const string& where, bool mustWork, int burn = -1) {
  Files before = load(root, c.chains); vector<vector<Line>> old(c.chains); int G = 1 << 30; bool bad = false; for (int i = 0; i < c.chains; i++) { int n = complete(before[i], c, old[i]); if (n < 1) bad = true; G = std::min(G, n); }
  Run r; setupRun(r, c); r.c.gens = gens; r.root = root; Ctl g(&r, 0, sd); runDream(r, &g, true, gens, burn);
  if (bad) MC_CHECK(r.status < 0, where + "not-reported", "chain files without a usable state, but dream() returned %d", r.status);
  if (r.status < 0) {
    MC_CHECK(!mustWork || bad, where + "refused", "complete states exist for every chain (%d generations), but dream() returned %d (%s)", G, r.status, r.err.c_str()); MC_CHECK(r.err.size() > 0, where + "silent", "refused without a message");
    MC_CHECK(r.calls.empty(), where + "late", "%zu likelihoods computed before refusing", r.calls.size()); Files after = load(root, c.chains); for (int i = 0; i < c.chains; i++) MC_CHECK(after[i] == before[i] , where + "damaged", "restart was refused, but chain file %d has been changed", i + 1); return false;
  }
  MC_CHECK(r.status == DREAM_EXIT_MAX_ITERATIONS || r.status == DREAM_EXIT_CONVERGENCE, where + "status", "dream() returned %d", r.status);
  vector<Chain> ch = readChains(r, where); size_t N = ch[0].l.size(); for (int i = 0; i < c.chains; i++) { MC_CHECK(ch[i].l.size() == N, where + "lengths", "after the restart chain files have %zu and %zu lines", N, ch[i].l.size()); MC_CHECK((int)N >= std::min(G, (int)N) && (int)N >= G, where + "lost", "%d complete generations before the restart, %zu lines after it", G, N); for (int t = 0; t < G; t++) MC_CHECK(same(ch[i].l[t], old[i][t]), where + "changed", "chain %d: generation %d is no longer what was written before the restart", i + 1, t); }
  if (r.status == DREAM_EXIT_MAX_ITERATIONS) MC_CHECK((int)N == std::max(gens, G), where + "length", "%zu lines after a restart up to %d generations (%d were there)", N, gens, G);
  Run* rr = &r; judgeLines(*rr, ch, G, where); judgeAcceptance(r, ch, G, where);
  // the first proposals are made from the last complete states: without noise, none of them is far from what the states allow
  for (auto& k : r.calls) if (k.recalc && k.gen == G - 1) MC_CHECK(eqv(r, k.p, ch[k.chain].l[G - 1].p), where + "continued-from", "chain %d continues from %s instead of %s", k.chain + 1, show(k.p).c_str(), show(ch[k.chain].l[G - 1].p).c_str());
  for (auto& k : r.calls) MC_CHECK(k.gen >= G - 1, where + "generation", "likelihood computed for generation %d; generation %d was complete", k.gen, G - 1);
  return true;
}
MC_PART(crash) {                      // one crash anywhere, then a restart, then one more run
  int k = mc::choose(NC); Cfg c = cfg(k); string root = mc::scratch() + "/ch"; static std::map<int, Journal> jr; if (!jr.count(k)) { removeChains(root); Journal& j = jr[k]; j.start = load(root, c.chains); j.ops = record(c, root, false, c.gens, 5, j.total); }
  long at = mc::choose((int)jr[k].total + 1); mc::shard(); Files f = crashed(c, root, jr[k], false, c.gens, at, 5); store(root, f); mc::Hash h; h(1)(k); for (auto& t : f) h(t); mc::state(h.h);
  int more = mc::thorough() ? mc::choose(3) : at % 2; bool ok = restart(c, root, c.gens + more, 6, "crash:", true); if (ok) restart(c, root, c.gens + 2, 7, "crash:again:", true);
}
MC_PART(crashes) {                    // the restart crashes as well, anywhere; then a third, complete run
  int k = mc::choose(NC); Cfg c = cfg(k); c.gens = 3; string root = mc::scratch() + "/ch"; static std::map<int, Journal> jr; static std::map<std::pair<int, int>, Journal> jr2;
  int n1 = mc::tier(8, 120), f1 = mc::choose(n1); mc::shard();
  if (!jr.count(k)) { removeChains(root); Journal& j = jr[k]; j.start = load(root, c.chains); j.ops = record(c, root, false, c.gens, 5, j.total); }
  Journal& j1 = jr[k]; auto key = std::make_pair(k, f1); if (!jr2.count(key)) { Journal& j = jr2[key]; long at1 = j1.total * (f1 + 1) / n1 - (f1 == n1 - 1 ? 0 : f1 % 2 ? 1 : 17); j.start = crashed(c, root, j1, false, c.gens, at1, 5); store(root, j.start); j.ops = record(c, root, true, c.gens + 2, 6, j.total); }
  long at = mc::choose((int)jr2[key].total + 1); Files f = crashed(c, root, jr2[key], true, c.gens + 2, at, 6); store(root, f); mc::Hash h; h(2)(k)(f1); for (auto& t : f) h(t); mc::state(h.h);
  bool ok = restart(c, root, c.gens + 2, 8, "crashes:", true); if (ok && (mc::thorough() || at % 4 == 0)) restart(c, root, c.gens + 3, 9, "crashes:again:", true);
}
static const Files& finished(int k, int gens) { static std::map<std::pair<int, int>, Files> memo; auto key = std::make_pair(k, gens); auto it = memo.find(key); if (it != memo.end()) return it->second; Cfg c = cfg(k); string root = mc::scratch() + "/ch"; removeChains(root); Run r; setupRun(r, c); r.root = root; Ctl g(&r, 0, 5); runDream(r, &g, false, gens); return memo[key] = load(root, c.chains); }
MC_PART(truncation) {                 // one file cut anywhere, the others shorter by some generations
  int k = mc::choose(NC); Cfg c = cfg(k); int gens = 4; Files f = finished(k, gens); int which = mc::choose(c.chains), cut = mc::choose((int)f[which].size() + 1), skew = mc::choose(4); mc::shard(); if (!mc::thorough() && which != 0 && which != c.chains - 1) mc::prune();
  f[which] = f[which].substr(0, cut); for (int i = 0; i < c.chains; i++) if (i != which && (skew == 3 ? i % 2 : skew)) { int drop = skew == 3 ? 2 : skew; string& t = f[i]; for (int d = 0; d < drop; d++) { t.pop_back(); t = t.substr(0, t.rfind('\n') + 1); } }
  string root = mc::scratch() + "/ch"; store(root, f); mc::state((mc::Hash()(3)(k)(which)(cut)(skew)).h); bool ok = restart(c, root, gens + 1, 6, "truncation:", true); if (ok) restart(c, root, gens + 2, 7, "truncation:again:", true);
}
MC_PART(foreign) {                    // complete lines which are not states of this model
  int k = mc::choose(NC); mc::shard(); Cfg c = cfg(k); int gens = 4; Files f = finished(k, gens); int which = mc::choose(c.chains), ln = mc::choose(gens + 1), kind = mc::choose(13); vector<string> L = lines(f[which]); int first = 0; while (L[first][0] == '#') first++; size_t at = std::min(L.size() - 1, (size_t)(first + ln)); bool mustWork = false; string& t = L[at]; string nxt = L[at]; string whole;
  bool append = ln == gens;
  switch (kind) {
    case 0: nxt = t.substr(0, t.size() / 2) + "# header of a chain file"; break;       // a torn line to which the next run appended its header
    case 1: nxt = t + " 1"; break;
    case 2: nxt = t.substr(t.find_first_of(" \t") + 1); break;
    case 3: nxt = "X0 Y0 p0"; break;
    case 4: nxt = t; nxt.replace(nxt.find('.'), 1, "q"); break;
    case 5: nxt = ""; mustWork = true; break;             // an empty line
    case 6: nxt = "# a comment"; mustWork = true; break;
    case 7: nxt = string(40, '\0'); break;
    case 8: nxt = t + " text"; break;
    case 9: nxt = t.substr(0, t.rfind(' ')); nxt = nxt.substr(0, nxt.find_last_not_of(' ') + 1); break;
    case 10: whole = "<absent>"; break;
    case 11: whole = "# header of a chain file\n"; break;
    case 12: whole = ""; break;
  }
  if (kind < 10) { if (append || kind == 5 || kind == 6) L.insert(L.begin() + at, nxt); else L[at] = nxt; f[which].clear(); for (auto& l : L) f[which] += l + "\n"; } else { if (ln) mc::prune(); f[which] = whole; }
  string root = mc::scratch() + "/ch"; store(root, f); mc::state((mc::Hash()(4)(k)(which)(ln)(kind)).h); restart(c, root, gens + 1, 6, "foreign:", mustWork);
}
MC_PART(histories) {                  // runs continued again and again, with changed settings
  int k = mc::choose(NC); Cfg c = cfg(k); string root = mc::scratch() + "/ch"; int gens = 1 + mc::choose(4); mc::shard(); store(root, finished(k, gens)); mc::Hash h; h(5)(k)(gens);
  for (int d = 0; d < mc::tier(3, 4); d++) {
    int op = mc::choose(6), add = (int[]){0, 1, 3, -1, 2, 2}[op]; int burn = op == 4 ? gens + add + 3 : op == 5 ? 0 : -1; h(op); int g2 = std::max(1, gens + add); Cfg e = c; if (burn >= 0) { e.gelman = 1; }
    restart(e, root, g2, 10 + d, "histories:", true, burn); gens = std::max(gens, g2); Files f = load(root, c.chains); vector<Line> v; int n = complete(f[0], c, v); gens = n; }
  mc::state(h.h);
}
MC_PART(chains) {                     // more or fewer chains, or parameters, than before
  int k = mc::choose(NC); mc::shard(); Cfg c = cfg(k); store(mc::scratch() + "/ch", finished(k, 4)); int what = mc::choose(5); Cfg e = c; bool work = false;
  switch (what) { case 0: e.chains++; break; case 1: e.chains--; work = e.chains >= 2; break; case 2: e.nvar++; if (e.nvar > 4) mc::prune(); break; case 3: e.nCR++; break; case 4: e.nCR--; break; }
  if (e.chains < 2) mc::prune(); remove(chainName(mc::scratch() + "/ch", c.chains).c_str()); mc::state((mc::Hash()(6)(k)(what)).h);
  string root = mc::scratch() + "/ch"; Files before = load(root, c.chains); bool ok = restart(e, root, 6, 6, "chains:", work); MC_CHECK(ok == work, "chains:accepted", "restart with other numbers of chains, parameters or crossover values %s", ok ? "went ahead" : "was refused");
  Files after = load(root, c.chains); for (int i = ok ? e.chains : 0; i < c.chains; i++) MC_CHECK(before[i] == after[i], "chains:damaged", "chain file %d has been changed", i + 1);
}
