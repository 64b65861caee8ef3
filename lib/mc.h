// Stateless model-checking core: exhaustive depth-first enumeration of the choice tree of
// a harness body that runs the real code.  Every nondeterministic choice of the environment
// (an input element, the next operation, a fault, a schedule step) is one call of
// mc::choose(); the explorer re-executes the body until every path has been taken.
#ifndef MC_H
#define MC_H
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <functional>
#include <exception>
#include <csetjmp>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <time.h>

namespace mc {

struct Prune {};                       // this combination is outside the space
struct OtherShard {};
struct Violation { std::string key, msg; };
inline jmp_buf*& exitJump() { static jmp_buf* p = nullptr; return p; }   // where exit() goes when called below a frame no exception can pass
inline int& exitStatus() { static int s; return s; }
struct ExitCalled { int status; };     // the code under test called exit()

struct Shared { volatile int n; volatile int part; volatile long execs; int c[4096]; char phase[256]; };

struct State {
  std::vector<int> pre, tr, sz;
  bool verbose = false, sharded = false, replaying = false;
  std::string note;
  Shared* sh = nullptr;
  int shard = 0, nshards = 1;
  bool thorough = false;
  long seed = 1;
  std::string dir, scratch;
  std::unordered_set<uint64_t> states;
  std::map<std::string, double> counters;
  int hangSecs = 60;
};
inline State& S() { static State s; return s; }

inline bool thorough() { return S().thorough; }
inline int tier(int quick, int deep) { return S().thorough ? deep : quick; }
inline const std::string& scratch() { return S().scratch; }
inline bool verbose() { return S().verbose; }

inline int choose(int n, const char* what = "") {
  State& s = S();
  if (n <= 0) throw Prune();
  size_t d = s.tr.size();
  int c = 0;
  if (d < s.pre.size()) c = s.pre[d];
  if (c >= n) throw Violation{"nondeterminism", std::string("replayed choice no longer available at ") + what};
  s.tr.push_back(c); s.sz.push_back(n);
  if (s.sh) { if (d < 4096) s.sh->c[d] = c; s.sh->n = (int)(d + 1); }
  return c;
}
template <class T> inline const T& pick(const std::vector<T>& v, const char* w = "") { return v[choose((int)v.size(), w)]; }
inline bool flip(const char* w = "") { return choose(2, w) == 1; }
inline void prune() { throw Prune(); }

// call once, after the first choices: the paths are dealt out to the shards by their prefix
inline void shard() {
  State& s = S();
  if (s.sharded) return;
  s.sharded = true;
  if (s.nshards <= 1 || s.replaying) return;
  uint64_t h = 1469598103934665603ull;
  for (int c : s.tr) { h ^= (uint64_t)(c + 1); h *= 1099511628211ull; h ^= h >> 29; }
  h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32;
  if ((int)(h % (uint64_t)s.nshards) != s.shard) throw OtherShard();
}

inline void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char* fmt, ...) {
  if (!S().verbose) return;
  char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (!S().note.empty()) S().note += "; ";
  S().note += b;
}
inline void phase(const char* p) { if (S().sh) { strncpy(S().sh->phase, p, 255); } }

inline void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void fail(const std::string& key, const char* fmt, ...) {
  char b[8192]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  throw Violation{key, b};
}
#define MC_CHECK(cond, key, ...) do { if (!(cond)) mc::fail(key, __VA_ARGS__); } while (0)

struct Hash {
  uint64_t h = 0xcbf29ce484222325ull;
  Hash& raw(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } h ^= h >> 31; return *this; }
  Hash& operator()(double v) { if (v == 0) v = 0; return raw(&v, sizeof v); }
  Hash& operator()(int v) { return raw(&v, sizeof v); }
  Hash& operator()(long v) { return raw(&v, sizeof v); }
  Hash& operator()(uint64_t v) { return raw(&v, sizeof v); }
  Hash& operator()(const std::string& v) { raw(v.data(), v.size()); return (*this)((int)v.size()); }
  Hash& operator()(const std::vector<double>& v) { for (double x : v) (*this)(x); return *this; }
  Hash& operator()(const std::vector<int>& v) { for (int x : v) (*this)(x); return (*this)((int)v.size()); }
};
inline void state(uint64_t h) { S().states.insert(h); }
inline void count(const char* name, double n = 1) { S().counters[name] += n; }

inline bool close(double a, double b, double rtol = 1e-9, double atol = 1e-12) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::fabs(a - b) <= atol + rtol * std::fmax(std::fabs(a), std::fabs(b));
}

struct Part { std::string name; std::function<void()> body; };
inline std::vector<Part>& parts() { static std::vector<Part> p; return p; }
struct Reg { Reg(const char* n, std::function<void()> b) { parts().push_back({n, b}); } };
#define MC_PART(id) static void mcpart_##id(); static mc::Reg mcreg_##id(#id, mcpart_##id); static void mcpart_##id()

inline void arm(int secs) {
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs; setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
inline void onHang(int) { if (S().sh) strcpy((char*)S().sh->phase, "HANG"); _exit(97); }

inline std::string jesc(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}

// runs one execution of a part along the prefix; returns 0 ok, 1 pruned, 2 other shard, 3 violation
inline int runOnce(Part& p, Violation& v) {
  State& s = S(); s.tr.clear(); s.sz.clear(); s.note.clear(); s.sharded = false;
  if (s.sh) { s.sh->n = 0; s.sh->phase[0] = 0; }
  try { p.body(); if (s.tr.size() < s.pre.size()) throw Violation{"nondeterminism", "execution ended before its prefix"}; }
  catch (Prune&) { return 1; }
  catch (OtherShard&) { return 2; }
  catch (Violation& e) { v = e; return 3; }
  catch (ExitCalled& e) { v = Violation{"exit", "the code under test called exit(" + std::to_string(e.status) + ")"}; return 3; }
  catch (std::exception& e) { v = Violation{"exception", std::string("uncaught exception: ") + e.what()}; return 3; }
  return 0;
}

inline int mainLoop(int argc, char** argv) {
  State& s = S();
  auto env = [](const char* n, const char* d) { const char* e = getenv(n); return std::string(e ? e : d); };
  s.dir = env("MC_DIR", "."); s.scratch = env("MC_SCRATCH", "/tmp");
  s.shard = atoi(env("MC_SHARD", "0").c_str()); s.nshards = atoi(env("MC_NSHARDS", "1").c_str());
  s.thorough = env("MC_TIER", "quick") == "thorough"; s.seed = atol(env("MC_SEED", "1").c_str());
  std::string only = env("MC_PART", ""), replay = env("MC_REPLAY", "");
  long maxViol = atol(env("MC_MAXVIOL", "40").c_str());
  int rep = dup(1);
  { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (env("MC_STDERR", "") == "") dup2(dn, 2); }
  std::string curf = s.dir + "/cur." + std::to_string(s.shard);
  int fd = open(curf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0)
    s.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  signal(SIGVTALRM, onHang);
  FILE* out = fdopen(rep, "w");
  std::string known = "\n" + env("MC_KNOWN", "") + "\n", stopf = s.dir + "/stop"; time_t t0v = 0, tchk = time(nullptr); bool stopped = false;   // 15 s after the first violation, all shards end
  std::string viol, samples, perPart; std::map<std::string, long> keyCount; long nv = 0, nsam = 0;
  for (size_t pi = 0; pi < parts().size() && !stopped; pi++) {
    Part& p = parts()[pi];
    if (!only.empty() && p.name != only) continue;
    if (s.sh) s.sh->part = (int)pi;
    if (!replay.empty()) {
      s.pre.clear(); s.replaying = true; s.verbose = true;
      if (replay != "-") { const char* q = replay.c_str(); while (*q) { s.pre.push_back((int)strtol(q, (char**)&q, 10)); if (*q == ',') q++; } }
      Violation v; arm(s.hangSecs); int r = runOnce(p, v);
      fprintf(out, "{\"replay\":%d,\"key\":\"%s\",\"msg\":\"%s\",\"note\":\"%s\"}\n", r, jesc(v.key).c_str(), jesc(v.msg).c_str(), jesc(s.note).c_str());
      fclose(out); _exit(r == 3 ? 1 : 0);
    }
    s.pre.clear(); long ex = 0, pr = 0, ch = 0; size_t maxd = 0; long psam = 0;
    for (;;) {
      s.verbose = (psam < 2);
      Violation v; arm(s.hangSecs);
      int r = runOnce(p, v);
      if (s.sh) s.sh->execs++;
      std::vector<int> tr = s.tr, sz = s.sz;
      if (tr.size() > maxd) maxd = tr.size();
      if (r == 0 || r == 3) { ex++; ch += tr.size(); } else if (r == 1) pr++;
      if (r == 0 && s.verbose && nsam < 400) {
        samples += (nsam ? "," : "") + std::string("\"") + jesc(p.name + ": " + s.note.substr(0, 400)) + "\""; nsam++; psam++; }
      if (r == 3) {
        long& k = keyCount[v.key];
        if (k++ < 3 && nv < 200) {
          std::string cs; for (size_t i = 0; i < tr.size(); i++) cs += (i ? "," : "") + std::to_string(tr[i]);
          s.pre = tr; s.verbose = true; Violation v2; arm(s.hangSecs); int r2 = runOnce(p, v2);
          viol += (nv ? "," : "") + std::string("{\"part\":\"") + p.name + "\",\"choices\":\"" + cs + "\",\"key\":\"" + jesc(v.key) +
                  "\",\"msg\":\"" + jesc(v.msg) + "\",\"repro\":" + (r2 == 3 ? "true" : "false") + ",\"note\":\"" + jesc(s.note) + "\"}";
          nv++;
        }
        if ((long)keyCount.size() > maxViol) break;
      }
      if (r == 3 && !t0v && known.find("\n" + v.key + "\n") == std::string::npos) { t0v = time(nullptr); int f = ::open(stopf.c_str(), O_CREAT | O_WRONLY, 0600); if (f >= 0) ::close(f); }
      if (replay.empty()) { time_t now = time(nullptr); if (now != tchk) { tchk = now; if (!t0v && ::access(stopf.c_str(), F_OK) == 0) t0v = now; if (t0v && now - t0v >= 15) { stopped = true; break; } } }
      // next path
      size_t d = tr.size();
      while (d > 0 && tr[d - 1] + 1 >= sz[d - 1]) d--;
      if (d == 0) break;
      tr.resize(d); tr[d - 1]++; s.pre = tr;
    }
    char b[512];
    snprintf(b, sizeof b, "%s\"%s\":{\"executions\":%ld,\"pruned\":%ld,\"choices\":%ld,\"maxdepth\":%zu}", perPart.empty() ? "" : ",", p.name.c_str(), ex, pr, ch, maxd);
    perPart += b;
  }
  arm(0);
  if (!s.states.empty()) {
    std::string sf = s.dir + "/states." + std::to_string(s.shard); FILE* f = fopen(sf.c_str(), "wb");
    for (uint64_t h : s.states) fwrite(&h, 8, 1, f);
    fclose(f);
  }
  std::string kc, cn;
  for (auto& k : keyCount) kc += (kc.empty() ? "\"" : ",\"") + jesc(k.first) + "\":" + std::to_string(k.second);
  for (auto& k : s.counters) { char b[400]; snprintf(b, sizeof b, "%s\"%s\":%.0f", cn.empty() ? "" : ",", k.first.c_str(), k.second); cn += b; }
  fprintf(out, "{\"done\":true,\"parts\":{%s},\"violations\":[%s],\"keys\":{%s},\"counters\":{%s},\"samples\":[%s]}\n",
          perPart.c_str(), viol.c_str(), kc.c_str(), cn.c_str(), samples.c_str());
  fclose(out);
  _exit(0);
}
}  // namespace mc

#ifdef MC_DEFINE_MAIN
// exit() inside the code under test becomes an exception the harness can judge (-Wl,--wrap=exit)
extern "C" void __wrap_exit(int st) { if (mc::exitJump()) { jmp_buf* j = mc::exitJump(); mc::exitJump() = nullptr; mc::exitStatus() = st; longjmp(*j, 1); } throw mc::ExitCalled{st}; }
#ifdef MC_WRAP_CORES   // do not read /proc/cpuinfo for every convolver
extern "C" int __wrap__Z20GetPhysicalCoreCountv() { return 1; }
#endif
#ifndef MC_NO_STOPFLAG
volatile sig_atomic_t stopSignal_flag = 0;
#endif
int main(int argc, char** argv) { return mc::mainLoop(argc, argv); }
#endif
#endif
