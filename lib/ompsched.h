// A controlled OpenMP runtime: the team's threads are fibres of one OS thread, and every decision of the
// schedule is a choice of the explorer.  The code under test is compiled with -fopenmp (its calls of the
// OpenMP runtime end here) and with -fsanitize=thread *instrumentation* only: every load and store of the
// real code calls a hook below, so that conflicting accesses of two threads between two synchronisations
// are known exactly and are made the points at which the explorer may switch threads.
#ifndef OMPSCHED_H
#define OMPSCHED_H
#include "mc.h"
#include <ucontext.h>
#include <unordered_map>
#include <unordered_set>
#include <exception>
#define NOTSAN __attribute__((no_sanitize("thread")))
namespace omps {
enum Mode { OFF, RECORD, EXPLORE };
struct Fiber { ucontext_t ctx; char* stack = nullptr; int id = 0; bool done = false, after = false; int wait = 0; long loopPos = 0; std::exception_ptr ex; };
struct RT {
  volatile bool active = false;      // inside a parallel region, in code under test
  Mode mode = OFF; int nthreads = 1, preemptions = 2; bool orders = true; int maxPoints = 24;
  std::vector<Fiber*> pool; std::vector<Fiber*> team; int cur = 0, T = 1; ucontext_t main; void (*fn)(void*) = nullptr; void* data = nullptr;
  int region = 0, left = 0; long seen = 0, regions = 0, accesses = 0, switches = 0; bool critHeld = false; int critOwner = -1;
  struct Acc { uint32_t r = 0, w = 0; };
  std::unordered_map<uintptr_t, Acc> acc; std::vector<std::unordered_set<uintptr_t>> conflicts; std::vector<long> nConf;   // per region
  std::unordered_map<uintptr_t, int> dummy;
  struct Loop { long next = 0, end = 0, incr = 1, chunk = 1; bool up = true; int users = 0; } loop;
};
inline RT& R() { static RT r; return r; }
inline Fiber* cur() { RT& r = R(); return r.team[r.cur]; }
NOTSAN inline void toScheduler() { RT& r = R(); Fiber* f = cur(); r.active = false; swapcontext(&f->ctx, &r.main); r.active = true; }
struct Abort {};
inline void trampoline() { RT& r = R(); Fiber* f = cur(); r.active = true; try { r.fn(r.data); } catch (...) { f->ex = std::current_exception(); } r.active = false; f->done = true; swapcontext(&f->ctx, &r.main); }
// a conflicting access is about to happen: the explorer may switch to another thread first
inline void maybeSwitch() {
  RT& r = R(); if (r.T < 2 || r.left <= 0) return;
  long k = r.seen++, n = r.region < (int)r.nConf.size() ? r.nConf[r.region] : 0; long first = r.maxPoints / 2; if (n > r.maxPoints && k >= first) { long st = (n - first) / (r.maxPoints - first) + 1; if ((k - first) % st != (((k - first) / st) * 7) % st) return; }
  int m = 0; for (Fiber* f : r.team) if (!f->done && f->wait == 0 && f != cur()) m++;
  if (!m) return; int c = mc::choose(m + 1, "preempt"); if (!c) return; r.left--; r.switches++; cur()->wait = -c; toScheduler();
}
inline void access(void* p, size_t n, bool write, bool atomic) {
  RT& r = R(); if (r.T < 2) return; r.active = false; r.accesses++; struct Back { RT& r; ~Back() { r.active = true; } } back{r};
  uintptr_t a = (uintptr_t)p >> 3, b = ((uintptr_t)p + n - 1) >> 3;
  if (r.mode == RECORD) { for (; a <= b; a++) { auto& x = r.acc[a]; uint32_t bit = 1u << cur()->id; if (write) x.w |= bit; else x.r |= bit; if (r.region < (int)r.nConf.size()) {} } }
  else if (r.mode == EXPLORE && r.region < (int)r.conflicts.size() && !r.conflicts[r.region].empty()) { bool hit = false; for (; a <= b; a++) if (r.conflicts[r.region].count(a)) { hit = true; break; } bool aft = cur()->after; cur()->after = hit && write; if (hit || aft) maybeSwitch(); }   // before every conflicting access, and after every conflicting write
}
inline int runnable(Fiber* f) { return !f->done && f->wait <= 0; }
inline void parallel(void (*fn)(void*), void* data, unsigned nt) {
  RT& r = R(); if (r.active || r.mode == OFF) { bool a = r.active; int T = r.T, c = r.cur; r.T = 1; r.cur = 0; if (!a) { static Fiber solo; r.team.assign(1, &solo); } fn(data); r.T = T; r.cur = c; return; }   // nested or uncontrolled: a team of one
  r.T = nt ? (int)nt : r.nthreads; r.fn = fn; r.data = data; r.regions++; r.left = r.preemptions; r.seen = 0; r.acc.clear(); r.loop = RT::Loop(); r.critHeld = false;
  while ((int)r.pool.size() < r.T) { Fiber* f = new Fiber(); f->stack = (char*)mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); r.pool.push_back(f); }
  r.team.assign(r.pool.begin(), r.pool.begin() + r.T);
  for (int i = 0; i < r.T; i++) { Fiber* f = r.team[i]; f->id = i; f->done = f->after = false; f->wait = 0; f->ex = nullptr; f->loopPos = 0; memset(f->stack, 0xA5, 1 << 16); memset(f->stack + (1 << 20) - (1 << 16), 0xA5, 1 << 16); getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = 1 << 20; f->ctx.uc_link = nullptr; makecontext(&f->ctx, trampoline, 0); }
  int last = -1;
  for (;;) {
    std::vector<int> en; int undone = 0, atBar = 0; for (int i = 0; i < r.T; i++) { Fiber* f = r.team[i]; if (!f->done) { undone++; if (f->wait == 1) atBar++; } if (runnable(f) && !(f->wait == 0 && false)) en.push_back(i); }
    if (!undone) break;
    if (en.empty() && atBar == undone) { for (Fiber* f : r.team) if (f->wait == 1) f->wait = 0; if (r.mode == RECORD) { /* accesses on the two sides of a barrier are ordered; kept as conflicts (only adds switch points) */ } continue; }
    if (en.empty()) { bool freed = false; for (Fiber* f : r.team) if (f->wait == 2 && !r.critHeld) { f->wait = 0; freed = true; } if (freed) continue; mc::fail("deadlock", "all threads of a parallel region wait"); }
    int next;
    if (last >= 0 && !r.team[last]->done && r.team[last]->wait < 0) { int c = -r.team[last]->wait; r.team[last]->wait = 0; std::vector<int> o; for (int i : en) if (i != last) o.push_back(i); next = o[(size_t)(c - 1) % o.size()]; }   // chosen in maybeSwitch
    else next = (r.mode == EXPLORE && r.orders && (r.region == 0 || (r.region < (int)r.conflicts.size() && !r.conflicts[r.region].empty()))) ? en[mc::choose((int)en.size(), "order")] : en[0];
    r.cur = next; last = next; swapcontext(&r.main, &r.team[next]->ctx); r.active = false;
    if (r.team[next]->ex) { auto e = r.team[next]->ex; r.T = 1; std::rethrow_exception(e); }
  }
  if (r.mode == RECORD) { std::unordered_set<uintptr_t> c; for (auto& x : r.acc) { uint32_t w = x.second.w, a = w | x.second.r; if (w && (a & (a - 1))) c.insert(x.first); } r.conflicts.push_back(c); r.nConf.push_back(0); }
  if (r.mode == EXPLORE && r.region < (int)r.nConf.size()) r.nConf[r.region] = std::max(r.nConf[r.region], r.seen);
  r.region++; r.T = 1;
}
template <class F> void record(int T, F f) { RT& r = R(); r.mode = RECORD; r.nthreads = T; r.region = 0; r.conflicts.clear(); r.nConf.clear(); f(); r.mode = OFF;
  bool any = false; for (auto& c : r.conflicts) any |= !c.empty();
  if (any) { r.mode = EXPLORE; int p = r.preemptions; bool o = r.orders; r.preemptions = 0; r.orders = false; r.region = 0; struct Cnt { RT& r; int p; bool o; ~Cnt() { r.preemptions = p; r.orders = o; r.mode = OFF; } } c{r, p, o}; f(); } }
template <class F> void explore(int T, F f) { RT& r = R(); r.mode = EXPLORE; r.nthreads = T; r.region = 0; struct Off { RT& r; ~Off() { r.mode = OFF; r.active = false; r.T = 1; } } off{r}; f(); }
inline long nConflicts() { long n = 0; for (auto& c : R().conflicts) n += c.size(); return n; }
}
extern "C" {
// ---- OpenMP runtime
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { omps::parallel(fn, data, nt); }
NOTSAN int omp_get_thread_num() { omps::RT& r = omps::R(); return r.T > 1 ? r.team[r.cur]->id : 0; }
NOTSAN int omp_get_num_threads() { return omps::R().T; }
int omp_get_max_threads() { return omps::R().nthreads; }
int omp_get_num_procs() { return 8; }
void omp_set_num_threads(int) {}
int omp_in_parallel() { return omps::R().T > 1; }
NOTSAN static void ompWait(int w) { omps::RT& r = omps::R(); if (r.T < 2) return; r.team[r.cur]->wait = w; omps::toScheduler(); }
NOTSAN void GOMP_barrier() { ompWait(1); }
NOTSAN static void critIn() { omps::RT& r = omps::R(); while (r.T > 1 && r.critHeld && r.critOwner != r.cur) ompWait(2); r.critHeld = true; r.critOwner = r.cur; }
NOTSAN static void critOut() { omps::RT& r = omps::R(); r.critHeld = false; for (auto* f : r.team) if (f->wait == 2) f->wait = 0; }
NOTSAN void GOMP_critical_start() { critIn(); }
NOTSAN void GOMP_critical_end() { critOut(); }
NOTSAN void GOMP_critical_name_start(void**) { critIn(); }
NOTSAN void GOMP_critical_name_end(void**) { critOut(); }
NOTSAN void GOMP_atomic_start() { critIn(); }
NOTSAN void GOMP_atomic_end() { critOut(); }
NOTSAN bool GOMP_single_start() { omps::RT& r = omps::R(); return r.T < 2 || r.loop.users++ == 0; }
// dynamic / guided / runtime schedules (one loop per region): chunks are handed out in the order in which the threads ask
NOTSAN static bool dynNext(long* a, long* b) { auto& l = omps::R().loop; if (l.up ? l.next >= l.end : l.next <= l.end) return false; *a = l.next; long e = l.next + l.chunk * l.incr; if (l.up ? e > l.end : e < l.end) e = l.end; *b = e; l.next = e; return true; }
NOTSAN static bool dynYield(long* a, long* b) { omps::RT& r = omps::R(); if (r.T > 1 && r.mode == omps::EXPLORE && r.active) { r.active = false; omps::maybeSwitch(); r.active = true; } return dynNext(a, b); }
NOTSAN static bool dynStart(long s, long e, long i, long c, long* a, long* b) { auto& l = omps::R().loop; if (l.users++ == 0 || omps::R().T < 2) { l.next = s; l.end = e; l.incr = i; l.chunk = c > 0 ? c : 1; l.up = i > 0; } return dynYield(a, b); }
#define DYN(kind) NOTSAN bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) { return dynStart(s, e, i, c, a, b); } NOTSAN bool GOMP_loop_##kind##_next(long* a, long* b) { return dynYield(a, b); }
DYN(dynamic) DYN(guided) DYN(nonmonotonic_dynamic) DYN(nonmonotonic_guided)
NOTSAN bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return dynStart(s, e, i, 1, a, b); } NOTSAN bool GOMP_loop_runtime_next(long* a, long* b) { return dynYield(a, b); }
NOTSAN bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return dynStart(s, e, i, 1, a, b); } NOTSAN bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return dynYield(a, b); }
NOTSAN void GOMP_loop_end_nowait() {}
NOTSAN void GOMP_loop_end() { ompWait(1); }
#define PLOOP(kind) void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { omps::RT& r = omps::R(); struct W { void (*fn)(void*); void* d; long s, e, i, c; } w{fn, d, s, e, i, c}; omps::parallel([](void* p) { W* w = (W*)p; auto& l = omps::R().loop; if (l.users == 0) { l.users = 1; l.next = w->s; l.end = w->e; l.incr = w->i; l.chunk = w->c > 0 ? w->c : 1; l.up = w->i > 0; } w->fn(w->d); }, &w, nt); (void)r; }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
// ---- instrumentation
void __tsan_init() {}
NOTSAN void __tsan_func_entry(void*) {}
NOTSAN void __tsan_func_exit() {}
NOTSAN void __tsan_vptr_update(void**, void*) {}
#define ACC(n) NOTSAN void __tsan_read##n(void* p) { if (omps::R().active) omps::access(p, n, false, false); } NOTSAN void __tsan_write##n(void* p) { if (omps::R().active) omps::access(p, n, true, false); } \
  NOTSAN void __tsan_unaligned_read##n(void* p) { if (omps::R().active) omps::access(p, n, false, false); } NOTSAN void __tsan_unaligned_write##n(void* p) { if (omps::R().active) omps::access(p, n, true, false); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
NOTSAN void __tsan_vptr_read(void** p) { if (omps::R().active) omps::access(p, 8, false, false); }
NOTSAN void __tsan_read_range(void* p, size_t n) { if (omps::R().active && n) omps::access(p, n, false, false); }
NOTSAN void __tsan_write_range(void* p, size_t n) { if (omps::R().active && n) omps::access(p, n, true, false); }
#define AT(bits, ty) NOTSAN ty __tsan_atomic##bits##_load(const volatile ty* p, int) { if (omps::R().active) omps::access((void*)p, bits / 8, false, true); return *p; } NOTSAN void __tsan_atomic##bits##_store(volatile ty* p, ty v, int) { if (omps::R().active) omps::access((void*)p, bits / 8, true, true); *p = v; } \
  NOTSAN ty __tsan_atomic##bits##_exchange(volatile ty* p, ty v, int) { if (omps::R().active) omps::access((void*)p, bits / 8, true, true); ty o = *p; *p = v; return o; } \
  NOTSAN ty __tsan_atomic##bits##_fetch_add(volatile ty* p, ty v, int) { if (omps::R().active) omps::access((void*)p, bits / 8, true, true); ty o = *p; *p = o + v; return o; } NOTSAN ty __tsan_atomic##bits##_fetch_sub(volatile ty* p, ty v, int) { if (omps::R().active) omps::access((void*)p, bits / 8, true, true); ty o = *p; *p = o - v; return o; } \
  NOTSAN ty __tsan_atomic##bits##_fetch_or(volatile ty* p, ty v, int) { if (omps::R().active) omps::access((void*)p, bits / 8, true, true); ty o = *p; *p = o | v; return o; } NOTSAN ty __tsan_atomic##bits##_fetch_and(volatile ty* p, ty v, int) { if (omps::R().active) omps::access((void*)p, bits / 8, true, true); ty o = *p; *p = o & v; return o; } \
  NOTSAN int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* p, ty* c, ty v, int, int) { if (omps::R().active) omps::access((void*)p, bits / 8, true, true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } NOTSAN int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* p, ty* c, ty v, int a, int b) { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, a, b); } \
  NOTSAN ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* p, ty c, ty v, int, int) { if (omps::R().active) omps::access((void*)p, bits / 8, true, true); ty o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
NOTSAN void __tsan_atomic_thread_fence(int) {}
}
#endif
