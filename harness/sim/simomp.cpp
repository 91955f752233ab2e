// A deterministic OpenMP runtime for the "sim" build of the driver.
// The sources of the library are compiled with -fopenmp -fsanitize=thread and linked against this file instead of libgomp and
// libtsan.  The threads of a parallel region are coroutines; every instrumented memory access is a point where the (seeded)
// scheduler may switch.  Between two barriers the accesses of all threads to every byte are collected; at the barrier the sets
// are reduced to signatures: for each byte touched by several threads, the sorted list of what each of them did with it.
#include "simomp.h"
#include <malloc.h>
#include <ucontext.h>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <vector>
extern "C" void __real_free(void *);
extern "C" void *__real_memcpy(void *, const void *, size_t);
extern "C" void *__real_memmove(void *, const void *, size_t);
extern "C" void *__real_memset(void *, int, size_t);
namespace {
const int MAXT = 16; const size_t STACK = 512 * 1024;
enum { PR = 1, PW = 2, AR = 4, AU = 8 };   // plain read, plain write, atomic read, atomic update
struct Cell { uintptr_t key; uint64_t r, w, ar, au; void *pc; };  // one per four bytes; four bits per thread
struct Table { // open addressing
  std::vector<Cell> c; size_t used = 0;
  Table() : c(1 << 14) {}
  Cell &at(uintptr_t k) {
    if (used * 2 > c.size()) { std::vector<Cell> o(c.size() * 2); o.swap(c); used = 0; for (auto &x : o) if (x.key) { Cell &y = at(x.key); y = x; } }
    size_t m = c.size() - 1, h = (k * 0x9E3779B97F4A7C15ull >> 20) & m;
    while (c[h].key && c[h].key != k) h = (h + 1) & m;
    if (!c[h].key) { c[h].key = k; used++; }
    return c[h];
  }
  void clear() { if (used) { if (c.size() > (1 << 16)) c.assign(1 << 14, Cell()); else memset((void *)c.data(), 0, c.size() * sizeof(Cell)); } used = 0; }
};
struct Loop { long cur, end, incr, chunk; };
struct Team { int n, arrived = 0; unsigned singles = 0; std::vector<Loop> loops; };
struct Thread { ucontext_t ctx; char *stack = 0; void (*fn)(void *); void *arg; bool done, waiting; unsigned singles, loops; bool locked; };
Thread T[MAXT]; ucontext_t home; Team *team = 0; int cur = -1, nt = 3; bool inhook = false; int nested = 0;
Table tab; std::set<std::vector<int>> sigs; std::vector<void *> dead; long phases, regions, switches; uint64_t seed = 1; int every = 0;
int single_lock = -1; bool debug = false;
uint64_t rnd() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed * 0x2545F4914F6CDD1Dull; }
void flush() {  // the end of a phase: what did the threads do with each byte
  phases++; inhook = true;   // templates used here may be the instrumented copies
  for (auto &x : tab.c) if (x.key) {
    uint64_t any = x.r | x.w | x.ar | x.au;
    for (int b = 0; b < 4; b++) {
      std::vector<int> s;
      for (int t = 0; t < MAXT; t++) { int k = 4 * t + b, m = (x.r >> k & 1 ? PR : 0) | (x.w >> k & 1 ? PW : 0) | (x.ar >> k & 1 ? AR : 0) | (x.au >> k & 1 ? AU : 0); if (m) s.push_back(m); }
      if (s.size() < 2) continue;
      std::sort(s.begin(), s.end());
      std::vector<int> q;  // more than two threads doing the same look like two
      for (int m : s) if (q.size() < 2 || q[q.size() - 2] != m) q.push_back(m);
      if (debug) { int w = 0, tot = q.size(); for (int m : q) if (m & (PW | AU)) w++; if (w && tot > 1) { fprintf(stderr, "SHARED %lx pc %p:", (unsigned long)(x.key * 4 + b), x.pc); for (int m : q) fprintf(stderr, " %d", m); fprintf(stderr, "\n"); } }
      sigs.insert(q);
    }
    (void)any;
  }
  tab.clear(); inhook = false;
}
void pick(bool mustleave) {  // run another thread that can run
  int c[MAXT], k = 0;
  for (int t = 0; t < team->n; t++) if (!T[t].done && !T[t].waiting && !(mustleave && t == cur)) c[k++] = t;
  if (!k) { fprintf(stderr, "sim: deadlock\n"); abort(); }
  int t = c[rnd() % k]; if (t == cur) return;
  int o = cur; cur = t; switches++;
  swapcontext(&T[o].ctx, &T[t].ctx);
}
void leave() {  // a thread has finished
  T[cur].done = true; bool all = true; for (int t = 0; t < team->n; t++) all = all && T[t].done;
  if (all) { setcontext(&home); }
  int c[MAXT], k = 0; for (int t = 0; t < team->n; t++) if (!T[t].done && !T[t].waiting) c[k++] = t;
  if (!k) { fprintf(stderr, "sim: deadlock\n"); abort(); }
  cur = c[rnd() % k]; switches++; setcontext(&T[cur].ctx);
}
void tramp() { T[cur].fn(T[cur].arg); leave(); }
inline void touch(const void *p, size_t n, int mode, void *pc) {
  if (!team || nested || inhook) return;
  inhook = true;
  if (T[cur].locked) mode = mode == PR || mode == AR ? AR : AU;
  uintptr_t a = (uintptr_t)p, e = a + n;
  while (a < e) {
    uintptr_t k = a >> 2; uint64_t m = 0; while (a < e && a >> 2 == k) { m |= 1ull << (a & 3); a++; }
    Cell &x = tab.at(k); m <<= 4 * cur; if (mode == PR) x.r |= m; else if (mode == PW) x.w |= m; else if (mode == AR) x.ar |= m; else x.au |= m;
    if (mode != PR || !x.pc) x.pc = pc;
  }
  inhook = false;
  if (every && !T[cur].locked && rnd() % every == 0) { if (switches > 1000000 && every < 4000) every = 4000; pick(false); }
}
void barrier() {
  if (!team || nested) return;
  if (++team->arrived == team->n) { flush(); team->arrived = 0; for (int t = 0; t < team->n; t++) T[t].waiting = false; if (rnd() % 2) pick(false); return; }
  T[cur].waiting = true; pick(true);
}
}
void sim_start(unsigned long s, int threads) { sigs.clear(); phases = regions = switches = 0; seed = s * 2654435761ull + 88172645463325252ull; nt = std::max(1, std::min(threads, MAXT)); debug = getenv("SIMDEBUG") != 0; for (int k = 0; k < 8; k++) rnd(); }
std::vector<std::vector<int>> sim_signatures() { return std::vector<std::vector<int>>(sigs.begin(), sigs.end()); }
long sim_regions() { return regions; }
long sim_phases() { return phases; }
long sim_switches() { return switches; }
extern "C" {
int omp_get_num_threads() { return team && !nested ? team->n : 1; }
int omp_get_max_threads() { return nt; }
int omp_get_thread_num() { return team && !nested ? cur : 0; }
int omp_in_parallel() { return team != 0; }
int omp_get_num_procs() { return nt; }
void omp_set_num_threads(int k) { nt = std::max(1, std::min(k, MAXT)); }
void omp_set_nested(int) {}
void omp_set_dynamic(int) {}
double omp_get_wtime() { return 0; }
void GOMP_parallel(void (*fn)(void *), void *arg, unsigned k, unsigned) {
  if (team) { nested++; fn(arg); nested--; return; }
  if (!k) k = nt;
  regions++; Team tm; tm.n = (int)std::min<unsigned>(k, MAXT); 
  static const int E[] = {0, 0, 2, 5, 40}; every = E[rnd() % 5];
  for (int t = 0; t < tm.n; t++) {
    Thread &x = T[t]; if (!x.stack) x.stack = (char *)malloc(STACK);
    x.fn = fn; x.arg = arg; x.done = x.waiting = x.locked = false; x.singles = x.loops = 0;
    getcontext(&x.ctx); x.ctx.uc_stack.ss_sp = x.stack; x.ctx.uc_stack.ss_size = STACK; x.ctx.uc_link = 0; makecontext(&x.ctx, tramp, 0);
  }
  tab.clear(); team = &tm; cur = (int)(rnd() % tm.n);
  swapcontext(&home, &T[cur].ctx);
  flush(); team = 0; cur = -1;
  for (void *p : dead) __real_free(p); dead.clear();
}
void GOMP_barrier() { barrier(); }
bool GOMP_single_start() { if (!team || nested) return true; Thread &x = T[cur]; if (x.singles++ == team->singles) { team->singles++; return true; } return false; }
static bool nextchunk(Loop &l, long *a, long *b) {
  if (l.incr > 0 ? l.cur >= l.end : l.cur <= l.end) return false;
  long s = l.chunk * l.incr; *a = l.cur; *b = l.incr > 0 ? std::min(l.cur + s, l.end) : std::max(l.cur + s, l.end); l.cur = *b; return true;
}
static Loop solo;
bool GOMP_loop_dynamic_next(long *a, long *b) { if (!team || nested) return nextchunk(solo, a, b); return nextchunk(team->loops[T[cur].loops - 1], a, b); }
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *a, long *b) {
  Loop l = {s, e, i, c}; if (!team || nested) { solo = l; return nextchunk(solo, a, b); }
  inhook = true; if (T[cur].loops++ == team->loops.size()) team->loops.push_back(l); inhook = false;
  return GOMP_loop_dynamic_next(a, b);
}
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, c, a, b); }
bool GOMP_loop_guided_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
static bool nextull(unsigned long long *a, unsigned long long *b) { long x, y; if (!GOMP_loop_dynamic_next(&x, &y)) return false; *a = x; *b = y; return true; }
bool GOMP_loop_ull_dynamic_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) {
  (void)up; long x, y; if (!GOMP_loop_dynamic_start((long)s, (long)e, (long)i, (long)c, &x, &y)) return false; *a = x; *b = y; return true; }
bool GOMP_loop_ull_dynamic_next(unsigned long long *a, unsigned long long *b) { return nextull(a, b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { return GOMP_loop_ull_dynamic_start(up, s, e, i, c, a, b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_next(unsigned long long *a, unsigned long long *b) { return nextull(a, b); }
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *arg, unsigned k, long s, long e, long i, long c, unsigned f) {
  // the body calls only "next": give every thread the loop in advance
  struct W { void (*fn)(void *); void *arg; Loop l; static void run(void *p) { W *w = (W *)p; if (team && !nested) { inhook = true; if (T[cur].loops++ == team->loops.size()) team->loops.push_back(w->l); inhook = false; } else solo = w->l; w->fn(w->arg); } };
  W w = {fn, arg, {s, e, i, c}}; GOMP_parallel(W::run, &w, k, f);
}
void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *arg, unsigned k, long s, long e, long i, long c, unsigned f) { GOMP_parallel_loop_nonmonotonic_dynamic(fn, arg, k, s, e, i, c, f); }
void GOMP_parallel_loop_guided(void (*fn)(void *), void *arg, unsigned k, long s, long e, long i, long c, unsigned f) { GOMP_parallel_loop_nonmonotonic_dynamic(fn, arg, k, s, e, i, c, f); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void *), void *arg, unsigned k, long s, long e, long i, long c, unsigned f) { GOMP_parallel_loop_nonmonotonic_dynamic(fn, arg, k, s, e, i, c, f); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *arg, unsigned k, long s, long e, long i, unsigned f) { GOMP_parallel_loop_nonmonotonic_dynamic(fn, arg, k, s, e, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *arg, unsigned k, long s, long e, long i, unsigned f) { GOMP_parallel_loop_nonmonotonic_dynamic(fn, arg, k, s, e, i, 1, f); }
// mutual exclusion: the holder is never switched away from, its accesses count as atomic ones
static void lock() { if (team && !nested) T[cur].locked = true; }
static void unlock() { if (team && !nested) { T[cur].locked = false; if (every && rnd() % 2) pick(false); } }
void GOMP_critical_start() { lock(); }
void GOMP_critical_end() { unlock(); }
void GOMP_critical_name_start(void **) { lock(); }
void GOMP_critical_name_end(void **) { unlock(); }
void GOMP_atomic_start() { lock(); }
void GOMP_atomic_end() { unlock(); }
// the rest of the interface, so that other uses of OpenMP still build and run
bool GOMP_loop_static_start(long s, long e, long i, long c, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, c > 0 ? c : 1, a, b); }
bool GOMP_loop_static_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_ull_guided_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { return GOMP_loop_ull_dynamic_start(up, s, e, i, c, a, b); }
bool GOMP_loop_ull_guided_next(unsigned long long *a, unsigned long long *b) { return nextull(a, b); }
bool GOMP_loop_ull_nonmonotonic_guided_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { return GOMP_loop_ull_dynamic_start(up, s, e, i, c, a, b); }
bool GOMP_loop_ull_nonmonotonic_guided_next(unsigned long long *a, unsigned long long *b) { return nextull(a, b); }
bool GOMP_loop_ull_runtime_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *a, unsigned long long *b) { return GOMP_loop_ull_dynamic_start(up, s, e, i, 1, a, b); }
bool GOMP_loop_ull_runtime_next(unsigned long long *a, unsigned long long *b) { return nextull(a, b); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *a, unsigned long long *b) { return GOMP_loop_ull_dynamic_start(up, s, e, i, 1, a, b); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(unsigned long long *a, unsigned long long *b) { return nextull(a, b); }
// an ordered loop: one thread takes all iterations
bool GOMP_loop_ordered_static_start(long s, long e, long i, long, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1L << 40, a, b); }
bool GOMP_loop_ordered_static_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_ordered_dynamic_start(long s, long e, long i, long, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1L << 40, a, b); }
bool GOMP_loop_ordered_dynamic_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_ordered_guided_start(long s, long e, long i, long, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1L << 40, a, b); }
bool GOMP_loop_ordered_guided_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
unsigned GOMP_sections_next() { long a, b; return GOMP_loop_dynamic_next(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned k) { long a, b; return GOMP_loop_dynamic_start(1, (long)k + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *arg, unsigned k, unsigned c, unsigned f) { GOMP_parallel_loop_nonmonotonic_dynamic(fn, arg, k, 1, (long)c + 1, 1, 1, f); }
static void *copied; 
void *GOMP_single_copy_start() { if (GOMP_single_start()) return 0; barrier(); return copied; }
void GOMP_single_copy_end(void *p) { copied = p; barrier(); }
// a task runs at once, on the thread that creates it
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
  if (!cpy) { if (size > 0) { std::vector<char> b(size + align); char *p = b.data() + (align > 0 ? (align - (uintptr_t)b.data() % align) % align : 0); __real_memcpy(p, data, size); fn(p); } else fn(data); return; }
  std::vector<char> b(size + align); char *p = b.data() + (align > 0 ? (align - (uintptr_t)b.data() % align) % align : 0); cpy(p, data); fn(p);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel() { barrier(); return false; }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *) { lock(); }
void omp_unset_lock(void *) { unlock(); }
int omp_test_lock(void *) { lock(); return 1; }
void omp_init_nest_lock(void *) {}
void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void *) { lock(); }
void omp_unset_nest_lock(void *) { unlock(); }
double omp_get_wtick() { return 1e-9; }
int omp_get_level() { return team != 0; }
int omp_get_active_level() { return team != 0; }
int omp_get_team_size(int) { return team && !nested ? team->n : 1; }
int omp_get_ancestor_thread_num(int) { return 0; }
int omp_get_thread_limit() { return MAXT; }
int omp_get_nested() { return 0; }
int omp_get_dynamic() { return 0; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
void omp_set_schedule(int, int) {}
void omp_get_schedule(int *k, int *c) { *k = 2; *c = 1; }
int omp_in_final() { return 0; }
int omp_get_cancellation() { return 0; }
// ---- instrumentation ----
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { touch(p, 8, PW, PC); }
void __tsan_vptr_read(void **p) { touch(p, 8, PR, PC); }
#define RW(N) void __tsan_read##N(void *p) { touch(p, N, PR, PC); } void __tsan_write##N(void *p) { touch(p, N, PW, PC); } \
  void __tsan_unaligned_read##N(void *p) { touch(p, N, PR, PC); } void __tsan_unaligned_write##N(void *p) { touch(p, N, PW, PC); } \
  void __tsan_volatile_read##N(void *p) { touch(p, N, PR, PC); } void __tsan_volatile_write##N(void *p) { touch(p, N, PW, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { touch(p, n, PR, PC); }
void __tsan_write_range(void *p, unsigned long n) { touch(p, n, PW, PC); }
#define AT(B, TY) \
  TY __tsan_atomic##B##_load(const volatile TY *p, int) { touch((const void *)p, sizeof(TY), sizeof(TY) == 8 ? AU : AR, PC); return *p; } \
  void __tsan_atomic##B##_store(volatile TY *p, TY v, int) { touch((const void *)p, sizeof(TY), AU, PC); *p = v; } \
  TY __tsan_atomic##B##_exchange(volatile TY *p, TY v, int) { touch((const void *)p, sizeof(TY), AU, PC); TY o = *p; *p = v; return o; } \
  TY __tsan_atomic##B##_fetch_add(volatile TY *p, TY v, int) { touch((const void *)p, sizeof(TY), AU, PC); TY o = *p; *p = o + v; return o; } \
  TY __tsan_atomic##B##_fetch_sub(volatile TY *p, TY v, int) { touch((const void *)p, sizeof(TY), AU, PC); TY o = *p; *p = o - v; return o; } \
  TY __tsan_atomic##B##_fetch_and(volatile TY *p, TY v, int) { touch((const void *)p, sizeof(TY), AU, PC); TY o = *p; *p = o & v; return o; } \
  TY __tsan_atomic##B##_fetch_or(volatile TY *p, TY v, int) { touch((const void *)p, sizeof(TY), AU, PC); TY o = *p; *p = o | v; return o; } \
  TY __tsan_atomic##B##_fetch_xor(volatile TY *p, TY v, int) { touch((const void *)p, sizeof(TY), AU, PC); TY o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int, int) { touch((const void *)p, sizeof(TY), AU, PC); TY o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int a, int b) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, a, b); } \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p, TY e, TY v, int, int) { touch((const void *)p, sizeof(TY), AU, PC); TY o = *p; if (o == e) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// ---- library calls that touch memory; memory is not reused while a region runs ----
void *__wrap_memcpy(void *d, const void *s, size_t n) { touch(s, n, PR, PC); touch(d, n, PW, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { touch(s, n, PR, PC); touch(d, n, PW, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { touch(d, n, PW, PC); return __real_memset(d, c, n); }
void *__wrap___memset_chk(void *d, int c, size_t n, size_t) { touch(d, n, PW, PC); return __real_memset(d, c, n); }
void __wrap_free(void *p) { if (team) { bool h = inhook; inhook = true; if (p) dead.push_back(p); inhook = h; } else __real_free(p); }
}
static void drop(void *p) { if (team && !inhook) { if (p) { inhook = true; dead.push_back(p); inhook = false; } } else __real_free(p); }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { drop(p); }
void operator delete[](void *p) noexcept { drop(p); }
void operator delete(void *p, size_t) noexcept { drop(p); }
void operator delete[](void *p, size_t) noexcept { drop(p); }
