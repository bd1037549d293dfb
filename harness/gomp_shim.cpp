// A replacement for the OpenMP runtime, used in the builds that compile the repository with
// OpenMP on.  It gives the harness control of the team (size, numbering, order in which threads
// run between barriers, delays) and, being instrumented itself, shows ThreadSanitizer exactly the
// ordering OpenMP guarantees and no more: work distribution uses relaxed atomics, only barriers,
// region begin/end, critical sections and locks order memory.
#include "team.h"
#if defined(VH_MODE_tsan) || defined(VH_MODE_omp)
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include <time.h>
#include <vector>
#include <cstdlib>
#include <cstdint>

namespace {
enum { MAXT = 32, BLK = 128, NBLK = 512 };
int cfg_threads = 1, cfg_mode = 0; uint64_t cfg_seed = 1; bool cfg_force1 = false;
std::atomic<long> st_regions(0), st_threads(0), st_barriers(0), st_chunks(0), st_singles(0);
std::atomic<uint64_t> region_no(0);
uint64_t mixh(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

struct Slot { std::atomic<int> init{0}; std::atomic<int> single{0}; std::atomic<long> next{0}; long end = 0, incr = 1, chunk = 1; void *copy = nullptr; };
struct Team {
  int n; uint64_t seed; int mode;
  std::mutex m; std::condition_variable cv; int waiting = 0; long gen = 0;
  std::atomic<int> turn{0}; std::atomic<long> seg{0};
  std::atomic<Slot *> blk[NBLK];
  Team(int n_, uint64_t s, int md) : n(n_), seed(s), mode(md) { for (auto &b : blk) b.store(nullptr, std::memory_order_relaxed); }
  ~Team() { for (auto &b : blk) delete[] b.load(std::memory_order_relaxed); }
  Slot &slot(long k) {
    if (k >= (long)BLK * NBLK) abort();
    std::atomic<Slot *> &b = blk[k / BLK]; Slot *p = b.load(std::memory_order_acquire);
    if (!p) { Slot *q = new Slot[BLK]; if (b.compare_exchange_strong(p, q, std::memory_order_acq_rel)) p = q; else delete[] q; }
    return p[k % BLK];
  }
  // rank of thread t in segment s when the segments are run one thread after another
  int rank(long s, int t) const {
    int o[MAXT]; for (int k = 0; k < n; ++k) o[k] = k;
    uint64_t h = mixh(seed + 0x9E3779B97F4A7C15ull * (uint64_t)(s + 1));
    if (h % 3 == 0) { for (int k = 0; k < n; ++k) o[k] = n - 1 - k; }
    else for (int k = n - 1; k > 0; --k) { h = mixh(h + k); std::swap(o[k], o[h % (k + 1)]); }
    return o[t];
  }
};
struct Tls { Team *team = nullptr; int tid = 0; long ws = 0; long seg = 0; Slot *cur = nullptr; uint64_t rng = 1; int level = 0; };
thread_local Tls tl;

void seg_begin() {
  Team *t = tl.team; if (!t || t->n == 1) return;
  if (t->mode == 2) { int r = t->rank(tl.seg, tl.tid); while (t->turn.load(std::memory_order_relaxed) < r) sched_yield(); }
  else if (t->mode == 1) { tl.rng = mixh(tl.rng + 77 + tl.tid); switch (tl.rng % 6) { case 0: sched_yield(); break; case 1: { timespec ts{0, (long)(tl.rng >> 20) % 60000}; nanosleep(&ts, nullptr); break; } default: break; } }
}
void seg_end() { Team *t = tl.team; if (t && t->n > 1 && t->mode == 2) t->turn.fetch_add(1, std::memory_order_relaxed); }
void jitter() { Team *t = tl.team; if (!t || t->n == 1 || t->mode != 1) return; tl.rng = mixh(tl.rng + 5); if (tl.rng % 5 == 0) sched_yield(); else if (tl.rng % 37 == 0) { timespec ts{0, (long)(tl.rng >> 20) % 40000}; nanosleep(&ts, nullptr); } }
void team_barrier() {
  Team *t = tl.team; if (!t || t->n == 1) return;
  seg_end(); ++tl.seg;
  { std::unique_lock<std::mutex> l(t->m); st_barriers.fetch_add(1, std::memory_order_relaxed);
    if (++t->waiting == t->n) { t->waiting = 0; ++t->gen; t->turn.store(0, std::memory_order_relaxed); t->cv.notify_all(); }
    else { long g = t->gen; while (t->gen == g) t->cv.wait(l); } }
  seg_begin();
}
void run_member(Team *t, int tid, void (*fn)(void *), void *data) {
  Tls saved = tl; tl = Tls(); tl.team = t; tl.tid = tid; tl.level = saved.level + 1; tl.rng = mixh(t->seed * 31 + tid + 1);
  seg_begin(); fn(data); seg_end();
  tl = saved;
}
struct Worker { std::mutex m; std::condition_variable cv; std::thread th; Team *t = nullptr; int tid = 0; void (*fn)(void *) = nullptr; void *data = nullptr; bool work = false; };
std::vector<Worker *> pool;
struct Done { std::mutex m; std::condition_variable cv; int left = 0; } done;
void worker_main(Worker *w) {
  for (;;) {
    Team *t; int tid; void (*fn)(void *); void *data;
    { std::unique_lock<std::mutex> l(w->m); while (!w->work) w->cv.wait(l); w->work = false; t = w->t; tid = w->tid; fn = w->fn; data = w->data; }
    run_member(t, tid, fn, data);
    { std::lock_guard<std::mutex> l(done.m); if (--done.left == 0) done.cv.notify_all(); }
  }
}
void parallel(void (*fn)(void *), void *data, unsigned nt, Slot *preset) {
  int n = nt ? (int)nt : cfg_threads; if (cfg_force1 || tl.level > 0) n = 1; if (n > MAXT) n = MAXT; if (n < 1) n = 1;
  uint64_t rn = region_no.fetch_add(1); Team t(n, mixh(cfg_seed + rn * 0x9E37ull), cfg_mode);
  st_regions.fetch_add(1, std::memory_order_relaxed); st_threads.fetch_add(n, std::memory_order_relaxed);
  if (preset) { Slot &s = t.slot(0); s.init.store(2); s.next.store(preset->next.load()); s.end = preset->end; s.incr = preset->incr; s.chunk = preset->chunk; }
  if (n > 1) {
    while ((int)pool.size() < n - 1) { Worker *w = new Worker; w->th = std::thread(worker_main, w); w->th.detach(); pool.push_back(w); }
    { std::lock_guard<std::mutex> l(done.m); done.left = n - 1; }
    std::vector<int> pm(n - 1); for (int k = 0; k < n - 1; ++k) pm[k] = k; uint64_t h = t.seed; for (int k = n - 2; k > 0; --k) { h = mixh(h + k); std::swap(pm[k], pm[h % (k + 1)]); }
    for (int k = 0; k < n - 1; ++k) { Worker *w = pool[pm[k]]; std::lock_guard<std::mutex> l(w->m); w->t = &t; w->tid = k + 1; w->fn = fn; w->data = data; w->work = true; w->cv.notify_one(); }
  }
  run_member(&t, 0, fn, data);
  if (n > 1) { std::unique_lock<std::mutex> l(done.m); while (done.left) done.cv.wait(l); }
}
bool loop_next(long *is, long *ie) {
  Slot *s = tl.cur; if (!s) return false; jitter();
  if (s->incr > 0) { long b = s->next.fetch_add(s->chunk * s->incr, std::memory_order_relaxed); if (b >= s->end) return false; *is = b; *ie = std::min(b + s->chunk * s->incr, s->end); }
  else { long b = s->next.fetch_add(s->chunk * s->incr, std::memory_order_relaxed); if (b <= s->end) return false; *is = b; *ie = std::max(b + s->chunk * s->incr, s->end); }
  st_chunks.fetch_add(1, std::memory_order_relaxed); return true;
}
Slot solo;
void loop_init(long b, long e, long inc, long chunk) {
  if (chunk < 1) chunk = 1;
  if (!tl.team) { static thread_local Slot own; own.next.store(b, std::memory_order_relaxed); own.end = e; own.incr = inc; own.chunk = chunk; tl.cur = &own; return; }
  Slot &s = tl.team->slot(tl.ws++); int z = 0;
  if (s.init.compare_exchange_strong(z, 1, std::memory_order_relaxed)) { s.next.store(b, std::memory_order_relaxed); s.end = e; s.incr = inc; s.chunk = chunk; s.init.store(2, std::memory_order_release); }
  else while (s.init.load(std::memory_order_acquire) != 2) sched_yield();
  tl.cur = &s;
}
std::mutex crit, named, atom;
}  // namespace

void vh_team(int threads, int mode, uint64_t seed) { cfg_threads = threads < 1 ? 1 : threads; cfg_force1 = threads == 1; cfg_mode = mode; cfg_seed = seed; region_no = 0; }
bool vh_has_team() { return true; }
TeamStats vh_team_stats() { TeamStats s; s.regions = st_regions.exchange(0); s.threads = st_threads.exchange(0); s.barriers = st_barriers.exchange(0); s.chunks = st_chunks.exchange(0); s.singles = st_singles.exchange(0); return s; }

extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { parallel(fn, data, nt, nullptr); }
void GOMP_barrier(void) { team_barrier(); }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_single_start(void) { if (!tl.team) return true; st_singles.fetch_add(1, std::memory_order_relaxed); int z = 0; return tl.team->slot(tl.ws++).single.compare_exchange_strong(z, 1, std::memory_order_relaxed); }
void *GOMP_single_copy_start(void) { if (!tl.team) return nullptr; Slot &s = tl.team->slot(tl.ws++); int z = 0; tl.cur = &s; if (s.single.compare_exchange_strong(z, 1, std::memory_order_relaxed)) return nullptr; team_barrier(); return s.copy; }
void GOMP_single_copy_end(void *p) { if (tl.cur) tl.cur->copy = p; team_barrier(); }
void GOMP_critical_start(void) { jitter(); crit.lock(); }
void GOMP_critical_end(void) { crit.unlock(); }
void GOMP_critical_name_start(void **) { jitter(); named.lock(); }
void GOMP_critical_name_end(void **) { named.unlock(); }
void GOMP_atomic_start(void) { atom.lock(); }
void GOMP_atomic_end(void) { atom.unlock(); }
#define LOOP(NAME) \
  bool GOMP_loop_##NAME##_start(long b, long e, long i, long c, long *is, long *ie) { loop_init(b, e, i, c); return loop_next(is, ie); } \
  bool GOMP_loop_##NAME##_next(long *is, long *ie) { return loop_next(is, ie); } \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long b, long e, long i, long c, unsigned) { Slot s; s.next.store(b); s.end = e; s.incr = i; s.chunk = c < 1 ? 1 : c; struct Pk { void (*f)(void *); void *d; } pk{fn, d}; parallel([](void *q) { Pk *k = (Pk *)q; if (tl.team) { tl.cur = &tl.team->slot(tl.ws++); } k->f(k->d); }, &pk, nt, &s); }
LOOP(dynamic) LOOP(nonmonotonic_dynamic) LOOP(guided) LOOP(nonmonotonic_guided) LOOP(static)
#define LOOPR(NAME) \
  bool GOMP_loop_##NAME##_start(long b, long e, long i, long *is, long *ie) { loop_init(b, e, i, 1); return loop_next(is, ie); } \
  bool GOMP_loop_##NAME##_next(long *is, long *ie) { return loop_next(is, ie); } \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long b, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, nt, b, e, i, 1, f); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { team_barrier(); }
void GOMP_loop_end_nowait(void) {}
unsigned GOMP_sections_start(unsigned n) { loop_init(1, (long)n + 1, 1, 1); long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void) { long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { team_barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
  if (cpy) { std::vector<char> buf(sz + al); char *p = (char *)(((uintptr_t)buf.data() + al - 1) & ~(uintptr_t)(al - 1)); cpy(p, data); fn(p); } else fn(data); }
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
int omp_get_max_threads(void) { return cfg_force1 || tl.level > 0 ? 1 : cfg_threads; }
int omp_get_num_threads(void) { return tl.team ? tl.team->n : 1; }
int omp_get_thread_num(void) { return tl.tid; }
int omp_get_num_procs(void) { return 8; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_in_parallel(void) { return tl.team && tl.team->n > 1; }
int omp_get_level(void) { return tl.level; }
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_num_threads(int n) { if (!cfg_force1 && n > 0) cfg_threads = n; }
double omp_get_wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct vh_lock { std::mutex m; };
void omp_init_lock(void **l) { *l = new vh_lock; }
void omp_destroy_lock(void **l) { delete (vh_lock *)*l; }
void omp_set_lock(void **l) { ((vh_lock *)*l)->m.lock(); }
void omp_unset_lock(void **l) { ((vh_lock *)*l)->m.unlock(); }
int omp_test_lock(void **l) { return ((vh_lock *)*l)->m.try_lock(); }
}
#else
void vh_team(int, int, uint64_t) {}
bool vh_has_team() { return false; }
TeamStats vh_team_stats() { return TeamStats(); }
#endif
