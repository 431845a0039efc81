#include "simsched.h"
#include "seams.h"
#include <glib.h>
#include <pthread.h>
#include <semaphore.h>
#include <algorithm>
#include <memory>
#include <unordered_map>
#include <time.h>
#include <errno.h>
#include <openssl/crypto.h>

SchedCfg g_sched;
typedef std::vector<uint32_t> VC;
static uint32_t vget(const VC &v, int i) { return i < (int)v.size() ? v[i] : 0; }
static void vjoin(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
enum St { READY, MUTEX, COND, SLEEP, JOIN, DONE };
struct Th {
  int id; std::string name; sem_t sem; pthread_t pt; std::function<void()> fn; void *ret = nullptr;
  St st = READY; const void *on = nullptr; uint64_t wake = 0; bool timed = false, signalled = false; VC vc; uint32_t prio = 0;
  uintptr_t lo = 0, hi = 0; bool joined = false, real = false;
};
struct Mx { int owner = -1; VC vc; int depth = 0; };
struct Cv { std::vector<int> waiters; };
static std::vector<std::unique_ptr<Th>> T;
static std::unordered_map<const void *, Mx> M;
static std::unordered_map<const void *, Cv> C;
static thread_local Th *cur;
static bool active, inrt;
static uint64_t now_us, switches, trace, points; static long countdown; static int prio_changes; static uint32_t low_prio;
extern "C" int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
extern "C" int __real_pthread_join(pthread_t, void **);
uint64_t sim_now() { return now_us; }
int sim_self() { return cur ? cur->id : -1; }
uint64_t sched_switches() { return switches; }
uint64_t sched_trace_hash() { return trace; }
static void new_countdown() {
  if (g_sched.mode != 2) { countdown = -1; return; }
  uint32_t k = choice(10); countdown = k == 0 ? 100000000 : 1 + (long)choice(1u << std::min<uint32_t>(k + 2, 12));
}
static bool ready(const Th &t) { return t.st == READY || ((t.st == SLEEP || ((t.st == COND) && t.timed)) && t.wake <= now_us); }
static std::string dump() {
  static const char *n[] = {"ready", "mutex", "cond", "sleep", "join", "done"}; std::string s;
  for (auto &t : T) if (t->st != DONE) s += t->name + ":" + n[t->st] + " ";
  return s;
}
// Chooses the thread that goes on. |block|: the current one cannot.
static Th *pick_next(bool block) {
  for (;;) {
    std::vector<Th *> c;
    if (!block && ready(*cur)) c.push_back(cur);
    for (auto &t : T) if (t.get() != cur && ready(*t)) c.push_back(t.get());
    if (block && ready(*cur) && cur->st != READY) c.push_back(cur);
    uint64_t next = ~0ull; for (auto &t : T) if ((t->st == SLEEP || (t->st == COND && t->timed)) && t->wake > now_us) next = std::min(next, t->wake);
    if (c.empty()) {
      if (next == ~0ull) sim_fail("deadlock", "no thread can go on: %s", dump().c_str());
      now_us = next; continue;
    }
    if (next != ~0ull && g_sched.slow_threads && chance(1, 24)) { now_us = next; st_fault("time_passes"); continue; }   // the running threads are slow: a timer comes first
    if (c.size() == 1) return c[0];
    switch (g_sched.mode) {
      case 0: return c[chance(1, 8) ? choice((uint32_t)c.size()) : 0];
      case 3: {
        if (prio_changes > 0 && chance(1, 12)) { prio_changes--; c[0]->prio = low_prio--; }
        Th *b = c[0]; for (auto *t : c) if (t->prio > b->prio) b = t; return b;
      }
      default: return c[choice((uint32_t)c.size())];
    }
  }
}
static void switch_to(Th *n) {
  Th *me = cur; n->st = READY;
  if (n == me) return;
  switches++; trace = mix64(trace ^ (uint64_t)n->id ^ ((uint64_t)me->id << 8)); ev_hash(0x5c00 + n->id);
  if (ev_verbose()) ev_printf("  [%llu us] %s -> %s", (unsigned long long)now_us, me->name.c_str(), n->name.c_str());
  if (me->st == DONE) { cur = nullptr; sem_post(&n->sem); return; }   // what is left of this thread runs beside the next one: it takes no part any more
  sem_post(&n->sem);
  while (sem_wait(&me->sem) && errno == EINTR) {}
}
static void point() { if (!active || !cur) return; now_us++; st_step(); if (++points > 400000) sim_fail("no_progress", "no end after %llu steps: %s", (unsigned long long)points, dump().c_str()); switch_to(pick_next(false)); }
static void block(St st, const void *on) { cur->st = st; cur->on = on; switch_to(pick_next(true)); cur->on = nullptr; }
void sim_yield() { point(); }
void sim_sleep(uint64_t us) { if (!active) { now_us += us; return; } cur->wake = now_us + us; cur->timed = false; block(SLEEP, nullptr); }

static void thread_bounds(Th *t) {
  pthread_attr_t a; if (pthread_getattr_np(pthread_self(), &a)) return;
  void *p; size_t n; pthread_attr_getstack(&a, &p, &n); t->lo = (uintptr_t)p; t->hi = t->lo + n; pthread_attr_destroy(&a);
}
static void *entry(void *p) {
  Th *t = (Th *)p; cur = t;
  while (sem_wait(&t->sem) && errno == EINTR) {}
  thread_bounds(t);
  t->fn();
  OPENSSL_thread_stop();   // per-thread state of the crypto library is released here and not while another thread runs
  t->st = DONE;
  for (auto &o : T) if (o->st == JOIN && o->on == t) o->st = READY;
  ev_printf("  thread %s ends", t->name.c_str());
  switch_to(pick_next(true));
  return nullptr;
}
int sim_spawn(const char *name, std::function<void()> fn) {
  auto t = std::make_unique<Th>(); Th *p = t.get();
  p->id = (int)T.size(); p->name = std::string(name) + "#" + std::to_string(p->id); p->fn = fn; sem_init(&p->sem, 0, 0);
  p->vc = cur->vc; if ((int)p->vc.size() <= p->id) p->vc.resize(p->id + 1); p->vc[p->id] = 1; cur->vc[cur->id]++;
  p->prio = 1000 + choice(1000);
  T.push_back(std::move(t));
  if (__real_pthread_create(&p->pt, nullptr, entry, p)) sim_internal_error("pthread_create");
  p->real = true;
  point();
  return p->id;
}
void sim_join(int tid) {
  Th *t = T[tid].get();
  while (t->st != DONE) block(JOIN, t);
  vjoin(cur->vc, t->vc);
  if (!t->joined) { t->joined = true; __real_pthread_join(t->pt, nullptr); }
}
// ---- races ----
struct Acc { int tid; uint32_t clk; uint8_t mask; bool w; void *pc; };
static std::unordered_map<uintptr_t, std::vector<Acc>> shadow;
extern "C" void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t n) __attribute__((weak));
static std::string sym(void *pc) { char b[256] = "?"; if (__sanitizer_symbolize_pc) __sanitizer_symbolize_pc(pc, "%f:%l", b, sizeof b); return b; }
static void race_granule(uintptr_t g, uint8_t mask, bool w, void *pc) {
  auto &v = shadow[g]; int me = cur->id;
  for (auto &a : v) if (a.tid != me && (a.mask & mask) && (a.w || w) && a.clk > vget(cur->vc, a.tid))
    sim_fail("race", "unordered accesses to the same memory: %s in %s and %s in %s", a.w ? "write" : "read", sym(a.pc).c_str(), w ? "write" : "read", sym(pc).c_str());
  size_t k = 0;
  for (auto &a : v) { bool gone = (a.mask & ~mask) == 0 && ((a.tid == me && (w || !a.w)) || w); if (!gone) v[k++] = a; }
  v.resize(k);
  v.push_back(Acc{me, cur->vc[me], mask, w, pc});
}
static void range_access(uintptr_t a, size_t n, bool w, void *pc) {
  while (n) { size_t o = a & 7, k = std::min<size_t>(8 - o, n); race_granule(a >> 3, (uint8_t)(((1u << k) - 1) << o), w, pc); a += k; n -= k; }
}
static void access(uintptr_t a, size_t n, bool w, void *pc) {
  if (!active || !cur || inrt || T.size() < 2) return;
  if (a >= cur->lo && a < cur->hi) return;
  if (countdown > 0 && --countdown == 0) { new_countdown(); st_fault("preempted_between_accesses"); point(); }
  if (!g_sched.races) return;
  inrt = true; range_access(a, n, w, pc); inrt = false; st_eval();
}
extern "C" {
#define COV(n, s) void __sanitizer_cov_load##n(void *p) { access((uintptr_t)p, s, false, __builtin_return_address(0)); } \
                  void __sanitizer_cov_store##n(void *p) { access((uintptr_t)p, s, true, __builtin_return_address(0)); }
COV(1, 1) COV(2, 2) COV(4, 4) COV(8, 8) COV(16, 16)
void *__asan_memcpy(void *, const void *, size_t); void *__asan_memset(void *, int, size_t); void *__asan_memmove(void *, const void *, size_t);
void *sim_traced_memcpy(void *d, const void *s, size_t n) { if (n) { access((uintptr_t)s, n, false, __builtin_return_address(0)); access((uintptr_t)d, n, true, __builtin_return_address(0)); } return __asan_memcpy(d, s, n); }
void *sim_traced_memmove(void *d, const void *s, size_t n) { if (n) { access((uintptr_t)s, n, false, __builtin_return_address(0)); access((uintptr_t)d, n, true, __builtin_return_address(0)); } return __asan_memmove(d, s, n); }
void *sim_traced_memset(void *d, int c, size_t n) { if (n) access((uintptr_t)d, n, true, __builtin_return_address(0)); return __asan_memset(d, c, n); }
}
static void on_free(void *p, size_t n, void *pc) {
  if (!active || !cur || !p || !n) return;
  if (g_sched.races && !inrt && T.size() > 1) { inrt = true; range_access((uintptr_t)p, n, true, pc); inrt = false; }
  inrt = true; for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3; g++) shadow.erase(g); inrt = false;
}
// Memory of the simulator itself is reused by other threads as well.
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
static void any_free(const volatile void *p) {
  if (!active || !g_sched.races || inrt || !cur || !p || shadow.empty()) return;
  inrt = true; size_t n = __sanitizer_get_allocated_size(p);
  if (n) for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3; g++) shadow.erase(g);
  inrt = false;
}
// ---- mutexes and conditions ----
static void mx_lock(const void *m) {
  if (!active || !cur) return;
  point();
  while (M[m].owner >= 0) { if (M[m].owner == cur->id) sim_fail("deadlock", "a thread locks a mutex it already holds"); block(MUTEX, m); }
  M[m].owner = cur->id; vjoin(cur->vc, M[m].vc);
}
static void mx_release(const void *m) {
  Mx &x = M[m];
  if (x.owner != cur->id) sim_fail("bad_unlock", "a mutex is unlocked by a thread that does not hold it");
  x.vc = cur->vc; cur->vc[cur->id]++; x.owner = -1;
  for (auto &t : T) if (t->st == MUTEX && t->on == m) t->st = READY;
}
static void mx_unlock(const void *m) { if (!active || !cur) return; mx_release(m); point(); }
static bool mx_try(const void *m) { if (!active || !cur) return true; point(); if (M[m].owner >= 0) return false; M[m].owner = cur->id; vjoin(cur->vc, M[m].vc); return true; }
static bool cv_wait(const void *c, const void *m, bool timed, uint64_t until) {
  if (!active || !cur) return true;
  mx_release(m);
  C[c].waiters.push_back(cur->id); cur->signalled = false; cur->timed = timed; cur->wake = until;
  bool spurious = g_sched.spurious_den && chance(1, g_sched.spurious_den);
  if (spurious) { st_fault("spurious_wakeup"); cur->timed = true; cur->wake = now_us + 1 + choice(50); if (timed) cur->wake = std::min(cur->wake, until); }
  block(COND, c);
  auto &w = C[c].waiters; w.erase(std::remove(w.begin(), w.end(), cur->id), w.end());
  bool sig = cur->signalled; cur->signalled = cur->timed = false;
  if (!sig && timed && now_us >= until) st_fault("wait_timed_out");
  while (M[m].owner >= 0) block(MUTEX, m);
  M[m].owner = cur->id; vjoin(cur->vc, M[m].vc);
  return sig || !timed || now_us < until;
}
static void cv_signal(const void *c, bool all) {
  if (!active || !cur) return;
  auto &w = C[c].waiters;
  while (!w.empty()) {
    size_t i = all ? 0 : choice((uint32_t)w.size()); Th *t = T[w[i]].get(); w.erase(w.begin() + i);
    if (t->st == COND && t->on == c) { t->signalled = true; t->st = READY; t->timed = false; if (!all) break; }
  }
  point();
}
static void destroyed(const void *m, const char *what) { if (!active || !cur) return; auto it = M.find(m); if (it != M.end()) { if (it->second.owner >= 0) sim_fail("mutex_destroyed", "%s on a mutex that is held", what); for (auto &t : T) if (t->st == MUTEX && t->on == m) sim_fail("mutex_destroyed", "%s on a mutex a thread waits for", what); M.erase(it); } }
extern "C" {
void __wrap_g_mutex_init(GMutex *m) { destroyed(m, "init"); memset(m, 0, sizeof *m); }
void __wrap_g_mutex_clear(GMutex *m) { destroyed(m, "clear"); }
void __wrap_g_mutex_lock(GMutex *m) { mx_lock(m); }
void __wrap_g_mutex_unlock(GMutex *m) { mx_unlock(m); }
gboolean __wrap_g_mutex_trylock(GMutex *m) { return mx_try(m); }
void __wrap_g_rec_mutex_init(GRecMutex *m) { destroyed(m, "init"); memset(m, 0, sizeof *m); }
void __wrap_g_rec_mutex_clear(GRecMutex *m) { destroyed(m, "clear"); }
void __wrap_g_rec_mutex_lock(GRecMutex *m) { if (active && cur && M[m].owner == cur->id) { M[m].depth++; return; } mx_lock(m); }
void __wrap_g_rec_mutex_unlock(GRecMutex *m) { if (active && cur && M[m].depth > 0) { M[m].depth--; return; } mx_unlock(m); }
gboolean __wrap_g_rec_mutex_trylock(GRecMutex *m) { if (active && cur && M[m].owner == cur->id) { M[m].depth++; return TRUE; } return mx_try(m); }
void __wrap_g_cond_init(GCond *c) { C.erase(c); memset(c, 0, sizeof *c); }
void __wrap_g_cond_clear(GCond *c) { if (active && C.count(c) && !C[c].waiters.empty()) sim_fail("cond_destroyed", "a condition is cleared while a thread waits on it"); C.erase(c); }
void __wrap_g_cond_wait(GCond *c, GMutex *m) { cv_wait(c, m, false, 0); }
gboolean __wrap_g_cond_wait_until(GCond *c, GMutex *m, gint64 until) { return cv_wait(c, m, true, (uint64_t)std::max<gint64>(until, 0)); }
void __wrap_g_cond_signal(GCond *c) { cv_signal(c, false); }
void __wrap_g_cond_broadcast(GCond *c) { cv_signal(c, true); }
GThread *__wrap_g_thread_try_new(const gchar *name, GThreadFunc f, gpointer d, GError **) {
  if (g_sched.thread_fail_den && chance(1, g_sched.thread_fail_den)) { st_fault("thread_creation_failed"); ev_printf("fault: thread %s cannot be created", name ? name : ""); return nullptr; }
  if (!active) sim_internal_error("thread created outside a scheduled run");
  Th *t = T[sim_spawn(name ? name : "thread", [f, d] { cur->ret = f(d); })].get();
  return (GThread *)t;
}
GThread *__wrap_g_thread_new(const gchar *n, GThreadFunc f, gpointer d) { int k = g_sched.thread_fail_den; g_sched.thread_fail_den = 0; GThread *t = __wrap_g_thread_try_new(n, f, d, nullptr); g_sched.thread_fail_den = k; return t; }
gpointer __wrap_g_thread_join(GThread *g) { Th *t = (Th *)g; if (t->joined) sim_fail("join_twice", "a thread is joined twice"); sim_join(t->id); return t->ret; }
GThread *__wrap_g_thread_ref(GThread *g) { return g; }
void __wrap_g_thread_unref(GThread *) {}
GThread *__wrap_g_thread_self(void) { return (GThread *)cur; }
void __wrap_g_thread_exit(gpointer) { sim_internal_error("g_thread_exit"); }
void __wrap_g_thread_yield(void) { point(); }
gint64 __wrap_g_get_monotonic_time(void) { return (gint64)now_us; }
gint64 __wrap_g_get_real_time(void) { return (gint64)now_us + 1700000000000000ll; }
void __wrap_g_usleep(gulong us) { sim_sleep(us); }
int __wrap_usleep(useconds_t us) { sim_sleep(us); return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *) { sim_sleep((uint64_t)t->tv_sec * 1000000 + t->tv_nsec / 1000); return 0; }
unsigned __wrap_sleep(unsigned s) { sim_sleep((uint64_t)s * 1000000); return 0; }
int __wrap_sched_yield(void) { point(); return 0; }
int __wrap_pthread_create(pthread_t *p, const pthread_attr_t *, void *(*f)(void *), void *d) {
  if (g_sched.thread_fail_den && chance(1, g_sched.thread_fail_den)) { st_fault("thread_creation_failed"); return EAGAIN; }
  int id = sim_spawn("pthread", [f, d] { cur->ret = f(d); }); *p = (pthread_t)(uintptr_t)(id + 1); return 0;
}
int __wrap_pthread_join(pthread_t p, void **r) { Th *t = T[(size_t)(uintptr_t)p - 1].get(); sim_join(t->id); if (r) *r = t->ret; return 0; }
int __wrap_pthread_detach(pthread_t) { return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { destroyed(m, "init"); memset(m, 0, sizeof *m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { destroyed(m, "destroy"); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { mx_lock(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return mx_try(m) ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { mx_unlock(m); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { C.erase(c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { C.erase(c); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { cv_wait(c, m, false, 0); return 0; }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cv_wait(c, m, true, (uint64_t)t->tv_sec * 1000000 + t->tv_nsec / 1000) ? 0 : ETIMEDOUT; }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { cv_signal(c, false); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { cv_signal(c, true); return 0; }
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!active) return __real_clock_gettime(c, t); t->tv_sec = now_us / 1000000; t->tv_nsec = now_us % 1000000 * 1000; return 0; }
time_t __wrap_time(time_t *p) { time_t t = (time_t)(now_us / 1000000) + 1700000000; if (p) *p = t; return t; }
}
void sched_begin() {
  static bool hooked; if (!hooked) { hooked = true; __sanitizer_install_malloc_and_free_hooks([](const volatile void *, size_t) {}, any_free); }
  T.clear(); M.clear(); C.clear(); shadow.clear(); now_us = 1000000; points = 0; switches = 0; trace = 0; prio_changes = (int)choice(6); low_prio = 900;
  auto t = std::make_unique<Th>(); t->id = 0; t->name = "main"; sem_init(&t->sem, 0, 0); t->vc = {1}; t->prio = 1000 + choice(1000); thread_bounds(t.get());
  cur = t.get(); T.push_back(std::move(t)); active = true; inrt = false;
  g_free_hook = on_free;
  new_countdown();
}
void sched_end() {
  for (auto &t : T) if (t->id && t->st != DONE) sim_fail("thread_left", "a thread is still running after everything was closed: %s", dump().c_str());
  for (auto &t : T) if (t->id && !t->joined) sim_fail("thread_left", "a thread was never joined: %s", t->name.c_str());
  active = false; st_simtime(now_us - 1000000); note_state(trace);
  g_free_hook = nullptr;
  cur = nullptr; for (auto &t : T) sem_destroy(&t->sem);
  T.clear(); M.clear(); C.clear(); shadow.clear(); g_sched = SchedCfg();
}
void random_sched(bool races) {
  g_sched = SchedCfg(); g_sched.mode = (int)choice(4); g_sched.races = races; g_sched.slow_threads = coin();
  if (chance(1, 3)) g_sched.spurious_den = 4 + (int)choice(12);
}
