#include "core.h"
#include <cstdarg>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <unordered_set>
#include <sys/personality.h>

// Tape layout (mmap'd so that it survives a crash of the worker).
struct TapeHdr {
  char magic[8];
  uint64_t seed;
  uint32_t len;
  uint32_t state;      // 0 idle, 1 running, 2 finished, 3 violation, 4 internal error
  uint64_t evhash;
  char kind[128];
  char msg[1024];
  char prop[16];
};
static const uint32_t kMaxTape = 1u << 20;
static TapeHdr *H;
static uint32_t *T;
static std::vector<uint32_t> g_replay;
static bool g_replaying, g_verbose, g_thorough;
static uint64_t g_rng[2], g_evhash, g_events;
static std::string g_prop;
static std::map<std::string, uint64_t> g_faults, g_probes;
static uint64_t g_simtime, g_evals, g_steps;
static std::unordered_set<uint64_t> g_states, g_runset;
static std::map<std::string, ScenarioFn> &scenarios() { static std::map<std::string, ScenarioFn> m; return m; }
static std::vector<void (*)()> &hooks() { static std::vector<void (*)()> v; return v; }
ScenarioReg::ScenarioReg(const char *id, ScenarioFn fn) { scenarios()[id] = fn; }
void at_run_start(void (*fn)()) { hooks().push_back(fn); }
const char *current_property() { return g_prop.c_str(); }
bool thorough_mode() { return g_thorough; }

uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
static uint64_t rng_next() {
  uint64_t s1 = g_rng[0], s0 = g_rng[1], r = s0 + s1;
  g_rng[0] = s0;
  s1 ^= s1 << 23;
  g_rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}
uint64_t run_seed() { return H->seed; }
uint32_t choice(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (g_replaying) v = H->len < g_replay.size() ? g_replay[H->len] % n : 0;
  else v = (uint32_t)(rng_next() >> 11) % n;
  if (H->len >= kMaxTape) sim_internal_error("choice tape full");
  T[H->len++] = v;
  return v;
}
void ev_hash(uint64_t x) { g_evhash = (g_evhash ^ x) * 0x100000001b3ull; g_evhash ^= g_evhash >> 29; g_events++; }
uint64_t ev_current_hash() { return g_evhash; }
bool ev_verbose() { return g_verbose; }
void ev_printf(const char *fmt, ...) {
  if (!g_verbose) return;
  va_list ap; va_start(ap, fmt); vfprintf(stdout, fmt, ap); va_end(ap); fputc('\n', stdout); fflush(stdout);
}
void sim_ev_ints(const char *tag, std::initializer_list<long long> v) {
  for (const char *p = tag; *p; p++) ev_hash((uint8_t)*p);
  for (long long x : v) ev_hash((uint64_t)x);
  if (g_verbose) {
    printf("%s", tag);
    for (long long x : v) printf(" %lld", x);
    printf("\n"); fflush(stdout);
  }
}
void ev_bytes(const char *tag, const uint8_t *p, size_t n) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ull;
  sim_ev_ints(tag, {(long long)n, (long long)(h & 0xffffffffull)});
}
void note_state(uint64_t h) { if (g_states.size() < 400000) g_states.insert(h); }
void st_fault(const char *k, uint64_t n) { g_faults[k] += n; }
void st_probe(const char *k, uint64_t n) { g_probes[k] += n; }
void st_simtime(uint64_t us) { g_simtime += us; }
void st_eval(uint64_t n) { g_evals += n; }
void st_step(uint64_t n) { g_steps += n; }

static void vfail(int state, int code, const char *kind, const char *fmt, va_list ap) {
  H->state = state;
  H->evhash = g_evhash;
  snprintf(H->kind, sizeof H->kind, "%s", kind);
  vsnprintf(H->msg, sizeof H->msg, fmt, ap);
  fprintf(stderr, "%s kind=%s seed=%llu: %s\n", state == 3 ? "SIMFAIL" : "SIMERROR", kind, (unsigned long long)H->seed, H->msg);
  fflush(stdout); fflush(stderr);
  _exit(code);
}
// Kinds of violation listed as known findings: the run ends there, is counted, and the search goes on.
struct KnownHit {};
static std::set<std::string> g_known;
void sim_fail(const char *kind, const char *fmt, ...) {
  if (g_known.count(kind)) { st_probe((std::string("known:") + kind).c_str()); throw KnownHit(); }
  va_list ap; va_start(ap, fmt); vfail(3, 3, kind, fmt, ap); va_end(ap); abort();
}
void sim_internal_error(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vfail(4, 4, "internal", fmt, ap); va_end(ap); abort();
}
static void on_alarm(int) {
  char m[64]; int ml = snprintf(m, sizeof m, "SIMHANG seed=%llu\n", (unsigned long long)H->seed);
  H->state = 3; H->evhash = 0;
  strcpy(H->kind, "hang"); strcpy(H->msg, "call did not return within the CPU-time budget of one run");
  (void)!write(2, m, ml);
  _exit(3);
}
static void arm_timer(int sec) {
  struct itimerval it = {}; it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}
void sim_cpu_budget(int sec) { arm_timer(sec); }
static void run_scenario(ScenarioFn fn) { try { fn(); } catch (const KnownHit &) {} }
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void begin_run(uint64_t seed) {
  H->seed = seed; H->len = 0; H->state = 1; H->evhash = 0; H->kind[0] = 0; H->msg[0] = 0;
  g_rng[0] = mix64(seed); g_rng[1] = mix64(g_rng[0] ^ 0xabcdef);
  g_evhash = 0xcbf29ce484222325ull; g_events = 0;
  for (auto f : hooks()) f();
}
static std::string jmap(const std::map<std::string, uint64_t> &m) {
  std::string s = "{"; bool first = true;
  for (auto &p : m) { if (!first) s += ","; first = false; s += "\"" + p.first + "\":" + std::to_string(p.second); }
  return s + "}";
}
extern "C" const char *__asan_default_options() {
  return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:handle_segv=1:malloc_context_size=6:"
         "detect_stack_use_after_return=0:detect_odr_violation=0:quarantine_size_mb=16:print_legend=0:symbolize=1:"
         "allow_user_segv_handler=1:max_allocation_size_mb=512";
}
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=99:print_stacktrace=1"; }
void sim_platform_init();   // seams.cpp
static FILE *real_fopen(const char *p, const char *m) {   // fopen itself is the simulated disk
  int fd = open(p, m[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | O_TRUNC, 0600);
  return fd < 0 ? nullptr : fdopen(fd, m);
}

int main(int argc, char **argv) {
  // the same address layout in every process: nothing may depend on it, and if something does it must replay
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  std::string tapefile, statsfile, replayfile, hashfile, runfile;
  uint64_t from = 1, to = 1; double maxs = 1e9; bool twice = false, list = false; int cpu = 20;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") g_prop = nx();
    else if (a == "--from") from = strtoull(nx().c_str(), 0, 10);
    else if (a == "--to") to = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-seconds") maxs = atof(nx().c_str());
    else if (a == "--tape") tapefile = nx();
    else if (a == "--stats") statsfile = nx();
    else if (a == "--states") hashfile = nx();
    else if (a == "--runset") runfile = nx();
    else if (a == "--replay") replayfile = nx();
    else if (a == "--verbose") g_verbose = true;
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--twice") twice = true;
    else if (a == "--cpu") cpu = atoi(nx().c_str());
    else if (a == "--known") g_known.insert(nx());
    else if (a == "--list") list = true;
  }
  if (list) { for (auto &p : scenarios()) printf("%s\n", p.first.c_str()); return 0; }
  auto it = scenarios().find(g_prop);
  if (it == scenarios().end()) { fprintf(stderr, "unknown property %s\n", g_prop.c_str()); return 2; }
  size_t sz = sizeof(TapeHdr) + kMaxTape * sizeof(uint32_t);
  void *m;
  if (!tapefile.empty()) {
    int fd = open(tapefile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, sz)) { perror("tape"); return 2; }
    m = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  } else m = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); return 2; }
  H = (TapeHdr *)m; T = (uint32_t *)((char *)m + sizeof(TapeHdr));
  memcpy(H->magic, "SVTAPE1", 8);
  snprintf(H->prop, sizeof H->prop, "%s", g_prop.c_str());
  signal(SIGPROF, on_alarm);
  sim_platform_init();
  if (!replayfile.empty()) {   // text: seed, then values
    FILE *f = real_fopen(replayfile.c_str(), "r");
    if (!f) { perror("replay"); return 2; }
    unsigned long long s; unsigned v;
    if (fscanf(f, "%llu", &s) != 1) return 2;
    while (fscanf(f, "%u", &v) == 1) g_replay.push_back(v);
    fclose(f);
    g_replaying = true;
    arm_timer(cpu);
    begin_run(s);
    run_scenario(it->second);
    H->state = 2; H->evhash = g_evhash;
    printf("REPLAY-OK hash=%016llx events=%llu\n", (unsigned long long)g_evhash, (unsigned long long)g_events);
    fflush(stdout);
    _exit(0);
  }
  double t0 = now_s();
  uint64_t runs = 0, evs = 0, choices = 0, maxlen = 0; uint64_t batch = 0;
  for (uint64_t s = from; s < to; s++) {
    if (now_s() - t0 > maxs) break;
    arm_timer(cpu);
    begin_run(s);
    uint64_t ev0 = g_evals;
    run_scenario(it->second);
    uint64_t h1 = g_evhash;
    if (g_evals > ev0) g_runset.insert(h1);
    runs++; evs += g_events; choices += H->len; if (H->len > maxlen) maxlen = H->len;
    batch = mix64(batch ^ h1);
    if (twice) {
      uint32_t l1 = H->len;
      begin_run(s); run_scenario(it->second);
      if (g_evhash != h1 || H->len != l1) sim_internal_error("nondeterminism: seed %llu hash %016llx vs %016llx", (unsigned long long)s, (unsigned long long)h1, (unsigned long long)g_evhash);
    }
    H->state = 2;
  }
  arm_timer(0);
  if (!statsfile.empty()) {
    FILE *f = real_fopen(statsfile.c_str(), "w");
    if (f) {
      fprintf(f, "{\"runs\":%llu,\"events\":%llu,\"choices\":%llu,\"max_tape\":%llu,\"evals\":%llu,\"steps\":%llu,\"simtime_us\":%llu,\"batch\":\"%016llx\",\"wall\":%.3f,\"faults\":%s,\"probes\":%s}\n",
        (unsigned long long)runs, (unsigned long long)evs, (unsigned long long)choices, (unsigned long long)maxlen, (unsigned long long)g_evals,
        (unsigned long long)g_steps, (unsigned long long)g_simtime, (unsigned long long)batch, now_s() - t0, jmap(g_faults).c_str(), jmap(g_probes).c_str());
      fclose(f);
    }
  }
  if (!hashfile.empty()) {
    FILE *f = real_fopen(hashfile.c_str(), "w");
    if (f) { for (uint64_t h : g_states) fwrite(&h, 8, 1, f); fclose(f); }
  }
  if (!runfile.empty()) {
    FILE *f = real_fopen(runfile.c_str(), "w");
    if (f) { for (uint64_t h : g_runset) fwrite(&h, 8, 1, f); fclose(f); }
  }
  fflush(stdout);
  _exit(0);
}
