// Core of the deterministic simulator: choice tape, event log, violations, statistics, worker loop.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

// ---- choices: the only source of nondeterminism. 0 is always the most benign alternative. ----
uint32_t choice(uint32_t n);                       // 0..n-1
static inline uint32_t range(uint32_t lo, uint32_t hi) { return hi <= lo ? lo : lo + choice(hi - lo + 1); }
static inline bool chance(uint32_t num, uint32_t den) { return choice(den) >= den - num; }  // 0 => false
static inline bool coin() { return choice(2) != 0; }
template <class T> static inline const T &pick(const std::vector<T> &v) { return v[choice((uint32_t)v.size())]; }
uint64_t run_seed();                               // seed of the current run (for non-choice randomness: key material)
uint64_t mix64(uint64_t x);

// ---- event log: hashed always, printed only in verbose (replay) mode ----
void ev_hash(uint64_t x);
bool ev_verbose();
void ev_printf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define EV(tag, ...) do { sim_ev_ints(tag, {__VA_ARGS__}); } while (0)
void sim_ev_ints(const char *tag, std::initializer_list<long long> v);
void ev_bytes(const char *tag, const uint8_t *p, size_t n);
void note_state(uint64_t h);                       // a distinct state/interleaving reached
uint64_t ev_current_hash();

// ---- outcome ----
[[noreturn]] void sim_fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void sim_internal_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(cond, kind, ...) do { if (!(cond)) sim_fail(kind, __VA_ARGS__); } while (0)

// ---- statistics ----
void st_fault(const char *kind, uint64_t n = 1);   // a fault that actually fired
void st_probe(const char *name, uint64_t n = 1);   // rare condition reached
void st_simtime(uint64_t us);                      // simulated time covered
void st_eval(uint64_t n = 1);                      // oracle evaluations
void st_step(uint64_t n = 1);

// ---- property registry ----
typedef void (*ScenarioFn)();
struct ScenarioReg { ScenarioReg(const char *id, ScenarioFn fn); };
#define SCENARIO(id) static void scen_##id(); static ScenarioReg reg_##id(#id, scen_##id); static void scen_##id()

// ---- per-run reset hooks (seams register themselves) ----
void at_run_start(void (*fn)());
const char *current_property();
bool thorough_mode();
void sim_cpu_budget(int sec);            // for scenarios with long runs
