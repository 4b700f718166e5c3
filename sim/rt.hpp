// Deterministic simulation runtime.
//
// The library under test is compiled with -fsanitize=thread, but linked against
// this file instead of the ThreadSanitizer runtime: every memory access, atomic
// operation, lock operation and allocation of the library calls into the
// simulator, which decides who runs next, whether the allocation succeeds, what
// the memory contains and where it lies.  Caller threads are real threads that
// are parked and released one at a time by the simulator.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace rt {

constexpr int MAXT = 6; // thread 0 is the main thread, 1.. are simulated callers

// ---- PRNG -----------------------------------------------------------------
struct Rng {
  uint64_t s = 0x9E3779B97F4A7C15ull;
  explicit Rng(uint64_t seed = 1) { s = seed * 0xD1342543DE82EF95ull + 0x2545F4914F6CDD1Dull; next(); next(); }
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};

// ---- violation classes ------------------------------------------------------
enum Cls : int {
  V_NONE = 0,
  V_VALUE,      // a call returned a wrong shape, type or value
  V_GRAD,       // a gradient is wrong
  V_RACE,       // conflicting unsynchronised accesses
  V_ATOMIC,     // a failed call changed something
  V_ACCEPT,     // an invalid request was not refused
  V_EXC,        // a valid call without injected fault threw / non-standard exception
  V_LEAK,       // memory not returned
  V_MEM,        // out-of-bounds / use-after-free / bad free
  V_HEAPDEP,    // result depends on heap contents or placement
  V_CRASH,      // signal, abort, termination
  V_STACK,      // stack overflow
  V_HANG,       // step budget exceeded / deadlock
  V_RNG,        // random draws not linearizable / not reproducible
  V_RECLAIM,    // memory kept after the last handle is gone
  V_HARNESS,    // the simulator itself failed (never a finding)
  V_COUNT
};
const char *cls_name(int c);

// ---- fault plans -------------------------------------------------------------
enum FaultKind : int { F_NONE = 0, F_ONCE, F_REST, F_BIG, F_WINDOW, F_KINDS };
const char *fault_name(int k);
struct Fault {
  int op = -1;      // operation id
  int attempt = 0;  // which attempt of that operation
  int kind = F_NONE;
  int ord = 1;      // allocation ordinal (1-based) at which it starts
  int arg = 0;      // F_BIG: size threshold, F_WINDOW: length
};

// ---- schedule ----------------------------------------------------------------
struct Switch {
  int op;       // operation id being executed by the preempted thread
  uint32_t ev;  // its event number inside that operation
  int to;       // thread to run next
};
struct SchedCfg {
  bool replay = false;           // follow `script` instead of drawing
  std::vector<Switch> script;
  uint64_t seed = 1;
  double p_mem = 0;     // preemption probability per heap/global access
  double p_shared = 0;  // ... per access to memory touched by several threads or global
  double p_alloc = 0;   // ... per allocation or free
  double p_op = 0;      // ... per operation boundary
  int pct = 0;          // number of PCT priority change points (0: off)
  uint64_t pct_span = 1 << 16;
  int stall_tid = -1;   // caller stalled in a window of global steps
  uint64_t stall_from = 0, stall_len = 0;
};

// ---- heap personality ----------------------------------------------------------
enum Reuse : int { R_NEVER = 0, R_LIFO, R_FIFO, R_RANDOM };
enum Fill : int { G_ZERO = 0, G_FF, G_NOISE, G_STALE, G_ONE, G_FILLS };
struct HeapCfg {
  uint64_t seed = 1;
  int reuse = R_NEVER;
  int fill = G_NOISE;
};

// ---- counters --------------------------------------------------------------------
enum Ctr : int {
  N_STEPS, N_SWITCH, N_SW_MEM, N_SW_SHARED, N_SW_ALLOC, N_SW_OP, N_SW_BLOCK, N_SW_PCT,
  N_STALL_SKIPS, N_ALLOC, N_FREE, N_REUSED, N_GARBAGE_BYTES, N_ENV,
  N_FAULT_ONCE, N_FAULT_REST, N_FAULT_BIG, N_FAULT_WINDOW,
  N_OPS, N_SKIPPED, N_PROBES, N_DIRECT, N_INVALID, N_FAILED_OPS, N_RETRIES, N_BACKWARD, N_BACK_FAILED, N_REBUILT,
  N_AUDITS, N_AUDITED, N_GRADS_CHECKED, N_INPLACE, N_DROPS, N_MIGRATIONS, N_RANDN, N_BUFFER_CLOBBER,
  N_LOCK_WAITS, N_SHARED_BACK, N_OVERLAP_BACK, N_FOREIGN, N_RACE_CHECKED, N_ROUNDS, N_NODES,
  N_MAXDEPTH, N_UNDECIDED, N_CTRS
};
extern const char *ctr_names[N_CTRS];

// ---- result, in memory shared with the parent process -------------------------------
constexpr int MAX_SW = 1 << 16;
constexpr int MAX_OPS = 4096;
struct Result {
  int done;          // child reached the end (or reported)
  int cls;
  int n_foreign;
  int foreign_cls;   // first violation of a class that this check does not judge
  int op;
  char msg[1500];
  char foreign_msg[300];
  uint64_t hash;     // hash of the whole event log
  uint64_t obs_hash; // hash of everything observed by the callers
  uint64_t sched_hash; // hash of the interleaving alone
  uint64_t ctr[N_CTRS];
  int n_sw;
  Switch sw[MAX_SW];
  uint32_t op_allocs[MAX_OPS]; // allocations per operation id (first attempt)
  uint64_t op_obs[MAX_OPS];    // observation hash per operation id
  char note[6000];
};
extern Result *res;

// ---- control --------------------------------------------------------------------------
struct Cfg {
  SchedCfg sched;
  HeapCfg heap;
  std::vector<Fault> faults;
  uint64_t step_cap = 4000000000ull; // per execution
  uint64_t call_cap = 100000000ull;  // per library call: a call that takes more does not finish
  uint32_t cls_mask = 0xffffffffu; // classes that end the run
  size_t stack_bytes = 1 << 20;
};
void init_process();                 // once, before any fork: reserve address ranges
void begin_run(const Cfg &c, Result *r);
void install_crash_handlers();
// Start `n` callers (threads 1..n) and run them to completion.
void run_callers(int n, void (*body)(int tid, void *arg), void *arg);

[[noreturn]] void fail(int cls, const std::string &msg); // end the run
void violation(int cls, const std::string &msg);         // ends the run iff cls is enabled
bool enabled(int cls);

inline void count(Ctr c, uint64_t n = 1) { res->ctr[c] += n; }
void log_event(uint64_t a, uint64_t b);
void log_obs(int op, const std::string &s);

// operation bookkeeping for the calling thread
void op_begin(int op);               // scheduling point at an operation boundary
void op_attempt(int attempt);        // arm the faults planned for (op, attempt)
void op_disarm();
bool fault_fired();                  // did an armed fault fire since op_attempt?
uint32_t op_allocs();                // allocations so far in this attempt
int cur_tid();
uint64_t op_steps();                 // events since op_begin
uint64_t my_steps();                 // events of the calling thread so far

// entering / leaving the library
struct Sut { bool prev; Sut(); ~Sut(); };

// harness-level synchronisation (creates happens-before edges)
void user_lock(int id);
void user_unlock(int id);
void barrier(int id, int parties);   // all parties must arrive; finished threads count
void set_round(int round);
int n_running();

// caller memory inside the simulated heap (so that stale uses of it are seen)
void *caller_alloc(size_t n);
void caller_free(void *p);

size_t live_blocks();
size_t live_bytes();
size_t peak_bytes();
void reset_peak();
std::string describe_live(size_t max);
size_t stack_low_water(int tid);
} // namespace rt
