#include "rt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>

extern "C" {
extern char __libc_single_threaded;
extern char __data_start[], _end[];
}

namespace rt {

const char *cls_name(int c) {
  static const char *n[] = {"none", "wrong-value", "wrong-gradient", "data-race", "not-atomic", "accepted-invalid", "unexpected-exception", "leak",
                            "memory-error", "heap-dependent", "crash", "stack-overflow", "no-progress", "random-draws", "not-reclaimed", "harness"};
  return c >= 0 && c < V_COUNT ? n[c] : "?";
}
const char *fault_name(int k) {
  static const char *n[] = {"none", "alloc-fail-once", "alloc-fail-from-here-on", "alloc-fail-big", "alloc-fail-window"};
  return k >= 0 && k < F_KINDS ? n[k] : "?";
}
const char *ctr_names[N_CTRS] = {
    "steps", "switches", "switch_at_access", "switch_at_shared_access", "switch_at_alloc", "switch_at_call", "switch_on_block", "switch_pct",
    "stall_skips", "allocs", "frees", "reused_blocks", "garbage_bytes", "environment_readings",
    "alloc_fail_once", "alloc_fail_from_here_on", "alloc_fail_big", "alloc_fail_window",
    "ops", "skipped", "unspecified_calls", "direct_assignments", "invalid_requests", "failed_calls", "retries", "backwards", "failed_backwards", "rebuilt_graphs",
    "audits", "audited_tensors", "gradients_checked", "inplace_adds", "handle_drops", "migrations", "random_draws", "buffer_clobbers",
    "lock_waits", "shared_leaf_backwards", "overlapping_backwards", "foreign", "race_checked_accesses", "rounds", "graph_nodes",
    "max_graph_depth", "undecided_runs"};

Result *res = nullptr;

// ---- memory layout ----------------------------------------------------------
static constexpr uintptr_t A0 = 0x10000000000ull;
static constexpr size_t ASIZE = 512ull << 20;
static constexpr uintptr_t GMAP0 = 0x18000000000ull;  // u32 per 16-byte granule
static constexpr uintptr_t CELL0 = 0x20000000000ull;  // Cell per 8 bytes
static constexpr uintptr_t BLK0 = 0x30000000000ull;   // Block table
static constexpr size_t MAXBLK = 16u << 20;
static constexpr uintptr_t STK0 = 0x40000000000ull;
static constexpr size_t STKSTEP = 64ull << 20;

struct Cell {
  uint32_t wclk;
  uint32_t wop;
  uint8_t wtid, wmask;
  uint8_t rmask[MAXT];
  uint32_t rclk[MAXT];
};
struct Block {
  uintptr_t addr;
  uint64_t size;
  uint32_t next; // free list
  int32_t op, fop;
  uint8_t live, kind, sync, tid;
};
enum Kind : uint8_t { K_NEW = 1, K_NEWA, K_MALLOC, K_CALLER };

static uint32_t *const gmap = reinterpret_cast<uint32_t *>(GMAP0);
static Cell *const acells = reinterpret_cast<Cell *>(CELL0);
static Block *const blocks = reinterpret_cast<Block *>(BLK0);
static Cell *gcells = nullptr;
static uintptr_t g_lo, g_hi;

static uint32_t n_blocks;
static uint64_t env_count;      // readings of clocks and entropy so far
static uintptr_t bump, bump_hi; // fresh memory grows from both ends of the arena
static size_t n_live, b_live, b_peak;
static std::unordered_map<size_t, std::vector<uint32_t>> *freelist;
static std::unordered_map<size_t, size_t> *fifo_head;
static Rng hrng(1);

static Cfg cfg;
static bool running;      // between begin_run and end
static bool multi;        // several callers exist
static uint64_t steps;
static uint64_t elog;

// ---- threads ------------------------------------------------------------------
enum TState : uint8_t { T_UNUSED, T_READY, T_BLOCKED, T_DONE };
struct Thr {
  pthread_t th;
  int fut;
  TState st;
  const void *wait;   // what it is blocked on
  int op;             // current operation id
  int attempt;
  uint32_t ev;        // event number in the operation
  uint64_t opsteps0;
  uint64_t nsteps;    // events of this thread
  uintptr_t spin_at;  // atomic it last looked at in vain
  int spins;          // how often in a row
  uint64_t call0;     // value of nsteps when the current library call began
  uint32_t allocs;    // allocations in this attempt
  bool armed, fired;
  bool dead;          // F_REST active
  uint32_t vc[MAXT];
  int prio;
  uintptr_t stk_lo, stk_hi, guard_lo;
};
static Thr thr[MAXT];
static int nthr; // number of callers
static thread_local int tl_tid = 0;
static thread_local bool tl_sut = false;
static thread_local bool tl_rt = false; // inside the runtime itself: its memory is not the library's
struct InRt { bool p; InRt() : p(tl_rt) { tl_rt = true; } ~InRt() { tl_rt = p; } };
static int cur = 0;
static void (*g_body)(int, void *);
static void *g_arg;
static int round_no;
static uint64_t run_len;

static Rng srng(1);
static int64_t mem_left, alloc_left;
static std::unordered_map<uint64_t, int> *script;
static std::vector<Fault> *faults;
static uint64_t next_pct;
static int pct_left;

struct Sync { uint32_t vc[MAXT]; };
static std::unordered_map<uintptr_t, Sync> *syncs;
struct Mtx { int owner = -1; int depth = 0; int readers = 0; uint8_t rd[MAXT] = {0}; };
static std::unordered_map<uintptr_t, Mtx> *mtxs;

int cur_tid() { return tl_tid; }
bool enabled(int c) { return c == V_HARNESS || (cfg.cls_mask >> c & 1); }

static void finish_now() {
  res->hash = elog;
  res->ctr[N_STEPS] = steps;
  res->done = 1;
  _exit(0);
}

void fail(int cls, const std::string &msg) {
  InRt in_rt;
  tl_sut = false;
  if (!res->cls) {
    res->cls = cls;
    res->op = thr[tl_tid].op;
    snprintf(res->msg, sizeof res->msg, "%s", msg.c_str());
  }
  log_event(0xdead, (uint64_t)cls);
  finish_now();
  abort();
}

void violation(int cls, const std::string &msg) {
  InRt in_rt;
  if (enabled(cls)) fail(cls, msg);
  if (!res->n_foreign++) {
    res->foreign_cls = cls;
    snprintf(res->foreign_msg, sizeof res->foreign_msg, "%s", msg.c_str());
  }
  count(N_FOREIGN);
}

static std::string fmt(const char *f, ...) {
  char b[900];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

void log_event(uint64_t a, uint64_t b) {
  elog = (elog ^ (a * 0x9E3779B97F4A7C15ull + b)) * 0xff51afd7ed558ccdull;
  elog ^= elog >> 32;
}
void log_obs(int op, const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  uint64_t &o = res->op_obs[(unsigned)op % MAX_OPS];
  o = (o * 31 + h);
  res->obs_hash += (h ^ (uint64_t)op * 0x9E3779B97F4A7C15ull) * 0xff51afd7ed558ccdull;
  log_event(0x0b5, h);
}

// ---- scheduler ---------------------------------------------------------------------
static void fwait(int *f) {
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
static void fpost(int *f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static uint64_t key_of(const Thr &t) { return ((uint64_t)(uint32_t)(t.op + round_no * MAX_OPS + 32) << 32) | t.ev; }

static bool runnable(int t) { return t >= 1 && t <= nthr && thr[t].st == T_READY; }
static bool stalled(int t) { return t == cfg.sched.stall_tid && steps >= cfg.sched.stall_from && steps < cfg.sched.stall_from + cfg.sched.stall_len; }

// choose among runnable threads other than `me` (or including it if incl)
static int choose(int me, bool incl) {
  int c[MAXT], n = 0, best = -1;
  for (int pass = 0; pass < 2 && !n; ++pass)
    for (int t = 1; t <= nthr; ++t)
      if (runnable(t) && (incl || t != me)) {
        if (!pass && stalled(t)) { count(N_STALL_SKIPS); continue; }
        c[n++] = t;
      }
  if (!n) return -1;
  if (cfg.sched.pct) {
    for (int i = 0; i < n; ++i)
      if (best < 0 || thr[c[i]].prio > thr[best].prio) best = c[i];
    return best;
  }
  return c[srng.below(n)];
}

static void do_switch(int to, Ctr why) {
  int me = tl_tid;
  Thr &t = thr[me];
  if (res->n_sw < MAX_SW) {
    res->sw[res->n_sw++] = Switch{t.op + round_no * MAX_OPS, t.ev, to};
  } else
    res->n_sw = MAX_SW + 1; // schedule too long to be recorded: not replayable from the script
  count(N_SWITCH);
  count(why);
  log_event(key_of(t), (uint64_t)to);
  res->sched_hash = (res->sched_hash ^ (key_of(t) * 31 + (uint64_t)to)) * 0xff51afd7ed558ccdull;
  run_len = 0;
  cur = to;
  bool waitself = t.st != T_DONE;
  fpost(&thr[to].fut);
  if (waitself) fwait(&t.fut);
}

static void step() {
  Thr &t = thr[tl_tid];
  if (++t.nsteps - t.call0 > cfg.call_cap)
    fail(V_HANG, fmt("a call has not finished after %llu steps of its own (operation %d of caller %d)", (unsigned long long)cfg.call_cap, t.op, tl_tid));
  if (++steps > cfg.step_cap) {
    count(N_UNDECIDED);
    fail(V_NONE, ""); // the whole history is too long to be run to its end
  }
}

static int64_t geo(double p) {
  if (p <= 0) return INT64_MAX;
  if (p >= 1) return 1;
  // geometric by inversion on the simulation PRNG
  double u = ((double)(srng.next() >> 11) + 1) * (1.0 / 9007199254740993.0);
  double v = __builtin_log(u) / __builtin_log1p(-p);
  return v > 1e15 ? INT64_MAX : (int64_t)v + 1;
}

enum Pt { P_MEM, P_SHARED, P_ALLOC, P_OP, P_SYNC };

static void sched_point(Pt kind) {
  Thr &t = thr[tl_tid];
  ++t.ev;
  if (!multi || tl_tid == 0) return;
  ++run_len;
  int to = -1;
  Ctr why = N_SW_MEM;
  if (cfg.sched.replay) {
    auto it = script->find(key_of(t));
    if (it == script->end()) {
      if (run_len < 3000000) return;
      to = choose(tl_tid, false);
    } else
      to = it->second;
    if (to < 1 || to == tl_tid || !runnable(to)) return;
    do_switch(to, kind == P_OP ? N_SW_OP : N_SW_MEM);
    return;
  }
  const SchedCfg &s = cfg.sched;
  if (s.pct) {
    if (pct_left && steps >= next_pct) {
      --pct_left;
      next_pct = steps + 1 + srng.below(s.pct_span);
      thr[tl_tid].prio = -100 + pct_left - s.pct; // lowest so far
      to = choose(tl_tid, true);
      why = N_SW_PCT;
    } else if (stalled(tl_tid) || run_len > 3000000)
      to = choose(tl_tid, false);
    else if (kind == P_OP || (steps & 1023) == 0)
      to = choose(tl_tid, true);
  } else {
    if (stalled(tl_tid) || run_len > 3000000)
      to = choose(tl_tid, false);
    else if (kind == P_OP) {
      if (s.p_op > 0 && srng.chance(s.p_op)) { to = choose(tl_tid, true); why = N_SW_OP; }
    } else if (kind == P_ALLOC) {
      if (--alloc_left <= 0) { alloc_left = geo(s.p_alloc); to = choose(tl_tid, false); why = N_SW_ALLOC; }
    } else {
      if ((kind == P_SHARED || kind == P_SYNC) && s.p_shared > 0 && srng.chance(s.p_shared)) { to = choose(tl_tid, false); why = N_SW_SHARED; }
      else if (--mem_left <= 0) { mem_left = geo(s.p_mem); to = choose(tl_tid, false); }
    }
  }
  if (to < 1 || to == tl_tid) return;
  do_switch(to, why);
}

// the current thread waits for another by trying again: let any other caller run (a real scheduler is fair)
static void give_way() {
  Thr &t = thr[tl_tid];
  ++t.ev;
  if (!multi || tl_tid == 0) return;
  int to = -1;
  if (cfg.sched.replay) {
    auto it = script->find(key_of(t));
    if (it != script->end() && runnable(it->second)) to = it->second;
  }
  if (to < 0) {
    int c[MAXT], n = 0;
    for (int i = 1; i <= nthr; ++i) if (i != tl_tid && runnable(i)) c[n++] = i;
    if (n) to = c[srng.below(n)];
  }
  if (to < 1 || to == tl_tid) return;
  do_switch(to, N_SW_BLOCK);
}
static void in_vain(uintptr_t a) {
  if (!tl_sut || !running) return;
  Thr &t = thr[tl_tid];
  if (t.spin_at != a) { t.spin_at = a; t.spins = 0; }
  if (++t.spins < 64) return;
  t.spins = 0;
  InRt in_rt;
  give_way();
}
static void not_in_vain() { thr[tl_tid].spins = 0; }

// the current thread cannot continue: run someone else
static void block_on(const void *what) {
  Thr &t = thr[tl_tid];
  ++t.ev;
  if (!multi || tl_tid == 0) fail(V_HANG, fmt("deadlock: operation %d waits for a lock nobody will release", t.op));
  t.st = T_BLOCKED;
  t.wait = what;
  count(N_LOCK_WAITS);
  int to = -1;
  if (cfg.sched.replay) {
    auto it = script->find(key_of(t));
    if (it != script->end() && runnable(it->second)) to = it->second;
    else for (int i = 1; i <= nthr && to < 0; ++i) if (runnable(i)) to = i;
  } else
    to = choose(tl_tid, false);
  if (to < 0) fail(V_HANG, fmt("deadlock: every unfinished caller is blocked (operation %d of caller %d)", t.op, tl_tid));
  do_switch(to, N_SW_BLOCK);
}
static void wake(const void *what) {
  for (int i = 1; i <= nthr; ++i)
    if (thr[i].st == T_BLOCKED && thr[i].wait == what) { thr[i].st = T_READY; thr[i].wait = nullptr; }
}

// ---- vector clocks -------------------------------------------------------------------
static void vjoin(uint32_t *a, const uint32_t *b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static void acquire(uintptr_t a) {
  InRt in_rt;
  auto it = syncs->find(a);
  if (it != syncs->end()) vjoin(thr[tl_tid].vc, it->second.vc);
}
static void release_(uintptr_t a) {
  InRt in_rt;
  auto &s = (*syncs)[a];
  vjoin(s.vc, thr[tl_tid].vc);
  ++thr[tl_tid].vc[tl_tid];
  if (a - A0 < ASIZE) { uint32_t b = gmap[(a - A0) >> 4]; if (b) blocks[b].sync = 1; }
}

static std::string where(uintptr_t a) {
  if (a - A0 < ASIZE) {
    uint32_t b = gmap[(a - A0) >> 4];
    if (!b) return "unallocated heap memory";
    const Block &k = blocks[b];
    return fmt("byte %lld of a %llu-byte block allocated by operation %d%s", (long long)(a - k.addr), (unsigned long long)k.size, (int)k.op,
               k.live ? "" : fmt(" and freed by operation %d", (int)k.fop).c_str());
  }
  return "a global variable of the library";
}

static inline Cell *cell_of(uintptr_t a) {
  if (a - A0 < ASIZE) return &acells[(a - A0) >> 3];
  return &gcells[(a - g_lo) >> 3];
}

static void race_report(uintptr_t a, const char *mine, int other, const char *theirs, int op2) {
  violation(V_RACE, fmt("data race: %s by caller %d in operation %d conflicts with an unordered %s by caller %d%s on %s", mine, tl_tid,
                        thr[tl_tid].op, theirs, other, op2 >= 0 ? fmt(" in operation %d", op2).c_str() : "", where(a).c_str()));
}

static void race_check(uintptr_t a, size_t n, bool w) {
  if (nthr < 2) return;
  Thr &t = thr[tl_tid];
  uintptr_t end = a + n;
  count(N_RACE_CHECKED);
  while (a < end) {
    uintptr_t c0 = a & ~7ull;
    unsigned off = a - c0, len = (end - c0 >= 8 ? 8 : end - c0) - off;
    uint8_t mask = ((1u << len) - 1) << off;
    Cell *c = cell_of(a);
    if ((c->wmask & mask) && c->wtid != tl_tid && c->wclk > t.vc[c->wtid]) race_report(a, w ? "a write" : "a read", c->wtid, "write", (int)c->wop);
    if (w) {
      for (int i = 0; i < MAXT; ++i)
        if (i != tl_tid && (c->rmask[i] & mask) && c->rclk[i] > t.vc[i]) race_report(a, "a write", i, "read", -1);
      if (c->wtid == tl_tid && c->wclk == t.vc[tl_tid]) c->wmask |= mask;
      else { c->wtid = tl_tid; c->wclk = t.vc[tl_tid]; c->wmask = mask; }
      c->wop = t.op;
    } else {
      if (c->rclk[tl_tid] == t.vc[tl_tid]) c->rmask[tl_tid] |= mask;
      else { c->rclk[tl_tid] = t.vc[tl_tid]; c->rmask[tl_tid] = mask; }
    }
    a = c0 + 8;
  }
}

static inline bool touched_by_other(uintptr_t a) {
  Cell *c = cell_of(a);
  if (c->wmask && c->wtid != tl_tid) return true;
  for (int i = 0; i < MAXT; ++i) if (i != tl_tid && c->rmask[i]) return true;
  return false;
}

static void mem_check(uintptr_t a, size_t n, bool w) {
  uint32_t b = gmap[(a - A0) >> 4];
  const char *k = w ? "write" : "read";
  if (!b) { violation(V_MEM, fmt("%zu-byte %s of heap memory outside any allocation", n, k)); return; }
  const Block &bl = blocks[b];
  if (!bl.live) { violation(V_MEM, fmt("%zu-byte %s after free: %s", n, k, where(a).c_str())); return; }
  if (a < bl.addr || a + n > bl.addr + bl.size) violation(V_MEM, fmt("%zu-byte out-of-bounds %s: %s", n, k, where(a).c_str()));
}

static void access_(uintptr_t a, size_t n, bool w) {
  if (!tl_sut) return;
  InRt in_rt;
  step();
  bool ar = a - A0 < ASIZE;
  if (!ar && !(a >= g_lo && a < g_hi)) {
    if (a < 4096) { // null dereference: let it fault
    }
    return;
  }
  if (multi) {
    bool sh = cfg.sched.p_shared > 0 && !cfg.sched.replay && (!ar || touched_by_other(a));
    sched_point(sh ? P_SHARED : P_MEM);
  } else
    ++thr[tl_tid].ev;
  if (ar) mem_check(a, n, w);
  if (multi || nthr) race_check(a, n, w);
}

// ---- heap ------------------------------------------------------------------------------
static void fill_mem(uintptr_t a, size_t n) {
  if (n == 0) return;
  uint8_t *p = reinterpret_cast<uint8_t *>(a);
  switch (cfg.heap.fill) {
  case G_ZERO: memset(p, 0, n); break;
  case G_FF: memset(p, 0xff, n); break;
  case G_NOISE:
    for (size_t i = 0; i < n; i += 8) {
      uint64_t v = hrng.next();
      memcpy(p + i, &v, std::min<size_t>(8, n - i));
    }
    break;
  case G_ONE:
    for (size_t i = 0; i < n; i += 4) {
      uint32_t v = 0x3f800000u;
      memcpy(p + i, &v, std::min<size_t>(4, n - i));
    }
    break;
  default: return;
  }
  count(N_GARBAGE_BYTES, n);
}

static bool fault_now(size_t size) {
  Thr &t = thr[tl_tid];
  if (!t.armed) return false;
  if (t.dead) { count(N_FAULT_REST); t.fired = true; return true; }
  for (const Fault &f : *faults) {
    if (f.op != t.op || f.attempt != t.attempt) continue;
    bool hit = false;
    switch (f.kind) {
    case F_ONCE: hit = (int)t.allocs == f.ord; if (hit) count(N_FAULT_ONCE); break;
    case F_REST: hit = (int)t.allocs >= f.ord; if (hit) { count(N_FAULT_REST); t.dead = true; } break;
    case F_BIG: hit = (int)t.allocs >= f.ord && (long)size >= f.arg; if (hit) count(N_FAULT_BIG); break;
    case F_WINDOW: hit = (int)t.allocs >= f.ord && (int)t.allocs < f.ord + f.arg; if (hit) count(N_FAULT_WINDOW); break;
    }
    if (hit) { t.fired = true; log_event(0xfa17, t.allocs); return true; }
  }
  return false;
}

static size_t bump_pad(size_t capa, size_t align) { return capa + 32 + 2 * align; }
static void *arena_alloc(size_t size, uint8_t kind, size_t align) {
  if (align < 16) align = 16;
  size_t capa = (std::max<size_t>(size, 1) + 15) & ~15ull;
  uint32_t id = 0;
  uintptr_t addr = 0;
  if (cfg.heap.reuse != R_NEVER && align == 16) {
    auto it = freelist->find(capa);
    if (it != freelist->end()) {
      auto &v = it->second;
      size_t &h = (*fifo_head)[capa];
      size_t avail = v.size() - h, idx = 0;
      if (avail > 0) {
        if (cfg.heap.reuse == R_LIFO) { idx = v.size() - 1; }
        else if (cfg.heap.reuse == R_FIFO) { idx = h; }
        else { idx = h + hrng.below(avail); if (hrng.chance(0.25)) idx = SIZE_MAX; }
        if (idx != SIZE_MAX) {
          if (cfg.heap.reuse == R_FIFO) { addr = blocks[v[h]].addr; ++h; }
          else { addr = blocks[v[idx]].addr; v[idx] = v.back(); v.pop_back(); }
          count(N_REUSED);
        }
      }
    }
  }
  if (!addr) {
    if (cfg.heap.reuse == R_RANDOM) bump += 16 * hrng.below(5);
    // upwards, downwards, or either way at random
    uint64_t place = cfg.heap.seed % 3;
    bool down = place == 1 || (place == 2 && hrng.chance(0.5));
    if (bump + bump_pad(capa, align) > bump_hi) return nullptr;
    if (down) {
      bump_hi = (bump_hi - capa - 32) & ~(align - 1);
      addr = bump_hi;
    } else {
      bump = (bump + align - 1) & ~(align - 1);
      addr = bump;
      bump += capa + 32;
    }
  }
  if (n_blocks + 1 >= MAXBLK) return nullptr;
  id = ++n_blocks;
  Block &b = blocks[id];
  b.addr = addr; b.size = size; b.live = 1; b.kind = kind; b.op = thr[tl_tid].op; b.fop = -1; b.sync = 0; b.tid = (uint8_t)tl_tid;
  for (size_t g = 0; g < capa; g += 16) gmap[(addr - A0 + g) >> 4] = id;
  if (nthr > 1) memset(cell_of(addr), 0, sizeof(Cell) * ((capa + 7) / 8));
  ++n_live; b_live += size; b_peak = std::max(b_peak, b_live);
  count(N_ALLOC);
  fill_mem(addr, size);
  return reinterpret_cast<void *>(addr);
}

static void *sut_alloc(size_t size, uint8_t kind, size_t align = 16) {
  InRt in_rt;
  step();
  sched_point(P_ALLOC);
  Thr &t = thr[tl_tid];
  ++t.allocs;
  if (t.armed && t.attempt == 0 && t.op >= 0 && t.op < MAX_OPS) res->op_allocs[t.op] = std::max(res->op_allocs[t.op], t.allocs);
  if (fault_now(size)) return nullptr;
  if (size > (64ull << 20)) return nullptr;
  return arena_alloc(size, kind, align);
}

static void arena_free(void *p, uint8_t kind) {
  InRt in_rt;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  uint32_t id = gmap[(a - A0) >> 4];
  Block *b = id ? &blocks[id] : nullptr;
  if (tl_sut) { step(); sched_point(P_ALLOC); }
  if (!b || b->addr != a) { violation(V_MEM, "free of a pointer that is not the start of an allocation: " + where(a)); return; }
  if (!b->live) { violation(V_MEM, "double free: " + where(a)); return; }
  if (b->kind != kind) {
    static const char *kn[] = {"?", "new", "new[]", "malloc", "the caller"};
    violation(V_MEM, fmt("memory from %s released as memory from %s: %s", kn[b->kind], kn[kind], where(a).c_str()));
  }
  if (nthr && tl_sut && b->size) race_check(a, b->size, true);
  if (b->sync) { for (uintptr_t x = a; x < a + b->size; ++x) syncs->erase(x); }
  b->live = 0;
  b->fop = thr[tl_tid].op;
  --n_live; b_live -= b->size;
  count(N_FREE);
  if (cfg.heap.fill != G_STALE) fill_mem(a, b->size);
  size_t capa = (std::max<size_t>(b->size, 1) + 15) & ~15ull;
  if (cfg.heap.reuse != R_NEVER) (*freelist)[capa].push_back(id);
}

void *caller_alloc(size_t n) {
  InRt in_rt;
  void *p = arena_alloc(n, K_CALLER, 16);
  if (!p) fail(V_HARNESS, "simulated heap exhausted");
  return p;
}
void caller_free(void *p) { arena_free(p, K_CALLER); }

size_t live_blocks() { return n_live; }
size_t live_bytes() { return b_live; }
size_t peak_bytes() { return b_peak; }
void reset_peak() { b_peak = b_live; }
std::string describe_live(size_t max) {
  std::string s;
  size_t n = 0;
  for (uint32_t i = 1; i <= n_blocks; ++i)
    if (blocks[i].live && n++ < max) s += fmt("%s%llu bytes from operation %d", n > 1 ? ", " : "", (unsigned long long)blocks[i].size, (int)blocks[i].op);
  if (n > max) s += fmt(" and %zu more", n - max);
  return s;
}

// ---- operations ---------------------------------------------------------------------------
void op_begin(int op) {
  Thr &t = thr[tl_tid];
  t.op = op;
  t.ev = 0;
  t.attempt = 0;
  t.armed = t.fired = t.dead = false;
  t.allocs = 0;
  log_event(0x09, (uint64_t)op * 8 + tl_tid);
  sched_point(P_OP);
  t.opsteps0 = steps;
}
void op_attempt(int attempt) {
  Thr &t = thr[tl_tid];
  t.attempt = attempt;
  t.allocs = 0;
  t.fired = t.dead = false;
  t.armed = true;
}
void op_disarm() { thr[tl_tid].armed = false; thr[tl_tid].dead = false; }
bool fault_fired() { return thr[tl_tid].fired; }
uint32_t op_allocs() { return thr[tl_tid].allocs; }
uint64_t my_steps() { return thr[tl_tid].nsteps; }
uint64_t op_steps() { return steps - thr[tl_tid].opsteps0; }
void set_round(int r) { round_no = r; }
int n_running() { int n = 0; for (int i = 1; i <= nthr; ++i) n += thr[i].st == T_READY || thr[i].st == T_BLOCKED; return n; }

Sut::Sut() {
  prev = tl_sut;
  tl_sut = true;
  if (!prev) thr[tl_tid].call0 = thr[tl_tid].nsteps;
}
Sut::~Sut() { tl_sut = prev; }

static Mtx &mtx(uintptr_t a) { return (*mtxs)[a]; }
static void lock_addr(uintptr_t a, bool recursive) {
  InRt in_rt;
  step();
  sched_point(P_SYNC);
  while (true) {
    Mtx &m = mtx(a);
    if (m.owner == tl_tid && recursive) { ++m.depth; return; }
    if (m.owner == tl_tid) fail(V_HANG, fmt("deadlock: operation %d locks a mutex it already holds", thr[tl_tid].op));
    if (m.owner < 0 && m.readers == 0) { m.owner = tl_tid; m.depth = 1; break; }
    block_on((void *)a);
  }
  acquire(a);
}
static bool trylock_addr(uintptr_t a, bool recursive) {
  InRt in_rt;
  step();
  sched_point(P_SYNC);
  Mtx &m = mtx(a);
  if (m.owner == tl_tid && recursive) { ++m.depth; return true; }
  if (m.owner >= 0 || m.readers) return false;
  m.owner = tl_tid; m.depth = 1;
  acquire(a);
  return true;
}
static void unlock_addr(uintptr_t a) {
  InRt in_rt;
  Mtx &m = mtx(a);
  if (m.readers && m.rd[tl_tid]) {
    --m.rd[tl_tid];
    --m.readers;
    release_(a);
    if (!m.readers) wake((void *)a);
  } else {
    if (m.owner != tl_tid) violation(V_RACE, "unlock of a mutex that is not held");
    if (--m.depth > 0) return;
    m.owner = -1;
    release_(a);
    wake((void *)a);
  }
  step();
  sched_point(P_SYNC);
}
static void rdlock_addr(uintptr_t a) {
  InRt in_rt;
  step();
  sched_point(P_SYNC);
  while (true) {
    Mtx &m = mtx(a);
    if (m.owner < 0) { ++m.readers; ++m.rd[tl_tid]; break; }
    if (m.owner == tl_tid) fail(V_HANG, "deadlock: read lock requested by the writer");
    block_on((void *)a);
  }
  acquire(a);
}
void user_lock(int id) { lock_addr(64 + id * 8, false); }
void user_unlock(int id) { unlock_addr(64 + id * 8); }

struct Bar { int arrived = 0; int gen = 0; Sync s{}; };
static Bar bars[64];
static void bar_release(int id) {
  Bar &b = bars[id];
  b.arrived = 0;
  ++b.gen;
  wake(&b);
}
void barrier(int id, int parties) {
  Bar &b = bars[id];
  int g = b.gen;
  Sync &s = (*syncs)[4096 + id * 8];
  vjoin(s.vc, thr[tl_tid].vc);
  ++thr[tl_tid].vc[tl_tid];
  if (++b.arrived >= parties) bar_release(id);
  else
    while (b.gen == g) block_on(&b);
  vjoin(thr[tl_tid].vc, (*syncs)[4096 + id * 8].vc);
}

// ---- threads ----------------------------------------------------------------------------------
static pthread_key_t exit_key;
static bool exit_key_made;

// Runs after the destructors of the caller's thread-local variables.
static void thread_exit(void *p) {
  int id = (int)(intptr_t)p;
  tl_sut = false;
  Thr &t = thr[id];
  t.st = T_DONE;
  t.op = -2;
  t.ev = (uint32_t)id;
  int to = -1;
  if (cfg.sched.replay) {
    auto it = script->find(key_of(t));
    if (it != script->end() && runnable(it->second)) to = it->second;
    else for (int i = 1; i <= nthr && to < 0; ++i) if (runnable(i)) to = i;
  } else
    to = choose(id, false);
  if (to > 0) do_switch(to, N_SW_BLOCK);
  else {
    for (int i = 1; i <= nthr; ++i)
      if (thr[i].st == T_BLOCKED) fail(V_HANG, fmt("deadlock: caller %d stays blocked after the others finished", i));
    fpost(&thr[0].fut);
  }
}

static void *thread_main(void *p) {
  int id = (int)(intptr_t)p;
  tl_tid = id;
  stack_t ss{};
  static char *alt[MAXT];
  if (!alt[id]) alt[id] = (char *)mmap(nullptr, 64 << 10, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_sp = alt[id];
  ss.ss_size = 64 << 10;
  sigaltstack(&ss, nullptr);
  pthread_setspecific(exit_key, p);
  fwait(&thr[id].fut);
  g_body(id, g_arg);
  thr[id].op = -10 - id;
  thr[id].ev = 0;
  thr[id].armed = false;
  tl_sut = true; // what the library's thread-local variables do on exit is part of the run
  return nullptr;
}

void run_callers(int n, void (*body)(int, void *), void *arg) {
  if (!exit_key_made) { pthread_key_create(&exit_key, thread_exit); exit_key_made = true; }
  nthr = n;
  multi = n > 1;
  g_body = body;
  g_arg = arg;
  for (auto &b : bars) b = Bar{};
  size_t ssz = (cfg.stack_bytes + 4095) & ~4095ull;
  ++thr[0].vc[0];
  for (int i = 1; i <= n; ++i) {
    Thr &t = thr[i];
    uintptr_t base = STK0 + (uintptr_t)i * STKSTEP;
    if (!t.stk_lo) {
      void *m = mmap((void *)base, ssz + (1 << 20), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
      if (m != (void *)base) { perror("stack mmap"); _exit(3); }
      mprotect((void *)(base + (1 << 20)), ssz, PROT_READ | PROT_WRITE);
      t.guard_lo = base;
      t.stk_lo = base + (1 << 20);
      t.stk_hi = t.stk_lo + ssz;
    }
    t.st = T_READY;
    t.fut = 0;
    t.op = -1;
    t.ev = 0;
    t.armed = t.fired = t.dead = false;
    ++t.vc[i];
    vjoin(t.vc, thr[0].vc);
    t.prio = 0;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void *)t.stk_lo, ssz);
    if (pthread_create(&t.th, &at, thread_main, (void *)(intptr_t)i)) { perror("pthread_create"); _exit(3); }
    pthread_attr_destroy(&at);
  }
  if (cfg.sched.pct) {
    int perm[MAXT];
    for (int i = 1; i <= n; ++i) perm[i] = i;
    for (int i = n; i > 1; --i) std::swap(perm[i], perm[1 + srng.below(i)]);
    for (int i = 1; i <= n; ++i) thr[i].prio = perm[i];
    pct_left = cfg.sched.pct;
    next_pct = steps + 1 + srng.below(cfg.sched.pct_span);
  }
  Thr &m = thr[0];
  m.op = -3;
  m.ev = 0;
  int to = -1;
  if (cfg.sched.replay) {
    auto it = script->find(key_of(m));
    if (it != script->end() && runnable(it->second)) to = it->second;
    else to = 1;
  } else
    to = choose(0, false);
  do_switch(to, N_SW_BLOCK); // returns when all callers are done
  for (int i = 1; i <= n; ++i) {
    pthread_join(thr[i].th, nullptr);
    vjoin(thr[0].vc, thr[i].vc);
    ++thr[i].vc[i];
  }
  ++thr[0].vc[0];
  multi = false;
  m.op = -1;
}

// ---- start / crash handling ------------------------------------------------------------------------
static void *map_at(uintptr_t a, size_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { perror("mmap"); _exit(3); }
  return p;
}

void init_process() {
  map_at(A0, ASIZE);
  map_at(GMAP0, ASIZE / 16 * 4);
  map_at(CELL0, ASIZE / 8 * sizeof(Cell));
  map_at(BLK0, MAXBLK * sizeof(Block));
  g_lo = (uintptr_t)__data_start & ~7ull;
  g_hi = ((uintptr_t)_end + 7) & ~7ull;
  gcells = (Cell *)mmap(nullptr, (g_hi - g_lo) / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  freelist = new std::unordered_map<size_t, std::vector<uint32_t>>;
  fifo_head = new std::unordered_map<size_t, size_t>;
  syncs = new std::unordered_map<uintptr_t, Sync>;
  mtxs = new std::unordered_map<uintptr_t, Mtx>;
  script = new std::unordered_map<uint64_t, int>;
  faults = new std::vector<Fault>;
}

static void on_signal(int sig, siginfo_t *si, void *) {
  InRt in_rt;
  if (!running) _exit(4);
  bool in = tl_sut;
  tl_sut = false;
  uintptr_t a = (uintptr_t)si->si_addr;
  Thr &t = thr[tl_tid];
  if (sig == SIGPROF || sig == SIGALRM) {
    fail(in ? V_HANG : V_HARNESS, fmt("no progress: CPU time limit reached in operation %d", t.op));
  }
  if (!in) fail(V_HARNESS, fmt("signal %d at %p outside the library", sig, si->si_addr));
  if (sig == SIGSEGV && tl_tid && a >= t.guard_lo && a < t.stk_lo + 4096)
    fail(V_STACK, fmt("stack overflow: operation %d exhausts the %zu KiB stack of caller %d", t.op, (size_t)((t.stk_hi - t.stk_lo) >> 10), tl_tid));
  const char *n = sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic exception" : sig == SIGBUS ? "bus error" : "illegal instruction";
  fail(V_CRASH, fmt("%s in operation %d%s", n, t.op, sig == SIGSEGV && a < 4096 ? " (null pointer)" : ""));
}
static void on_terminate() {
  InRt in_rt;
  const char *w = "";
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); } catch (std::bad_alloc &) { w = " (an allocation failure escaped from code that must not throw)"; } catch (...) { w = " (uncaught exception)"; }
  }
  bool in = tl_sut;
  tl_sut = false;
  fail(in ? V_CRASH : V_HARNESS, fmt("std::terminate in operation %d%s", thr[tl_tid].op, w));
}

void install_crash_handlers() {
  static char alt0[64 << 10];
  stack_t ss{};
  ss.ss_sp = alt0;
  ss.ss_size = sizeof alt0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  struct itimerval it {};
  it.it_value.tv_sec = 60;
  setitimer(ITIMER_PROF, &it, nullptr);
}

void begin_run(const Cfg &c, Result *r) {
  res = r;
  cfg = c;
  __libc_single_threaded = 0;
  bump = A0 + 4096;
  bump_hi = A0 + ASIZE - 4096;
  env_count = 0;
  n_blocks = 0;
  n_live = b_live = b_peak = 0;
  steps = 0;
  elog = 0x1234567;
  run_len = 0;
  round_no = 0;
  memset(thr, 0, sizeof thr);
  for (auto &t : thr) { t.op = -1; for (auto &v : t.vc) v = 0; }
  for (int i = 0; i < MAXT; ++i) thr[i].vc[i] = 1;
  thr[0].st = T_READY;
  hrng = Rng(c.heap.seed * 77 + 5);
  srng = Rng(c.sched.seed * 31 + 11);
  mem_left = geo(c.sched.p_mem);
  alloc_left = geo(c.sched.p_alloc);
  script->clear();
  for (const Switch &s : c.sched.script) (*script)[((uint64_t)(uint32_t)(s.op + 32) << 32) | s.ev] = s.to;
  *faults = c.faults;
  running = true;
}

size_t stack_low_water(int) { return 0; }

} // namespace rt

using namespace rt;

// ---- global allocation functions ------------------------------------------------------------------
static inline bool in_arena(const void *p) { return (uintptr_t)p - A0 < ASIZE; }

static void *do_new(size_t n, uint8_t kind, size_t al = 16) {
  if (tl_sut && !tl_rt) {
    void *p = sut_alloc(n, kind, al);
    if (!p) throw std::bad_alloc();
    return p;
  }
  void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void *do_new_nt(size_t n, uint8_t kind, size_t al = 16) noexcept {
  if (tl_sut && !tl_rt) return sut_alloc(n, kind, al);
  return al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
}
static void do_delete(void *p, uint8_t kind) noexcept {
  if (!p) return;
  if (in_arena(p)) arena_free(p, kind);
  else free(p);
}
void *operator new(size_t n) { return do_new(n, K_NEW); }
void *operator new[](size_t n) { return do_new(n, K_NEWA); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new_nt(n, K_NEW); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new_nt(n, K_NEWA); }
void *operator new(size_t n, std::align_val_t a) { return do_new(n, K_NEW, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, K_NEWA, (size_t)a); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return do_new_nt(n, K_NEW, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return do_new_nt(n, K_NEWA, (size_t)a); }
void operator delete(void *p) noexcept { do_delete(p, K_NEW); }
void operator delete[](void *p) noexcept { do_delete(p, K_NEWA); }
void operator delete(void *p, size_t) noexcept { do_delete(p, K_NEW); }
void operator delete[](void *p, size_t) noexcept { do_delete(p, K_NEWA); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p, K_NEW); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p, K_NEWA); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_delete(p, K_NEW); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_delete(p, K_NEWA); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p, K_NEW); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p, K_NEWA); }

// ---- functions the library's object files are redirected to -----------------------------------------
static void range(const void *p, size_t n, bool w) {
  if (!tl_sut || !n) return;
  steps += n >> 6;
  thr[tl_tid].nsteps += n >> 6;
  access_((uintptr_t)p, n, w);
}

extern "C" {
void *sim_malloc(size_t n) {
  if (!tl_sut) return malloc(n);
  void *p = sut_alloc(n, K_MALLOC);
  if (!p) errno = ENOMEM;
  return p;
}
void *sim_calloc(size_t a, size_t b) {
  if (!tl_sut) return calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void *p = sut_alloc(n, K_MALLOC);
  if (p) memset(p, 0, n);
  else errno = ENOMEM;
  return p;
}
void *sim_aligned_alloc(size_t al, size_t n) {
  if (!tl_sut) return aligned_alloc(al, n);
  void *p = sut_alloc(n, K_MALLOC, al);
  if (!p) errno = ENOMEM;
  return p;
}
int sim_posix_memalign(void **p, size_t al, size_t n) {
  if (!tl_sut) return posix_memalign(p, al, n);
  void *q = sut_alloc(n, K_MALLOC, al);
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}
void sim_free(void *p) {
  if (!p) return;
  if (in_arena(p)) arena_free(p, K_MALLOC);
  else free(p);
}
void *sim_realloc(void *o, size_t n) {
  if (!o) return sim_malloc(n);
  if (!in_arena(o)) return realloc(o, n);
  void *p = sim_malloc(n);
  if (!p) return nullptr;
  uint32_t id = gmap[((uintptr_t)o - A0) >> 4];
  size_t os = id ? blocks[id].size : 0;
  memcpy(p, o, std::min(os, n));
  arena_free(o, K_MALLOC);
  return p;
}
void *sim_memcpy(void *d, const void *s, size_t n) {
  range(s, n, false);
  range(d, n, true);
  return memcpy(d, s, n);
}
void *sim_memmove(void *d, const void *s, size_t n) {
  range(s, n, false);
  range(d, n, true);
  return memmove(d, s, n);
}
void *sim_memset(void *d, int c, size_t n) {
  range(d, n, true);
  return memset(d, c, n);
}
int sim_memcmp(const void *a, const void *b, size_t n) {
  range(a, n, false);
  range(b, n, false);
  return memcmp(a, b, n);
}
static bool is_rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int sim_mutex_lock(pthread_mutex_t *m) {
  if (!running) return pthread_mutex_lock(m);
  lock_addr((uintptr_t)m, is_rec(m));
  return 0;
}
int sim_mutex_trylock(pthread_mutex_t *m) {
  if (!running) return pthread_mutex_trylock(m);
  return trylock_addr((uintptr_t)m, is_rec(m)) ? 0 : EBUSY;
}
int sim_mutex_unlock(pthread_mutex_t *m) {
  if (!running) return pthread_mutex_unlock(m);
  unlock_addr((uintptr_t)m);
  return 0;
}
int sim_mutex_destroy(pthread_mutex_t *m) { InRt in_rt; mtxs->erase((uintptr_t)m); return 0; }
int sim_rwlock_rdlock(pthread_rwlock_t *m) { rdlock_addr((uintptr_t)m); return 0; }
int sim_rwlock_wrlock(pthread_rwlock_t *m) { lock_addr((uintptr_t)m, false); return 0; }
int sim_rwlock_tryrdlock(pthread_rwlock_t *m) {
  InRt in_rt;
  step(); sched_point(P_SYNC);
  Mtx &x = mtx((uintptr_t)m);
  if (x.owner >= 0) return EBUSY;
  ++x.readers; ++x.rd[tl_tid]; acquire((uintptr_t)m);
  return 0;
}
int sim_rwlock_trywrlock(pthread_rwlock_t *m) { return trylock_addr((uintptr_t)m, false) ? 0 : EBUSY; }
int sim_rwlock_unlock(pthread_rwlock_t *m) { unlock_addr((uintptr_t)m); return 0; }
int sim_once(pthread_once_t *o, void (*f)(void)) {
  if (!running) return pthread_once(o, f);
  uintptr_t a = (uintptr_t)o;
  step(); sched_point(P_SYNC);
  int *st = (int *)o;
  while (*st == 77) block_on(o);
  if (*st == 78) { acquire(a); return 0; }
  *st = 77;
  try { f(); } catch (...) { *st = 0; wake(o); throw; }
  *st = 78;
  release_(a);
  wake(o);
  return 0;
}
int sim_guard_acquire(uint64_t *g) {
  uintptr_t a = (uintptr_t)g;
  uint8_t *b = (uint8_t *)g;
  if (running && tl_sut) { step(); sched_point(P_SYNC); }
  while (true) {
    if (b[0]) { acquire(a); return 0; }
    if (!b[1]) break;
    block_on(g);
  }
  b[1] = 1;
  return 1;
}
void sim_guard_release(uint64_t *g) {
  uint8_t *b = (uint8_t *)g;
  b[0] = 1;
  b[1] = 0;
  if (running) { release_((uintptr_t)g); wake(g); }
}
void sim_guard_abort(uint64_t *g) {
  ((uint8_t *)g)[1] = 0;
  if (running) wake(g);
}
// Clocks, entropy and identities: deterministic within a run, but no two readings
// agree, so whatever depends on them shows.
static uint64_t env_reading() {
  uint64_t x = (running ? cfg.heap.seed * 0x9E3779B97F4A7C15ull : 77) + ++env_count * 0xD1B54A32D192ED03ull;
  x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29;
  if (running) count(N_ENV);
  return x;
}
static int64_t env_ns() { uint64_t j = env_reading(); return 1700000000000000000ll + (int64_t)(env_count * 1000003 + j % 1000000) + (int64_t)(running ? cfg.heap.seed % 1000003 : 0) * 1000000000ll; }
time_t sim_time(time_t *t) { time_t v = (time_t)(env_ns() / 1000000000 + (int64_t)env_count); if (t) *t = v; return v; }
clock_t sim_clock() { return (clock_t)(env_ns() / 1000 % 100000000); }
int sim_clock_gettime(clockid_t, struct timespec *ts) { int64_t n = env_ns(); ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { int64_t n = env_ns(); tv->tv_sec = n / 1000000000; tv->tv_usec = n / 1000 % 1000000; return 0; }
int64_t sim_system_now() { return env_ns(); }
int64_t sim_steady_now() { return env_ns(); }
pid_t sim_getpid() { return 2 + (pid_t)((running ? cfg.heap.seed : 0) % 30000); }
pid_t sim_gettid() { return sim_getpid() + (running ? tl_tid : 0); }
ssize_t sim_getrandom(void *p, size_t n, unsigned) { for (size_t i = 0; i < n; ++i) ((uint8_t *)p)[i] = (uint8_t)(env_reading() >> 24); return (ssize_t)n; }
int sim_getentropy(void *p, size_t n) { sim_getrandom(p, n, 0); return 0; }
int sim_rand() { return (int)(env_reading() >> 33); }
long sim_random() { return (long)(env_reading() >> 33); }
void sim_srand(unsigned) {}
void sim_srandom(unsigned) {}
void sim_rd_init(void *, const void *) {}
void sim_rd_fini(void *) {}
double sim_rd_entropy(const void *) { return 32; }
unsigned sim_rd_getval(void *) { return (unsigned)(env_reading() >> 20); }

int sim_sched_yield() {
  if (tl_sut && running) { InRt in_rt; step(); give_way(); }
  return 0;
}
int sim_nanosleep(const struct timespec *, struct timespec *) { return sim_sched_yield(); }
int sim_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return sim_sched_yield(); }
int sim_usleep(unsigned) { return sim_sched_yield(); }
long sim_syscall(long n, ...) { return n == SYS_futex ? sim_sched_yield() : 0; }

// ---- ThreadSanitizer ABI ---------------------------------------------------------------------------
#define RW(n)                                                                                            \
  void __tsan_read##n(void *p) { access_((uintptr_t)p, n, false); }                                      \
  void __tsan_write##n(void *p) { access_((uintptr_t)p, n, true); }                                      \
  void __tsan_volatile_read##n(void *p) { access_((uintptr_t)p, n, false); }                             \
  void __tsan_volatile_write##n(void *p) { access_((uintptr_t)p, n, true); }                             \
  void __tsan_unaligned_read##n(void *p) { access_((uintptr_t)p, n, false); }                            \
  void __tsan_unaligned_write##n(void *p) { access_((uintptr_t)p, n, true); }                            \
  void __tsan_unaligned_volatile_read##n(void *p) { access_((uintptr_t)p, n, false); }                   \
  void __tsan_unaligned_volatile_write##n(void *p) { access_((uintptr_t)p, n, true); }                   \
  void __tsan_read_write##n(void *p) { access_((uintptr_t)p, n, false); access_((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { range(p, n, false); }
void __tsan_write_range(void *p, size_t n) { range(p, n, true); }
void __tsan_vptr_update(void **p, void *) { access_((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void **p) { access_((uintptr_t)p, 8, false); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}

static void atomic_pre(uintptr_t a, size_t n, bool w) {
  InRt in_rt;
  if (!tl_sut || !running) return;
  step();
  bool ar = a - A0 < ASIZE;
  if (!ar && !(a >= g_lo && a < g_hi)) return;
  sched_point(P_SHARED);
  if (ar) mem_check(a, n, w);
}
static void at_acq(uintptr_t a, int mo) { if (tl_sut && running && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) acquire(a); }
static void at_rel(uintptr_t a, int mo) { if (tl_sut && running && (mo == 3 || mo == 4 || mo == 5)) release_(a); }

#define ATOM(bits, T)                                                                                                     \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                                                             \
    atomic_pre((uintptr_t)a, sizeof(T), false);                                                                           \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                           \
    at_acq((uintptr_t)a, mo);                                                                                             \
    in_vain((uintptr_t)a);                                                                                                \
    return v;                                                                                                             \
  }                                                                                                                       \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                                                          \
    atomic_pre((uintptr_t)a, sizeof(T), true);                                                                            \
    at_rel((uintptr_t)a, mo);                                                                                             \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                             \
  }                                                                                                                       \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {                                                          \
    atomic_pre((uintptr_t)a, sizeof(T), true);                                                                            \
    at_acq((uintptr_t)a, mo);                                                                                             \
    at_rel((uintptr_t)a, mo);                                                                                             \
    T o = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                    \
    if (o == v) in_vain((uintptr_t)a); else not_in_vain();                                                                \
    return o;                                                                                                             \
  }                                                                                                                       \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) {                          \
    atomic_pre((uintptr_t)a, sizeof(T), true);                                                                            \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                            \
    at_acq((uintptr_t)a, ok ? mo : fmo);                                                                                  \
    if (ok) at_rel((uintptr_t)a, mo), not_in_vain(); else in_vain((uintptr_t)a);                                          \
    return ok;                                                                                                            \
  }                                                                                                                       \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) {                            \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);                                               \
  }                                                                                                                       \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                                \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo);                                                     \
    return c;                                                                                                             \
  }
#define ATOMOP(bits, T, op)                                                                                               \
  T __tsan_atomic##bits##_fetch_##op(volatile T *a, T v, int mo) {                                                        \
    atomic_pre((uintptr_t)a, sizeof(T), true);                                                                            \
    at_acq((uintptr_t)a, mo);                                                                                             \
    at_rel((uintptr_t)a, mo);                                                                                             \
    return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);                                                                   \
  }
#define ATOMALL(bits, T) ATOM(bits, T) ATOMOP(bits, T, add) ATOMOP(bits, T, sub) ATOMOP(bits, T, and) ATOMOP(bits, T, or) ATOMOP(bits, T, xor) ATOMOP(bits, T, nand)
ATOMALL(8, uint8_t) ATOMALL(16, uint16_t) ATOMALL(32, uint32_t) ATOMALL(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!tl_sut || !running) return;
  at_acq(32, mo);
  at_rel(32, mo);
}
void __tsan_atomic_signal_fence(int) {}
}
