// The explicit case format: what the callers do, which faults are injected, how
// the heap behaves and (in replay files) which thread runs when.
#pragma once
#include "rt.hpp"
#include <map>
#include <string>
#include <vector>

namespace pg {
#define OPKINDS(X)                                                                                         \
  X(ZEROS) X(ONES) X(FULLI) X(FULLD) X(EYE) X(BLOB) X(ZLIKE) X(OLIKE) X(SCALAR) X(INIT) X(RANDN) X(RANDLIKE) \
  X(ADD) X(SUB) X(MUL) X(DIV) X(LT) X(GT) X(LE) X(GE) X(EQ) X(NE) X(NEG) X(POS)                            \
  X(SUM) X(MEAN) X(MAX) X(MIN) X(ABS) X(ALL)                                                               \
  X(SLICE) X(TRANS) X(TRANSS) X(RESHAPE) X(RESHAPES) X(RESHAPEAS) X(DETACH)                                \
  X(CLONE) X(CONTIG) X(TYPE) X(CAT)                                                                        \
  X(IADD) X(REQ) X(RETAIN) X(BACK) X(ZGRAD) X(GRADC) X(GRADH) X(UNINIT)                                                       \
  X(COPYH) X(MOVEH) X(DROP) X(RELEASE) X(QUERY) X(AUDIT) X(SEED)
enum Kind : int {
#define X(n) K_##n,
  OPKINDS(X)
#undef X
      K_COUNT
};
extern const char *kind_names[K_COUNT];

constexpr int SHARED = 1000; // slots >= SHARED are shared between the callers

struct Op {
  int id = 0, strand = 0, phase = 0, kind = 0;
  int dst = -1, a = -1, b = -1;
  int dt = 0;
  long n0 = 0, n1 = 0;
  double val = 0;
  int lock = 0;   // run under the shared lock
  int block = -1; // graph block it belongs to (rebuilt as a whole after a failed backward)
  std::vector<int> list;
  std::vector<long long> sz;
  std::string str;
};

struct Case {
  std::string prop;
  uint64_t seed = 0;
  std::string scen = "mix";
  int strands = 1, phases = 1, rounds = 1;
  int audit = 1;       // 0: only results, 1: audit at the end and after failures/in-place adds, 2: after every call
  std::map<std::string, long> par; // scenario parameters
  std::vector<Op> ops; // in program order within a strand and phase; strand -1: set-up by the main thread
  rt::HeapCfg heap;
  std::vector<rt::HeapCfg> heaps; // further heap behaviours to compare with
  rt::SchedCfg sched;
  std::vector<rt::Fault> faults;
  long P(const char *k, long d = 0) const { auto i = par.find(k); return i == par.end() ? d : i->second; }
};

std::string to_text(const Case &c);
bool from_text(const std::string &s, Case &c);
std::string show(const Op &o);
std::string summary(const Case &c, size_t max_ops = 40);
} // namespace pg
