// Thin wrappers around the public INNC API.  Compiled like the library itself
// (instrumented), so that inlined parts of its headers run under the simulator.
#pragma once
#include "prog.hpp"
#include <string>
#include <vector>

namespace su {
struct H; // an INNC::Tensor handle living in the simulated heap
enum St : int { OK = 0, BADALLOC, STDEXC, OTHEREXC };
struct Ret {
  int st = OK;
  char what[160] = "";
  long q = 0;
};
struct Obs {
  std::vector<size_t> sz;
  int dt = -1;
  size_t numel = 0;
  bool rg = false, retain = false, contig = false;
  std::string s;
};

H *h_new();
void h_free(H *);               // drop the handle
void h_take(H *dst, H *src);    // *dst = std::move(*src)
void h_copy(H *dst, const H *src);

// Performs operation `o`; faults planned for `attempt` are armed during the call only.
Ret call(const pg::Op &o, int attempt, H *a, H *b, const std::vector<H *> &list, H *out, void *blob, Obs *obs);
Ret observe(H *t, Obs &o);
Ret touch(H *h, std::string &s); // look at everything the tensor shows (it may be empty)
Ret observe_grad(H *t, Obs &o, bool &none); // none: there is no gradient
void zero_grad(H *t);
void drop_armed(H *t, int attempt); // destroy the handle with faults armed

bool have_rng();
void seed(unsigned long s);
void *rng_save();          // copy of the engine
void rng_restore(void *);  // keeps the copy
void rng_discard(void *);
bool rng_equals(void *);
void warm_up();
} // namespace su
