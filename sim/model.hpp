// Reference model: exact (long double) tensors with error bounds, explicit
// aliasing and a direct definition of reverse-mode differentiation.
#pragma once
#include "prog.hpp"
#include <cmath>
#include <memory>

namespace md {
using ld = long double;
enum DT : int { i8, i16, i32, i64, f32, f64 };
inline bool is_float(int t) { return t >= f32; }
extern const char *dt_names[6];

enum Out : int { VALID, INVALID, UNSPEC };

struct Store {
  std::vector<ld> v, e; // values and error bounds
  bool shared = false;  // some shared tensor shows these elements
  bool unk = false;     // what it holds is not specified any more
  bool ghandle = false; // shown by a handle to a gradient
  int group = 0;        // stores of one non-zero group may or may not be the same memory
};
using StoreP = std::shared_ptr<Store>;

struct Edge {
  int in;
  std::vector<int> from, to; // out element, in element
  std::vector<ld> co, ce;    // coefficient and its error bound
};
struct Node;
using NodeP = std::shared_ptr<Node>;
enum GSt : int { G_NONE, G_VAL, G_MAYBE0, G_UNK };
struct Node {
  int dt = 0;
  std::vector<size_t> sz;
  StoreP st;
  std::vector<int> ix;
  bool rg = false, retain = false, leaf = true, spent = false, shared = false, fresh = true;
  bool pos = false; // may be the same object as another node (unary plus)
  std::vector<NodeP> in;
  std::vector<Edge> ed;
  GSt gs = G_NONE;
  std::vector<ld> g, ga, ge; // gradient, sum of magnitudes, error bound
  std::vector<StoreP> gh;    // handles taken to the gradient
  int born = -1;             // operation that made it
  ~Node();
  size_t numel() const { size_t n = 1; for (auto s : sz) n *= s; return n; }
  ld v(size_t k) const { return st->v[ix[k]]; }
  ld e(size_t k) const { return st->e[ix[k]]; }
};

struct World {
  std::vector<std::vector<NodeP>> slot; // [strand][slot]
  std::vector<NodeP> shared;
  int next_group = 1;
  NodeP get(int strand, int s) const {
    if (s < 0) return nullptr;
    if (s >= pg::SHARED) return (size_t)(s - pg::SHARED) < shared.size() ? shared[s - pg::SHARED] : nullptr;
    if (strand < 0) return nullptr;
    return (size_t)s < slot[strand].size() ? slot[strand][s] : nullptr;
  }
  void set(int strand, int s, NodeP n) {
    if (s >= pg::SHARED) {
      if (shared.size() <= (size_t)(s - pg::SHARED)) shared.resize(s - pg::SHARED + 1);
      if (n) n->shared = n->st->shared = true;
      shared[s - pg::SHARED] = n;
    } else {
      if (slot[strand].size() <= (size_t)s) slot[strand].resize(s + 1);
      slot[strand][s] = n;
    }
  }
};

// What operation `o` must do in world `w`.  If VALID, `out` is the resulting
// node (null if the operation yields none) and nothing in `w` has changed yet;
// commit() then applies the effects.
struct Eff {
  Out o = UNSPEC;
  NodeP out;         // result
  bool opaque = false; // result values are not specified (only shape and type)
  bool scalar = false; // result of a query
  bool fuzzy = false; // some derivatives are specified only up to a range
  bool garbage = false; // UNSPEC because it reads unspecified elements
  bool probe = false;  // UNSPEC, but the call may be made: it must end, and harm nothing
  long q[8] = {0};
  const char *why = "";
};
Eff eval(const World &w, const pg::Op &o);
void commit(World &w, const pg::Op &o, Eff &e);

// backward bookkeeping shared with the executor
void graph_of(const NodeP &root, std::vector<NodeP> &topo); // root first, only nodes with gradients
void unknown_values(World &w, int strand, const NodeP &a);  // nothing is said any more about the elements of a
void unknown_gradients(const NodeP &root);                  // a backward about whose result nothing is said
void abandon_backward(World &w, const NodeP &root);         // model of a failed backward followed by clearing the leaves
bool store_in_graph(const World &w, int strand, const StoreP &s);
size_t depth_of(const NodeP &n);
} // namespace md
