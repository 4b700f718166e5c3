// Executes a case: every call goes to the real library and to the reference
// model; what the library returns is compared with what the model says.
#include "exec.hpp"
#include "values.hpp"
#include <algorithm>
#include <cstring>
#include <set>

namespace ex {
using namespace pg;
using namespace md;
using rt::count;

// ---- reading printed tensors -----------------------------------------------------
static bool parse_rec(const char *&p, const std::vector<size_t> &sz, size_t d, int dt, std::vector<ld> &out, std::string &err) {
  if (d == sz.size()) {
    const char *b = p;
    char *e = nullptr;
    if (is_float(dt)) out.push_back(strtold(p, &e));
    else {
      if (*p != '-' && !(*p >= '0' && *p <= '9')) { err = "no integer at '" + std::string(b, strnlen(b, 12)) + "'"; return false; }
      out.push_back((ld)strtoll(p, &e, 10));
    }
    if (!e || e == b || *b == ' ') { err = "no number at '" + std::string(b, strnlen(b, 12)) + "'"; return false; }
    p = e;
    return true;
  }
  if (*p != '[') { err = "missing ["; return false; }
  ++p;
  for (size_t i = 0; i < sz[d]; ++i) {
    if (i) {
      if (p[0] != ',' || p[1] != ' ') { err = "missing separator, too few elements or another shape"; return false; }
      p += 2;
    }
    if (!parse_rec(p, sz, d + 1, dt, out, err)) return false;
  }
  if (*p != ']') { err = "missing ]"; return false; }
  ++p;
  return true;
}
bool parse_text(const std::string &s, const std::vector<size_t> &sz, int dt, std::vector<ld> &out, std::string &err) {
  const char *p = s.c_str();
  out.clear();
  if (!parse_rec(p, sz, 0, dt, out, err)) return false;
  if (*p) { err = "trailing text"; return false; }
  return true;
}
static std::string num(ld x) { char b[40]; snprintf(b, sizeof b, std::fabs(x) > 1e8L && x == std::trunc(x) ? "%.20Lg" : "%.9Lg", x); return b; }
static std::string shape_str(const std::vector<size_t> &v) {
  std::string s = "(";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + ")";
}
static std::string cut(const std::string &s) { return s.size() > 160 ? s.substr(0, 160) + "..." : s; }

std::string compare_text(const std::string &s, const std::vector<size_t> &sz, int dt, const std::vector<ld> &v, const std::vector<ld> &tol) {
  std::vector<ld> got;
  std::string err;
  if (!parse_text(s, sz, dt, got, err)) return "prints as " + cut(s) + ", which is not a tensor of shape " + shape_str(sz) + " and type " + dt_names[dt] + " (" + err + ")";
  for (size_t k = 0; k < v.size(); ++k) {
    ld d = std::fabs(got[k] - v[k]);
    if (!(d <= tol[k])) return "element " + std::to_string(k) + " of shape " + shape_str(sz) + " is " + num(got[k]) + " instead of " + num(v[k]) + "; prints as " + cut(s);
  }
  return "";
}

// ---- execution state ------------------------------------------------------------------
struct St {
  const Case *c = nullptr;
  World w;
  std::vector<std::vector<su::H *>> slot;
  std::vector<su::H *> shared;
  std::vector<int> att;             // executions of each operation so far
  std::vector<std::vector<std::vector<int>>> prog; // [phase][strand] -> indices
  int in_back = 0;
  size_t base_bytes = 0;
  bool check_mem = false;
};
static St *S;

static su::H *&hslot(int strand, int s) {
  if (s >= SHARED) {
    if (S->shared.size() <= (size_t)(s - SHARED)) S->shared.resize(s - SHARED + 1, nullptr);
    return S->shared[s - SHARED];
  }
  auto &v = S->slot[strand < 0 ? 0 : strand];
  if (v.size() <= (size_t)s) v.resize(s + 1, nullptr);
  return v[s];
}
static su::H *hget(int strand, int s) { return s < 0 ? nullptr : hslot(strand, s); }

static std::string who(int strand, int slot) {
  return slot >= SHARED ? "shared tensor S" + std::to_string(slot - SHARED) : "tensor t" + std::to_string(slot) + " of strand " + std::to_string(strand);
}

// compare one handle with its model node
static std::string check_node(const Op &o, su::H *h, const NodeP &n, bool adopt) {
  su::Obs ob;
  auto r = su::observe(h, ob);
  if (r.st != su::OK) return std::string("cannot be printed: ") + r.what;
  rt::log_obs(o.id, (n->st->unk ? std::string("?") : ob.s) + "|" + shape_str(ob.sz) + std::to_string(ob.dt) + (ob.rg ? "g" : "-"));
  if (ob.sz != n->sz) return "has shape " + shape_str(ob.sz) + " instead of " + shape_str(n->sz);
  if (ob.dt != n->dt) return std::string("has type ") + (ob.dt >= 0 && ob.dt < 6 ? dt_names[ob.dt] : "?") + " instead of " + dt_names[n->dt];
  if (ob.numel != n->numel()) return "says it has " + std::to_string(ob.numel) + " elements instead of " + std::to_string(n->numel());
  if (ob.rg != n->rg) return std::string(ob.rg ? "requires" : "does not require") + " gradients";
  if (ob.retain != n->retain) return std::string(ob.retain ? "retains" : "does not retain") + " its gradient";
  if (n->st->unk) return "";
  if (adopt) {
    std::vector<ld> got;
    std::string err;
    if (!parse_text(ob.s, n->sz, n->dt, got, err)) return "prints as " + cut(ob.s) + " (" + err + ")";
    for (size_t k = 0; k < got.size(); ++k) {
      if (!(std::fabs(got[k]) < 20)) return "random element is " + num(got[k]);
      n->st->v[n->ix[k]] = got[k];
      n->st->e[n->ix[k]] = 7e-7L;
    }
    return "";
  }
  std::vector<ld> v(n->numel()), tol(n->numel());
  for (size_t k = 0; k < v.size(); ++k) {
    v[k] = n->v(k);
    tol[k] = is_float(n->dt) ? 6e-7L + 4 * n->e(k) + std::fabs(v[k]) * 1e-12L : 0;
  }
  return compare_text(ob.s, n->sz, n->dt, v, tol);
}

static std::string check_grad(const Op &o, su::H *h, const NodeP &n) {
  if (n->numel() == 0) return "";
  su::Obs ob;
  bool none;
  if (n->gs == G_UNK) { su::observe_grad(h, ob, none); return ""; } // only has to be safe
  auto r = su::observe_grad(h, ob, none);
  if (r.st != su::OK) return std::string("has a gradient that cannot be printed: ") + r.what;
  rt::log_obs(o.id, "grad " + ob.s);
  count(rt::N_GRADS_CHECKED);
  if (n->gs == G_NONE) return none ? "" : "has a gradient " + cut(ob.s) + " although nothing was differentiated into it";
  if (none) {
    if (n->gs == G_MAYBE0) return "";
    return "has no gradient";
  }
  if (ob.sz != n->sz) return "has a gradient of shape " + shape_str(ob.sz) + " instead of " + shape_str(n->sz);
  if (ob.dt != n->dt) return "has a gradient of another type";
  std::vector<ld> v(n->numel()), tol(n->numel());
  for (size_t k = 0; k < v.size(); ++k) {
    v[k] = k < n->g.size() ? n->g[k] : 0;
    tol[k] = 1e-6L + (k < n->ga.size() ? 1e-12L * n->ga[k] + 3 * n->ge[k] : 0);
  }
  auto e = compare_text(ob.s, n->sz, n->dt, v, tol);
  return e.empty() ? "" : "gradient: " + e;
}

struct AuditOpt { int vcls, gcls; const std::set<const Node *> *skip_grad = nullptr; bool values = true, grads = true; std::string when; };

static void audit(const Op &o, int strand, const AuditOpt &a, bool lock) {
  count(rt::N_AUDITS);
  auto one = [&](int slot, su::H *h, const NodeP &n, bool grads) {
    if (!h || !n) return;
    count(rt::N_AUDITED);
    if (a.values) {
      auto e = check_node(o, h, n, false);
      if (!e.empty()) rt::violation(a.vcls, a.when + ": " + who(strand, slot) + " " + e);
    }
    if (grads && a.grads && !(a.skip_grad && a.skip_grad->count(n.get()))) {
      auto e = check_grad(o, h, n);
      if (!e.empty()) rt::violation(a.gcls, a.when + ": " + who(strand, slot) + " " + e);
    }
  };
  if (strand >= 0) {
    auto &sl = S->slot[strand];
    for (size_t i = 0; i < sl.size(); ++i) one((int)i, sl[i], S->w.get(strand, (int)i), lock || strand < 0 || !S->w.get(strand, (int)i) || !S->w.get(strand, (int)i)->shared);
  }
  for (size_t i = 0; i < S->shared.size(); ++i) one(SHARED + (int)i, S->shared[i], S->w.get(strand, SHARED + (int)i), lock || strand < 0);
}

// Whether the result of a call is looked at right away; if not, later calls meet
// it as the library left it.
static bool peek(const Op &o) {
  long p = S->c->P("peek", 100);
  if (p >= 100) return true;
  rt::Rng r(S->c->seed * 1000003ull + (uint64_t)o.id * 7919 + 11);
  return (long)r.below(100) < p;
}

static void drop_slot(int strand, int s) {
  su::H *&h = hslot(strand, s);
  if (h) { su::h_free(h); h = nullptr; }
}

// A call about whose result nothing is said: it has to end in a tensor or in an
// exception derived from std::exception, touch only memory of its own and leave every tensor as it was.
static void probe(const Op &o, bool lock) {
  int strand = o.strand;
  auto h = [&](int s) { return s < 0 ? nullptr : hslot(strand, s); };
  auto el = [&](int s) { NodeP n = S->w.get(strand, s); return n ? std::max<size_t>(1, n->numel()) : 1; };
  if ((o.a >= 0 && !h(o.a)) || (o.b >= 0 && !h(o.b)) || el(o.a) * (o.b >= 0 ? el(o.b) : 1) > 40000) { count(rt::N_SKIPPED); return; }
  std::vector<su::H *> list;
  for (int s : o.list) { if (!h(s)) { count(rt::N_SKIPPED); return; } list.push_back(h(s)); }
  count(rt::N_PROBES);
  su::H *tmp = o.dst >= 0 ? su::h_new() : nullptr;
  su::Obs q;
  NodeP root = o.kind == K_BACK ? S->w.get(strand, o.a) : nullptr;
  std::vector<NodeP> topo;
  if (root) graph_of(root, topo);
  if (root) ++S->in_back;
  su::Ret r = su::call(o, S->att[o.id]++, h(o.a), h(o.b), list, tmp, nullptr, &q);
  if (root) { --S->in_back; unknown_gradients(root); }
  if (o.kind == K_IADD && r.st == su::OK) unknown_values(S->w, strand, S->w.get(strand, o.a));
  std::string d = "call " + show(o);
  if (r.st == su::OTHEREXC) rt::violation(rt::V_EXC, d + " ended in " + r.what);
  std::string s;
  if (r.st == su::OK && tmp) {
    auto e = su::touch(tmp, s);
    if (e.st == su::OTHEREXC) rt::violation(rt::V_EXC, "printing the result of " + d + " ended in " + e.what);
  }
  rt::log_obs(o.id, r.st == su::OK ? s : std::string("refused"));
  if (tmp) su::h_free(tmp);
  if (r.st != su::OK || S->c->audit >= 2) {
    std::set<const Node *> in;
    for (auto &n : topo) in.insert(n.get());
    audit(o, strand, {rt::V_ATOMIC, rt::V_ATOMIC, &in, true, true, "after " + d + (r.st == su::OK ? "" : std::string(" failed (") + r.what + ")")}, lock);
  }
}

// Whether the result is assigned straight to the handle that already holds another tensor.
static bool direct(const Op &o) {
  rt::Rng r(S->c->seed * 999983ull + (uint64_t)o.id * 104729 + 3);
  return r.chance(0.5);
}

static std::string desc(const Op &o) { return "call " + show(o); }

enum Next { GO_ON, RESTART_BLOCK };

static Next exec_op(const Op &o) {
  int strand = o.strand;
  rt::op_begin(o.id);
  bool lock = o.lock && strand >= 0;
  if (strand >= 0 && S->c->P("locks")) { // callers take turns on whatever reaches a shared tensor
    auto sh = [&](int s) { NodeP n = S->w.get(strand, s); return n && (n->shared || !n->leaf || n->st->shared); };
    lock = lock || o.kind == K_BACK || o.kind == K_AUDIT || sh(o.a) || sh(o.b);
    for (int s : o.list) lock = lock || sh(s);
  }
  if (lock) rt::user_lock(0);
  struct Unlock { bool l; ~Unlock() { if (l) rt::user_unlock(0); } } ul{lock};
  Eff E = eval(S->w, o);
  // rebuilding a block over its own results may grow them beyond what is worth simulating
  bool huge = E.o == VALID && E.out && E.out->numel() > 90000;
  if (E.o == UNSPEC && E.probe && !(E.garbage && S->c->prop == "C07")) { probe(o, lock); return GO_ON; }
  if (E.o == UNSPEC || huge) { count(rt::N_SKIPPED); return GO_ON; }
  count(rt::N_OPS);
  if (E.o == INVALID) count(rt::N_INVALID);

  switch (o.kind) {
  case K_AUDIT: {
    if (o.n0 == 1) {
      if (!S->check_mem) return GO_ON;
      // Only tensors reachable from handles may be in memory.
      std::set<const Store *> st;
      std::set<const Node *> ns;
      size_t need = 0, nodes = 0;
      auto add = [&](const NodeP &n) {
        if (!n) return;
        std::vector<NodeP> todo{n};
        while (!todo.empty()) {
          NodeP x = todo.back();
          todo.pop_back();
          if (!ns.insert(x.get()).second) continue;
          ++nodes;
          size_t es = x->dt == 0 ? 1 : x->dt == 1 ? 2 : x->dt == 2 || x->dt == 4 ? 4 : 8;
          if (st.insert(x->st.get()).second) need += es * x->st->v.size();
          if (x->gs != G_NONE) need += es * x->st->v.size();
          if (!x->leaf) need += es * x->st->v.size(); // whatever its derivative rule keeps
          for (auto &i : x->in) todo.push_back(i);
        }
      };
      for (auto &s : S->w.slot) for (auto &n : s) add(n);
      for (auto &n : S->w.shared) add(n);
      size_t have = rt::live_bytes() - std::min(rt::live_bytes(), S->base_bytes);
      size_t limit = need + need / 20 + 2048 + 700 * nodes;
      if (have > limit)
        rt::violation(rt::V_RECLAIM, std::to_string(have) + " bytes are still in use although the handles only reach " + std::to_string(nodes) + " tensors and gradients of " +
                                         std::to_string(need) + " bytes; in use: " + rt::describe_live(12));
      return GO_ON;
    }
    audit(o, strand, {rt::V_VALUE, rt::V_GRAD, nullptr, true, true, "at call #" + std::to_string(o.id)}, lock);
    return GO_ON;
  }
  case K_SEED: su::seed((unsigned long)o.n0); return GO_ON;
  case K_DROP: {
    su::H *&h = hslot(strand, o.a);
    commit(S->w, o, E);
    count(rt::N_DROPS);
    if (h) { su::H *x = h; h = nullptr; su::drop_armed(x, S->att[o.id]++); }
    return GO_ON;
  }
  case K_MOVEH: {
    su::H *&a = hslot(strand, o.a);
    su::H *src = a;
    a = nullptr;
    commit(S->w, o, E);
    su::H *&d = hslot(strand, o.dst);
    if (!d) d = su::h_new();
    su::h_take(d, src);
    su::h_free(src);
    return GO_ON;
  }
  default: break;
  }

  su::H *ha = hget(strand, o.a), *hb = hget(strand, o.b);
  std::vector<su::H *> list;
  for (int s : o.list) list.push_back(hget(strand, s));
  bool makes = o.dst >= 0;
  void *blob = nullptr;
  size_t bytes = 0;
  if (o.kind == K_BLOB) {
    size_t n = 1;
    for (auto s : o.sz) n *= (size_t)s;
    auto v = vals::blob(o.dt, n, o.n0, o.n1);
    static const size_t es[] = {1, 2, 4, 8, 4, 8};
    bytes = n * es[o.dt];
    blob = rt::caller_alloc(bytes);
    for (size_t k = 0; k < n; ++k) switch (o.dt) {
      case 0: ((int8_t *)blob)[k] = (int8_t)v[k]; break;
      case 1: ((int16_t *)blob)[k] = (int16_t)v[k]; break;
      case 2: ((int32_t *)blob)[k] = (int32_t)v[k]; break;
      case 3: ((int64_t *)blob)[k] = (int64_t)v[k]; break;
      case 4: ((float *)blob)[k] = (float)v[k]; break;
      case 5: ((double *)blob)[k] = v[k]; break;
      }
  }
  struct FreeBlob { void *&p; size_t n; ~FreeBlob() { if (p) { memset(p, 0xA5, n); rt::caller_free(p); count(rt::N_BUFFER_CLOBBER); } } } fb{blob, bytes};

  std::vector<NodeP> topo;
  if (o.kind == K_BACK && E.o == VALID) {
    graph_of(S->w.get(strand, o.a), topo);
    count(rt::N_BACKWARD);
    count(rt::N_NODES, topo.size());
    if (S->in_back) count(rt::N_OVERLAP_BACK);
    if (lock) count(rt::N_SHARED_BACK);
  }
  if (o.kind == K_RANDN || o.kind == K_RANDLIKE) count(rt::N_RANDN);

  su::Obs q;
  su::Ret r;
  su::H *tmp = nullptr;
  bool dir = makes && hslot(strand, o.dst) && !(E.opaque && !E.out) && direct(o);
  if (dir) count(rt::N_DIRECT);
  for (int tries = 0;; ++tries) {
    tmp = dir ? hslot(strand, o.dst) : makes ? su::h_new() : nullptr;
    if (o.kind == K_BACK) ++S->in_back;
    r = su::call(o, S->att[o.id]++, ha, hb, list, tmp, blob, &q);
    if (o.kind == K_BACK) --S->in_back;
    bool fired = rt::fault_fired();
    if (r.st == su::OTHEREXC) {
      rt::violation(rt::V_EXC, desc(o) + " ended in " + r.what);
      if (tmp && !dir) su::h_free(tmp);
      return GO_ON;
    }
    if (r.st == su::OK) {
      if (E.o == INVALID) {
        rt::violation(rt::V_ACCEPT, desc(o) + " is an invalid request but was not refused");
        if (dir) { drop_slot(strand, o.dst); S->w.set(strand, o.dst, nullptr); }
        else if (tmp) su::h_free(tmp);
        return GO_ON;
      }
      break;
    }
    // the call failed
    if (tmp && !dir) su::h_free(tmp);
    if (E.o == VALID && !fired) {
      rt::violation(rt::V_EXC, desc(o) + " is valid and no fault was injected, but it failed: " + r.what);
      return GO_ON;
    }
    count(rt::N_FAILED_OPS);
    rt::log_event(0xfa11, (uint64_t)r.st);
    std::string when = "after " + desc(o) + " failed (" + r.what + ")";
    if (o.kind == K_BACK && E.o == VALID) {
      count(rt::N_BACK_FAILED);
      std::set<const Node *> in;
      for (auto &n : topo) in.insert(n.get());
      abandon_backward(S->w, S->w.get(strand, o.a));
      audit(o, strand, {rt::V_ATOMIC, rt::V_ATOMIC, &in, true, true, when}, lock);
      // recovery: clear the gradients of the leaves
      auto &sl = S->slot[strand < 0 ? 0 : strand];
      for (size_t i = 0; i < sl.size(); ++i) {
        NodeP n = S->w.get(strand, (int)i);
        if (sl[i] && n && n->leaf && in.count(n.get())) su::zero_grad(sl[i]);
      }
      for (size_t i = 0; i < S->shared.size(); ++i) {
        NodeP n = S->w.shared[i];
        if (S->shared[i] && n && n->leaf && in.count(n.get())) su::zero_grad(S->shared[i]);
      }
      if (o.block >= 0) { count(rt::N_REBUILT); return RESTART_BLOCK; }
      return GO_ON;
    }
    audit(o, strand, {rt::V_ATOMIC, rt::V_ATOMIC, nullptr, true, true, when}, lock);
    if (E.o == INVALID) return GO_ON;
    count(rt::N_RETRIES);
    if (tries > 400) rt::fail(rt::V_HARNESS, "too many retries");
  }

  // success
  if (o.kind == K_ALL) {
    rt::log_obs(o.id, r.q ? "T" : "F");
    if (r.q != E.q[0]) rt::violation(rt::V_VALUE, desc(o) + " returned " + (r.q ? "true" : "false"));
    return GO_ON;
  }
  if (o.kind == K_QUERY) {
    auto n = S->w.get(strand, o.a);
    if (!n->st->unk) rt::log_obs(o.id, q.s);
    auto e = check_node(o, ha, n, false);
    if (!e.empty()) rt::violation(rt::V_VALUE, desc(o) + ": " + who(strand, o.a) + " " + e);
    if (lock || !n->shared || strand < 0) {
      e = check_grad(o, ha, n);
      if (!e.empty()) rt::violation(rt::V_GRAD, desc(o) + ": " + who(strand, o.a) + " " + e);
    }
    return GO_ON;
  }
  if (o.kind == K_RELEASE) {
    commit(S->w, o, E);
    drop_slot(strand, o.a);
    return GO_ON;
  }
  if (makes) {
    if (E.opaque && !E.out) { // nothing is said about the values
      su::h_free(tmp);
      drop_slot(strand, o.dst);
      commit(S->w, o, E);
      return GO_ON;
    }
    if (o.kind != K_COPYH && (E.opaque || peek(o))) {
      auto e = check_node(o, tmp, E.out, E.opaque);
      if (!e.empty()) rt::violation(rt::V_VALUE, desc(o) + ": the result " + e);
      if (!E.opaque || true) {
        if (E.out->fresh || E.out->gs == G_NONE) {
          auto g = check_grad(o, tmp, E.out);
          if (!g.empty()) rt::violation(rt::V_GRAD, desc(o) + ": the result " + g);
        }
      }
      if (o.kind == K_CONTIG && E.out->numel()) {
        su::Obs ob;
        su::observe(tmp, ob);
        if (!ob.contig) rt::violation(rt::V_VALUE, desc(o) + ": the result is not contiguous");
      }
    }
    su::H *&d = hslot(strand, o.dst);
    if (!d || d == tmp) d = tmp;
    else { su::h_take(d, tmp); su::h_free(tmp); }
  }
  commit(S->w, o, E);
  if (o.kind == K_IADD) count(rt::N_INPLACE);
  if (S->c->audit >= 2 || (S->c->audit == 1 && (o.kind == K_IADD || o.kind == K_BACK || o.kind == K_ZGRAD)))
    audit(o, strand, {rt::V_VALUE, rt::V_GRAD, nullptr, true, true, "after " + desc(o)}, lock);
  return GO_ON;
}

static void run_list(const std::vector<int> &l) {
  size_t i = 0;
  int restarts = 0;
  while (i < l.size()) {
    const Op &o = S->c->ops[l[i]];
    if (exec_op(o) == RESTART_BLOCK && ++restarts < 64) {
      while (i > 0 && S->c->ops[l[i - 1]].block == o.block) --i;
      continue;
    }
    ++i;
  }
}

static void body(int tid, void *) {
  int n = S->c->strands;
  for (int p = 0; p < S->c->phases; ++p) {
    int strand = (tid - 1 + p) % n;
    if (p && n > 1) count(rt::N_MIGRATIONS);
    run_list(S->prog[p][strand]);
    if (p + 1 < S->c->phases) rt::barrier(p % 60, n);
  }
}

static void reset_world() {
  S->w = World{};
  S->w.slot.resize(std::max(1, S->c->strands));
  S->slot.assign(std::max(1, S->c->strands), {});
  S->shared.clear();
  std::fill(S->att.begin(), S->att.end(), 0);
}

static void drop_all() {
  // handles go in an order derived from the seed
  rt::Rng r(S->c->seed * 3 + 1);
  std::vector<su::H *> hs;
  for (auto &s : S->slot) for (auto &h : s) if (h) { hs.push_back(h); h = nullptr; }
  for (auto &h : S->shared) if (h) { hs.push_back(h); h = nullptr; }
  for (size_t i = hs.size(); i > 1; --i) std::swap(hs[i - 1], hs[r.below(i)]);
  for (auto h : hs) su::h_free(h);
  S->w = World{};
  S->w.slot.resize(std::max(1, S->c->strands));
}

static void mix(const Case &c) {
  St st;
  S = &st;
  st.c = &c;
  st.att.assign(rt::MAX_OPS, 0);
  std::vector<int> setup;
  st.prog.assign(c.phases, std::vector<std::vector<int>>(std::max(1, c.strands)));
  for (size_t i = 0; i < c.ops.size(); ++i) {
    const Op &o = c.ops[i];
    if (o.strand < 0) setup.push_back((int)i);
    else if (o.strand < c.strands && o.phase < c.phases) st.prog[o.phase][o.strand].push_back((int)i);
  }
  Op fin;
  fin.id = rt::MAX_OPS - 1;
  fin.kind = K_AUDIT;
  fin.strand = -1;
  size_t lb[64] = {0}, ln[64] = {0};
  for (int r = 0; r < c.rounds; ++r) {
    count(rt::N_ROUNDS);
    rt::set_round(r);
    reset_world();
    su::seed(4242);
    st.base_bytes = rt::live_bytes();
    st.check_mem = c.rounds == 1 || r > 0;
    run_list(setup);
    rt::run_callers(c.strands, body, nullptr);
    rt::op_begin(fin.id);
    if (c.audit) {
      for (int s = 0; s < c.strands; ++s) {
        fin.strand = s;
        fin.lock = s == 0;
        audit(fin, s, {rt::V_VALUE, rt::V_GRAD, nullptr, true, true, "at the end"}, true);
      }
      fin.strand = -1;
    }
    if (c.scen == "keep") continue;
    drop_all();
    if (r < 64) { lb[r] = rt::live_bytes(); ln[r] = rt::live_blocks(); }
  }
  if (c.rounds >= 3) {
    int n = std::min(c.rounds, 64);
    bool grow = true;
    for (int i = 1; i < n; ++i) grow = grow && lb[i] > lb[i - 1];
    if (grow)
      rt::violation(rt::V_LEAK, "after each repetition of the history, with no handle left, more memory is in use: " + std::to_string(lb[0]) + ", " + std::to_string(lb[1]) + ", " +
                                    std::to_string(lb[2]) + " bytes in " + std::to_string(ln[0]) + ", " + std::to_string(ln[1]) + ", " + std::to_string(ln[2]) +
                                    " blocks; in use: " + rt::describe_live(8));
  }
}

void run_case(const Case &c) {
  if (c.scen == "mix" || c.scen == "keep") mix(c);
  else if (!sc::run_scenario(c)) rt::fail(rt::V_HARNESS, "unknown scenario " + c.scen);
}
} // namespace ex
