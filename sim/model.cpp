#include "model.hpp"
#include "values.hpp"
#include <algorithm>
#include <cstring>
#include <set>
#include <unordered_set>

namespace md {
using pg::Op;
using namespace pg;
const char *dt_names[6] = {"i8", "i16", "i32", "i64", "f32", "f64"};
static const ld LIM = 20000;

// Long chains of nodes must not be destroyed recursively.
static thread_local std::vector<NodeP> *graveyard = nullptr;
Node::~Node() {
  if (in.empty()) return;
  if (graveyard) {
    for (auto &p : in) graveyard->push_back(std::move(p));
    return;
  }
  std::vector<NodeP> g;
  graveyard = &g;
  for (auto &p : in) g.push_back(std::move(p));
  while (!g.empty()) {
    NodeP n = std::move(g.back());
    g.pop_back();
    n.reset();
  }
  graveyard = nullptr;
}

static bool fits(int dt, ld x) {
  switch (dt) {
  case i8: return x >= -128 && x <= 127;
  case i16: return x >= -32768 && x <= 32767;
  case i32: return std::fabs(x) <= 2147483647.0L;
  default: return std::fabs(x) <= 0x1p62L;
  }
}
// a whole number that meets a floating-point one is converted first; only what survives that is specified
static bool survives(int dt, int common, ld x) {
  return is_float(dt) || !is_float(common) || std::fabs(x) <= (common == f32 ? 0x1p24L : 0x1p53L);
}

// value of exact result x (error bound e) stored as type dt; false: not specified
static bool put(int dt, ld x, ld e, ld &v, ld &oe) {
  if (!std::isfinite((double)x)) return false;
  if (is_float(dt)) {
    if (std::fabs(x) > LIM) return false;
    ld r = dt == f32 ? (ld)(float)x : (ld)(double)x;
    v = r;
    oe = r == x ? e : e + std::fabs(x) * (dt == f32 ? 1.3e-7L : 3e-16L) + 1e-30L;
    return true;
  }
  // conversion to an integer truncates
  ld t = std::trunc(x);
  if (e > 0) {
    ld lo = std::trunc(x - e * 2 - 1e-12L), hi = std::trunc(x + e * 2 + 1e-12L);
    if (lo != hi) return false;
  }
  if (!fits(dt, t)) return false;
  v = t;
  oe = 0;
  return true;
}

// How many elements a tensor of these sizes has; more than memory can hold is refused.
static Out count_elements(const std::vector<long long> &s) {
  bool zero = false, big = false;
  __int128 n = 1;
  for (auto x : s) {
    if (x == 0) zero = true;
    else if (!big && (n *= (__int128)(unsigned long long)x) >= ((__int128)1 << 40)) big = true;
  }
  if (zero) for (auto x : s) if ((unsigned long long)x > (1 << 22)) big = true; // cannot be printed
  if (!big && n > (1 << 22)) return UNSPEC;
  return !big ? VALID : zero ? UNSPEC : INVALID;
}

static NodeP fresh_node(int dt, std::vector<size_t> sz, int id) {
  auto n = std::make_shared<Node>();
  n->dt = dt;
  n->sz = std::move(sz);
  size_t k = n->numel();
  n->st = std::make_shared<Store>();
  n->st->v.assign(k, 0);
  n->st->e.assign(k, 0);
  n->ix.resize(k);
  for (size_t i = 0; i < k; ++i) n->ix[i] = (int)i;
  n->born = id;
  return n;
}

static void link(NodeP &out, std::vector<NodeP> ins) {
  bool rg = false;
  for (auto &i : ins) rg |= i->rg;
  if (!rg) return;
  out->rg = true;
  out->leaf = false;
  out->in = std::move(ins);
}
static Edge &edge(NodeP &out, int in) {
  for (auto &e : out->ed) if (e.in == in) return e;
  out->ed.push_back(Edge{in, {}, {}, {}, {}});
  return out->ed.back();
}
static void addc(Edge &e, int from, int to, ld co, ld ce = 0) {
  e.from.push_back(from); e.to.push_back(to); e.co.push_back(co); e.ce.push_back(ce);
}

static Out broadcast(const std::vector<size_t> &a, const std::vector<size_t> &b, std::vector<size_t> &r) {
  size_t n = std::max(a.size(), b.size());
  r.assign(n, 0);
  Out o = VALID;
  for (size_t i = 1; i <= n; ++i) {
    size_t x = i <= a.size() ? a[a.size() - i] : 1, y = i <= b.size() ? b[b.size() - i] : 1;
    bool both = i <= a.size() && i <= b.size();
    if (x == y) r[n - i] = x;
    else if (!both) r[n - i] = x == 1 ? y : x;
    else if (x == 0 || y == 0) { if (x == 1 || y == 1) o = o == INVALID ? INVALID : UNSPEC; else o = INVALID; }
    else if (x == 1 || y == 1) r[n - i] = std::max(x, y);
    else o = INVALID;
  }
  return o;
}
// map from elements of the broadcast shape r to elements of shape a
static std::vector<int> bmap(const std::vector<size_t> &r, const std::vector<size_t> &a) {
  size_t n = 1;
  for (auto s : r) n *= s;
  std::vector<int> m(n);
  std::vector<long> st(r.size(), 0);
  long s = 1;
  for (size_t i = 1; i <= a.size(); ++i) {
    size_t d = a[a.size() - i];
    st[r.size() - i] = d == 1 ? 0 : s;
    s *= (long)d;
  }
  std::vector<size_t> c(r.size(), 0);
  for (size_t k = 0; k < n; ++k) {
    long p = 0;
    for (size_t i = 0; i < r.size(); ++i) p += st[i] * (long)c[i];
    m[k] = (int)p;
    for (size_t i = r.size(); i-- > 0;) {
      if (++c[i] < r[i]) break;
      c[i] = 0;
    }
  }
  return m;
}

static NodeP view_of(const NodeP &a, std::vector<size_t> sz, const std::vector<int> &map, int id) {
  auto n = std::make_shared<Node>();
  n->dt = a->dt;
  n->sz = std::move(sz);
  n->st = a->st;
  n->ix.resize(map.size());
  for (size_t k = 0; k < map.size(); ++k) n->ix[k] = a->ix[map[k]];
  n->born = id;
  n->fresh = false;
  return n;
}

static bool parse_ll(const std::string &s, long long &v) {
  size_t i = 0;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
  if (i >= s.size()) return false;
  for (size_t j = i; j < s.size(); ++j) if (!isdigit((unsigned char)s[j])) return false;
  if (s.size() - i > 15) return false;
  v = atoll(s.c_str());
  return true;
}
// not a number, but a lenient reader may take the number it starts with
static bool starts_number(const std::string &s) {
  for (char c : s) if (c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v') return true; // other white space
  size_t i = !s.empty() && (s[0] == '-' || s[0] == '+') ? 1 : 0;
  return i < s.size() && isdigit((unsigned char)s[i]);
}
static std::vector<std::string> split(const std::string &s, char d) {
  std::vector<std::string> r;
  if (s.empty()) return r;
  size_t p = 0;
  for (size_t i = 0; i < s.size(); ++i) if (s[i] == d) { r.push_back(s.substr(p, i - p)); p = i + 1; }
  r.push_back(s.substr(p));
  return r;
}
static std::string trim(const std::string &s) {
  size_t b = s.find_first_not_of(' ');
  if (b == std::string::npos) return "";
  return s.substr(b, s.find_last_not_of(' ') - b + 1);
}

// Python slicing
static Out slice(const NodeP &a, const std::string &str, std::vector<size_t> &sz, std::vector<int> &map) {
  auto comp = split(str, ',');
  if (comp.size() > a->sz.size()) return INVALID;
  Out o = VALID;
  std::vector<std::vector<size_t>> pick(a->sz.size());
  sz.clear();
  for (size_t d = 0; d < a->sz.size(); ++d) {
    long long n = (long long)a->sz[d];
    auto bad = [&](const std::string &p) { o = o == INVALID || (n != 0 && !starts_number(p)) ? INVALID : UNSPEC; };
    std::string c = d < comp.size() ? comp[d] : "";
    auto parts = split(c, ':');
    if (parts.size() > 3) return UNSPEC;
    if (parts.size() == 1) {
      long long i;
      if (!parse_ll(trim(parts[0]), i)) return starts_number(trim(parts[0])) ? UNSPEC : INVALID;
      if (i < 0) i += n;
      if (i < 0 || i >= n) return INVALID;
      pick[d] = {(size_t)i};
      continue;
    }
    long long lo, hi, st = 1;
    bool hl = false, hh = false;
    parts.resize(3);
    for (auto &p : parts) p = trim(p);
    if (!parts[2].empty()) {
      if (!parse_ll(parts[2], st)) { bad(parts[2]); st = 1; }
      else if (st == 0) { bad(""); st = 1; }
    }
    if (!parts[0].empty()) { hl = true; if (!parse_ll(parts[0], lo)) { bad(parts[0]); lo = 0; } }
    if (!parts[1].empty()) { hh = true; if (!parse_ll(parts[1], hi)) { bad(hl ? "0" : parts[1]); hi = 0; } /* the start alone may make the selection empty */ }
    if (o != VALID) continue;
    if (hl) { if (lo < 0) lo += n; if (st > 0) lo = std::clamp(lo, 0ll, n); else lo = std::clamp(lo, -1ll, n - 1); }
    else lo = st > 0 ? 0 : n - 1;
    if (hh) { if (hi < 0) hi += n; if (st > 0) hi = std::clamp(hi, 0ll, n); else hi = std::clamp(hi, -1ll, n - 1); }
    else hi = st > 0 ? n : -1;
    for (long long i = lo; st > 0 ? i < hi : i > hi; i += st) pick[d].push_back((size_t)i);
    sz.push_back(pick[d].size());
  }
  if (o != VALID) return o;
  size_t tot = 1;
  for (auto &p : pick) tot *= p.size();
  map.clear();
  if (tot == 0) return VALID;
  std::vector<size_t> c(pick.size(), 0);
  for (size_t k = 0; k < tot; ++k) {
    long pos = 0;
    for (size_t d = 0; d < pick.size(); ++d) pos = pos * (long)a->sz[d] + (long)pick[d][c[d]];
    map.push_back((int)pos);
    for (size_t d = pick.size(); d-- > 0;) { if (++c[d] < pick[d].size()) break; c[d] = 0; }
  }
  return VALID;
}

static Out reshape_size(const NodeP &a, const std::vector<long long> &s, std::vector<size_t> &r) {
  __int128 prod = 1;
  long long neg = -1;
  bool big = false, zero = false;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] < -1) return INVALID;
    if (s[i] == -1) { if (neg >= 0) return INVALID; neg = (long long)i; }
    else if (s[i] == 0) { zero = true; prod = 0; }
    else if (!big && (prod *= s[i]) >= ((__int128)1 << 40)) big = true;
  }
  if (big) return zero ? UNSPEC : INVALID;
  long long n = (long long)a->numel();
  r.assign(s.begin(), s.end());
  if (neg >= 0) {
    if (prod == 0) return n == 0 ? UNSPEC : INVALID;
    if (n % prod) return INVALID;
    r[neg] = (size_t)(n / (long long)prod);
    return VALID;
  }
  return prod == n ? VALID : INVALID;
}

static void walk(const NodeP &n, std::unordered_set<const Node *> &seen, std::vector<const Node *> &out) {
  if (!n) return;
  std::vector<const Node *> st{n.get()};
  while (!st.empty()) {
    const Node *x = st.back();
    st.pop_back();
    if (!seen.insert(x).second) continue;
    out.push_back(x);
    for (auto &i : x->in) st.push_back(i.get());
  }
}
static void all_nodes(const World &w, int strand, std::vector<const Node *> &out) {
  std::unordered_set<const Node *> seen;
  for (auto &n : w.shared) walk(n, seen, out);
  if (strand >= 0) { for (auto &n : w.slot[strand]) walk(n, seen, out); }
  else for (auto &s : w.slot) for (auto &n : s) walk(n, seen, out);
}
bool store_in_graph(const World &w, int strand, const StoreP &s) {
  std::vector<const Node *> ns;
  all_nodes(w, strand, ns);
  for (auto n : ns) {
    if (n->leaf) continue;
    if (n->st == s) return true;
    for (auto &i : n->in) if (i->st == s) return true;
  }
  return false;
}
static bool used_as_input(const World &w, int strand, const Node *x) {
  std::vector<const Node *> ns;
  all_nodes(w, strand, ns);
  for (auto n : ns) for (auto &i : n->in) if (i.get() == x) return true;
  return false;
}

void graph_of(const NodeP &root, std::vector<NodeP> &topo) {
  // iterative depth-first post-order over nodes that require gradients
  std::unordered_set<const Node *> seen;
  std::vector<std::pair<NodeP, size_t>> st;
  topo.clear();
  if (!root || !root->rg) return;
  st.push_back({root, 0});
  seen.insert(root.get());
  while (!st.empty()) {
    auto &[n, i] = st.back();
    if (i < n->in.size()) {
      NodeP c = n->in[i++];
      if (c->rg && seen.insert(c.get()).second) st.push_back({c, 0});
    } else {
      topo.push_back(n);
      st.pop_back();
    }
  }
  std::reverse(topo.begin(), topo.end());
}
size_t depth_of(const NodeP &) { return 0; }

struct BackState { std::vector<ld> g, ga, ge; std::vector<int> n; };
static bool compute_backward(const NodeP &root, std::vector<NodeP> &topo, std::vector<BackState> &bs) {
  graph_of(root, topo);
  std::map<const Node *, size_t> pos;
  bs.assign(topo.size(), {});
  for (size_t i = 0; i < topo.size(); ++i) {
    pos[topo[i].get()] = i;
    size_t n = topo[i]->numel();
    bs[i].g.assign(n, 0); bs[i].ga.assign(n, 0); bs[i].ge.assign(n, 0); bs[i].n.assign(n, 0);
  }
  bs[0].g[0] = 1; bs[0].ga[0] = 1;
  for (size_t i = 0; i < topo.size(); ++i) {
    // summing n contributions one after the other in the tensor's own type
    ld u = topo[i]->dt == f32 ? 1.3e-7L : 2.5e-16L;
    for (size_t k = 0; k < bs[i].g.size(); ++k) bs[i].ge[k] += u * (bs[i].n[k] + 2) * (bs[i].ga[k] + bs[i].ge[k]);
    for (auto &e : topo[i]->ed) {
      const Node *t = topo[i]->in[e.in].get();
      if (!t->rg) continue;
      auto &d = bs[pos[t]];
      for (size_t k = 0; k < e.from.size(); ++k) {
        ld c = e.co[k], go = bs[i].g[e.from[k]];
        d.g[e.to[k]] += c * go;
        ++d.n[e.to[k]];
        d.ga[e.to[k]] += std::fabs(c) * bs[i].ga[e.from[k]];
        d.ge[e.to[k]] += std::fabs(c) * bs[i].ge[e.from[k]] + e.ce[k] * (bs[i].ga[e.from[k]] + bs[i].ge[e.from[k]]);
        if (d.ga[e.to[k]] > 1e5L) return false;
      }
    }
  }
  return true;
}

static void add_edges_identity(NodeP &out, int in, const std::vector<int> &map) {
  Edge &e = edge(out, in);
  for (size_t k = 0; k < map.size(); ++k) addc(e, (int)k, map[k], 1);
}
static std::vector<int> iota(size_t n) {
  std::vector<int> r(n);
  for (size_t i = 0; i < n; ++i) r[i] = (int)i;
  return r;
}
static bool exact_sum(const NodeP &a) {
  ld s = 0;
  for (size_t k = 0; k < a->numel(); ++k) {
    if (a->e(k) != 0) return false;
    ld x = a->v(k) * 4096;
    if (x != std::trunc(x)) return false;
    s += std::fabs(x);
  }
  return s < 1e15L;
}

// Calls that change no tensor: they may be made even where nothing is said about their result.
bool harmless(int kind) {
  switch (kind) {
  case K_ADD: case K_SUB: case K_MUL: case K_DIV: case K_LT: case K_GT: case K_LE: case K_GE: case K_EQ: case K_NE: case K_NEG: case K_POS:
  case K_SUM: case K_MEAN: case K_MAX: case K_MIN: case K_ABS: case K_ALL: case K_SLICE: case K_TRANS: case K_TRANSS: case K_RESHAPE: case K_RESHAPES: case K_RESHAPEAS:
  case K_DETACH: case K_CLONE: case K_CONTIG: case K_TYPE: case K_CAT: case K_GRADH: return true;
  default: return false;
  }
}

Eff eval(const World &w, const Op &o) {
  Eff E;
  auto get = [&](int s) { return w.get(o.strand, s); };
  auto unspec = [&](const char *why) {
    E.o = UNSPEC;
    E.out = nullptr;
    E.why = why;
    if (harmless(o.kind) && strcmp(why, "slot")) E.probe = true;
    if (o.kind == K_IADD && (!strcmp(why, "broadcast") || !strcmp(why, "alias") || !strcmp(why, "graph"))) E.probe = true;
    E.garbage = !strcmp(why, "unknown values");
    return E;
  };
  auto invalid = [&]() { E.o = INVALID; E.out = nullptr; return E; };
  auto valid = [&]() { E.o = VALID; return E; };
  NodeP a = get(o.a), b = get(o.b);
  bool reads_ab = o.kind != K_COPYH && o.kind != K_MOVEH && o.kind != K_DROP && o.kind != K_QUERY;
  if (reads_ab && ((a && a->st->unk) || (b && b->st->unk))) return unspec("unknown values");
  switch (o.kind) {
  case K_ZEROS: case K_ONES: case K_FULLI: case K_FULLD: case K_BLOB: {
    std::vector<size_t> sz(o.sz.begin(), o.sz.end());
    Out co = count_elements(o.sz);
    if (co == INVALID) return invalid();
    if (co == UNSPEC) return unspec("size");
    auto n = fresh_node(o.dt, sz, o.id);
    std::vector<double> bv;
    if (o.kind == K_BLOB) bv = vals::blob(o.dt, n->numel(), o.n0, o.n1);
    for (size_t k = 0; k < n->numel(); ++k) {
      ld x = o.kind == K_ZEROS ? 0 : o.kind == K_ONES ? 1 : o.kind == K_FULLI ? (ld)o.n0 : o.kind == K_FULLD ? (ld)o.val : (ld)bv[k];
      if (!put(o.dt, x, 0, n->st->v[k], n->st->e[k])) return unspec("range");
    }
    E.out = n;
    return valid();
  }
  case K_EYE: {
    Out co = count_elements({o.n0, o.n1});
    if (co == INVALID) return invalid();
    if (co == UNSPEC) return unspec("size");
    auto n = fresh_node(o.dt, {(size_t)o.n0, (size_t)o.n1}, o.id);
    for (long i = 0; i < std::min(o.n0, o.n1); ++i) n->st->v[i * o.n1 + i] = 1;
    E.out = n;
    return valid();
  }
  case K_ZLIKE: case K_OLIKE: {
    if (!a) return unspec("slot");
    auto n = fresh_node(a->dt, a->sz, o.id);
    if (o.kind == K_OLIKE) for (auto &x : n->st->v) x = 1;
    E.out = n;
    return valid();
  }
  case K_SCALAR: {
    auto n = fresh_node(o.dt, {}, o.id);
    if (!put(o.dt, (ld)o.val, 0, n->st->v[0], n->st->e[0])) return unspec("range");
    E.out = n;
    return valid();
  }
  case K_INIT: {
    static const std::vector<size_t> forms[] = {{3}, {2, 2}, {1, 3, 2}, {1}, {2, 1, 1, 2}};
    if (o.n0 >= 5) return invalid(); // ragged or of mixed types
    std::vector<size_t> sz = forms[o.n0];
    auto n = fresh_node(o.dt, sz, o.id);
    auto bv = vals::blob(o.dt, n->numel(), 0, o.n1);
    for (size_t k = 0; k < n->numel(); ++k) n->st->v[k] = bv[k];
    E.out = n;
    return valid();
  }
  case K_RANDN: case K_RANDLIKE: {
    std::vector<size_t> sz(o.sz.begin(), o.sz.end());
    int dt = o.dt;
    if (o.kind == K_RANDLIKE) { if (!a) return unspec("slot"); sz = a->sz; dt = a->dt; }
    if (!is_float(dt)) return invalid();
    if (o.kind == K_RANDN) {
      Out co = count_elements(o.sz);
      if (co == INVALID) return invalid();
      if (co == UNSPEC) return unspec("size");
    }
    auto n = fresh_node(dt, sz, o.id);
    for (size_t k = 0; k < n->numel(); ++k) { n->st->v[k] = 0.37L; n->st->e[k] = 7e-7L; }
    E.out = n;
    E.opaque = true;
    return valid();
  }
  case K_ADD: case K_SUB: case K_MUL: case K_DIV: case K_NEG:
  case K_LT: case K_GT: case K_LE: case K_GE: case K_EQ: case K_NE: {
    int kind = o.kind;
    if (kind == K_NEG) {
      if (!a) return unspec("slot");
      b = a;
      a = fresh_node(i32, {}, o.id);
      kind = K_SUB;
    }
    if (!a || !b) return unspec("slot");
    std::vector<size_t> r;
    Out bo = broadcast(a->sz, b->sz, r);
    if (bo == INVALID) return invalid();
    if (bo == UNSPEC) return unspec("broadcast");
    size_t nr = 1;
    for (auto s : r) nr *= s;
    if (nr > 200000) return unspec("slot"); // not worth simulating
    bool cmp = kind >= K_LT && kind <= K_NE;
    int dt = cmp ? (int)i8 : std::max(a->dt, b->dt);
    auto n = fresh_node(dt, r, o.id);
    auto ma = bmap(r, a->sz), mb = bmap(r, b->sz);
    bool rg = !cmp && (a->rg || b->rg);
    if (!cmp) link(n, {a, b});
    if (rg && !is_float(dt)) return unspec("type");
    Edge ea{0, {}, {}, {}, {}}, eb{1, {}, {}, {}, {}};
    for (size_t k = 0; k < n->numel(); ++k) {
      ld x = a->v(ma[k]), y = b->v(mb[k]), ex = a->e(ma[k]), ey = b->e(mb[k]), z = 0, ez = 0;
      if (!survives(a->dt, std::max(a->dt, b->dt), x) || !survives(b->dt, std::max(a->dt, b->dt), y)) return unspec("range");
      if (cmp) {
        ld m = ex + ey;
        if (m > 0 && std::fabs(x - y) <= 2 * m + 1e-9L) return unspec("close");
        bool t = kind == K_LT ? x < y : kind == K_GT ? x > y : kind == K_LE ? x <= y : kind == K_GE ? x >= y : kind == K_EQ ? x == y : x != y;
        n->st->v[k] = t;
        continue;
      }
      switch (kind) {
      case K_ADD: z = x + y; ez = ex + ey; break;
      case K_SUB: z = x - y; ez = ex + ey; break;
      case K_MUL: z = x * y; ez = std::fabs(x) * ey + std::fabs(y) * ex + ex * ey; break;
      case K_DIV:
        if (!is_float(dt)) {
          if (y == 0) return invalid(); // whole numbers cannot be divided by zero
          z = (ld)((long long)x / (long long)y);
        } else {
          if (std::fabs(y) < 0.05L || ey > 0.02L * std::fabs(y)) return unspec("small divisor");
          z = x / y;
          ez = ex / std::fabs(y) + std::fabs(z) * ey / std::fabs(y) * 1.1L;
        }
        break;
      }
      if (!put(dt, z, ez, n->st->v[k], n->st->e[k])) return unspec("range");
      if (!rg) continue;
      switch (kind) {
      case K_ADD: addc(ea, k, ma[k], 1); addc(eb, k, mb[k], 1); break;
      case K_SUB: addc(ea, k, ma[k], 1); addc(eb, k, mb[k], -1); break;
      case K_MUL: addc(ea, k, ma[k], y, ey); addc(eb, k, mb[k], x, ex); break;
      case K_DIV:
        addc(ea, k, ma[k], 1 / y, ey / (y * y) * 1.2L);
        addc(eb, k, mb[k], -x / (y * y), (ex + 2.4L * ey * std::fabs(x / y)) / (y * y));
        break;
      }
    }
    if (rg) { n->ed.push_back(std::move(ea)); n->ed.push_back(std::move(eb)); }
    E.out = n;
    return valid();
  }
  case K_POS: {
    if (!a) return unspec("slot");
    if (a->rg || a->shared || a->st->ghandle) return unspec("alias");
    auto n = fresh_node(a->dt, a->sz, o.id);
    for (size_t k = 0; k < n->numel(); ++k) { n->st->v[k] = a->v(k); n->st->e[k] = a->e(k); }
    n->fresh = false;
    E.out = n;
    return valid();
  }
  case K_SUM: case K_MEAN: {
    if (!a) return unspec("slot");
    int dt = is_float(a->dt) ? f64 : i64;
    auto n = fresh_node(dt, {}, o.id);
    size_t N = a->numel();
    if (N == 0 && o.kind == K_MEAN) { E.opaque = true; E.out = nullptr; E.q[0] = dt; return valid(); }
    ld s = 0, e = 0, m = 0;
    for (size_t k = 0; k < N; ++k) { s += a->v(k); e += a->e(k); m += std::fabs(a->v(k)); }
    if (is_float(dt) && !exact_sum(a)) e += m * 3e-16L * (ld)(N + 1);
    if (!is_float(dt) && m > 0x1p62L) return unspec("range");
    if (o.kind == K_MEAN) { if (is_float(dt)) { s = s / (ld)N; e = e / (ld)N; } else s = (ld)((long long)s / (long long)N); }
    if (!put(dt, s, e, n->st->v[0], n->st->e[0])) return unspec("range");
    link(n, {a});
    if (n->rg) { Edge &ed = edge(n, 0); ld c = o.kind == K_SUM ? 1 : 1 / (ld)N; for (size_t k = 0; k < N; ++k) addc(ed, 0, (int)k, c); }
    E.out = n;
    return valid();
  }
  case K_MAX: case K_MIN: {
    if (!a) return unspec("slot");
    size_t N = a->numel();
    if (N == 0) { E.opaque = true; E.out = nullptr; E.q[0] = a->dt; return valid(); }
    auto n = fresh_node(a->dt, {}, o.id);
    ld sg = o.kind == K_MAX ? 1 : -1;
    size_t best = 0;
    for (size_t k = 1; k < N; ++k) if (sg * a->v(k) > sg * a->v(best)) best = k;
    ld emax = 0;
    std::vector<size_t> tied; // how the derivative is divided among these is not specified
    for (size_t k = 0; k < N; ++k) {
      if (a->rg && k != best && std::fabs(a->v(k) - a->v(best)) <= 2 * (a->e(k) + a->e(best)) + 1e-12L) tied.push_back(k);
      emax = std::max(emax, a->e(k));
    }
    n->st->v[0] = a->v(best);
    n->st->e[0] = emax;
    link(n, {a});
    if (n->rg) {
      Edge &ed = edge(n, 0);
      if (tied.empty()) addc(ed, 0, (int)best, 1);
      else { E.fuzzy = true; tied.push_back(best); for (auto k : tied) addc(ed, 0, (int)k, 0.5L, 0.51L); }
    }
    E.out = n;
    return valid();
  }
  case K_ABS: {
    if (!a) return unspec("slot");
    auto n = fresh_node(a->dt, a->sz, o.id);
    link(n, {a});
    if (n->rg) edge(n, 0);
    for (size_t k = 0; k < n->numel(); ++k) {
      ld x = a->v(k);
      if (!put(a->dt, std::fabs(x), a->e(k), n->st->v[k], n->st->e[k])) return unspec("range");
      if (n->rg) {
        if (std::fabs(x) <= 2 * a->e(k) + 1e-9L) { E.fuzzy = true; addc(n->ed[0], (int)k, (int)k, 0.01L, 1.02L); } // any slope between the two
        else addc(n->ed[0], (int)k, (int)k, x > 0 ? 1 : -1);
      }
    }
    E.out = n;
    return valid();
  }
  case K_ALL: {
    if (!a) return unspec("slot");
    bool all = true;
    for (size_t k = 0; k < a->numel(); ++k) {
      if (a->e(k) > 0 && std::fabs(a->v(k)) <= 2 * a->e(k) + 1e-9L) return unspec("close");
      if (a->v(k) == 0) all = false;
    }
    E.scalar = true;
    E.q[0] = all;
    return valid();
  }
  case K_SLICE: {
    if (!a) return unspec("slot");
    std::vector<size_t> sz;
    std::vector<int> map;
    Out so = slice(a, o.str, sz, map);
    if (so == INVALID) return invalid();
    if (so == UNSPEC) return unspec("slice");
    auto n = view_of(a, sz, map, o.id);
    link(n, {a});
    if (n->rg) add_edges_identity(n, 0, map);
    E.out = n;
    return valid();
  }
  case K_TRANS: case K_TRANSS: {
    if (!a) return unspec("slot");
    long R = (long)a->sz.size();
    if (o.n0 < 0 || o.n1 < 0 || o.n0 >= R || o.n1 >= R || o.n0 == o.n1) return invalid();
    std::vector<size_t> sz = a->sz;
    std::swap(sz[o.n0], sz[o.n1]);
    std::vector<long> st(R);
    long s = 1;
    for (long i = R; i-- > 0;) { st[i] = s; s *= (long)a->sz[i]; }
    std::swap(st[o.n0], st[o.n1]);
    size_t N = a->numel();
    std::vector<int> map(N);
    std::vector<size_t> c(R, 0);
    for (size_t k = 0; k < N; ++k) {
      long p = 0;
      for (long i = 0; i < R; ++i) p += st[i] * (long)c[i];
      map[k] = (int)p;
      for (long i = R; i-- > 0;) { if (++c[i] < sz[i]) break; c[i] = 0; }
    }
    auto n = view_of(a, sz, map, o.id);
    link(n, {a});
    if (n->rg) add_edges_identity(n, 0, map);
    E.out = n;
    return valid();
  }
  case K_RESHAPE: case K_RESHAPES: case K_RESHAPEAS: {
    if (!a || a->st->ghandle) return unspec("slot");
    std::vector<size_t> sz;
    Out so;
    if (o.kind == K_RESHAPEAS) { if (!b) return unspec("slot"); sz = b->sz; so = b->numel() == a->numel() ? VALID : INVALID; }
    else so = reshape_size(a, o.sz, sz);
    if (so == INVALID) return invalid();
    if (so == UNSPEC) return unspec(count_elements(o.sz) == VALID ? "reshape" : "slot");
    for (auto s : sz) if (s > (1 << 22)) return unspec("slot");
    auto n = fresh_node(a->dt, sz, o.id);
    for (size_t k = 0; k < n->numel(); ++k) { n->st->v[k] = a->v(k); n->st->e[k] = a->e(k); }
    n->fresh = false;
    link(n, {a});
    if (n->rg) add_edges_identity(n, 0, iota(n->numel()));
    E.out = n;
    return valid();
  }
  case K_DETACH: {
    if (!a) return unspec("slot");
    auto n = view_of(a, a->sz, iota(a->numel()), o.id);
    E.out = n;
    return valid();
  }
  case K_CLONE: case K_CONTIG: case K_TYPE: {
    if (!a) return unspec("slot");
    int dt = o.kind == K_TYPE ? o.dt : a->dt;
    if (o.kind == K_TYPE) {
      if (a->rg && !is_float(dt)) return invalid();
      if (dt == a->dt) return unspec("alias");
    }
    auto n = fresh_node(dt, a->sz, o.id);
    for (size_t k = 0; k < n->numel(); ++k)
      if (!put(dt, a->v(k), a->e(k), n->st->v[k], n->st->e[k])) return unspec("range");
    link(n, {a});
    if (n->rg) add_edges_identity(n, 0, iota(n->numel()));
    E.out = n;
    return valid();
  }
  case K_CAT: {
    std::vector<NodeP> ins;
    for (int s : o.list) { auto n = get(s); if (!n || n->st->unk) return unspec("slot"); ins.push_back(n); }
    if (ins.empty()) return invalid();
    size_t R = ins[0]->sz.size(), d = (size_t)o.n0;
    if (o.n0 < 0 || d >= R) return invalid();
    int dt = 0;
    size_t tot = 0;
    for (auto &i : ins) {
      if (i->sz.size() != R) return invalid();
      for (size_t j = 0; j < R; ++j) if (j != d && i->sz[j] != ins[0]->sz[j]) return invalid();
      dt = std::max(dt, i->dt);
      tot += i->sz[d];
    }
    auto sz = ins[0]->sz;
    sz[d] = tot;
    auto n = fresh_node(dt, sz, o.id);
    link(n, ins);
    if (n->rg) for (size_t i = 0; i < ins.size(); ++i) edge(n, (int)i);
    size_t outer = 1, inner = 1;
    for (size_t j = 0; j < d; ++j) outer *= sz[j];
    for (size_t j = d + 1; j < R; ++j) inner *= sz[j];
    size_t base = 0;
    for (size_t i = 0; i < ins.size(); ++i) {
      size_t w_ = ins[i]->sz[d];
      for (size_t x = 0; x < outer; ++x)
        for (size_t y = 0; y < w_; ++y)
          for (size_t z = 0; z < inner; ++z) {
            size_t from = (x * w_ + y) * inner + z, to = (x * tot + base + y) * inner + z;
            if (!put(dt, ins[i]->v(from), ins[i]->e(from), n->st->v[to], n->st->e[to])) return unspec("range");
            if (n->rg && ins[i]->rg) addc(n->ed[i], (int)to, (int)from, 1);
          }
      base += w_;
    }
    E.out = n;
    return valid();
  }
  case K_IADD: {
    if (!a || !b) return unspec("slot");
    if (a->shared || (a->st->shared && w.slot.size() > 1)) return unspec("shared");
    if (a->rg) return invalid();
    if (a->st->ghandle) return unspec("gradient");
    if (a->st->group && w.slot.size() > 1) return unspec("shared");
    std::vector<size_t> r;
    Out bo = broadcast(a->sz, b->sz, r);
    if (bo == INVALID) return invalid();
    if (bo == UNSPEC || r != a->sz) return unspec("broadcast");
    if (a->st->group) return unspec("alias");
    if (b->st->group && b->st != a->st) { /* reading is fine */ }
    if (store_in_graph(w, o.strand, a->st)) return unspec("graph");
    auto mb = bmap(r, b->sz);
    auto n = fresh_node(a->dt, a->sz, o.id);
    for (size_t k = 0; k < a->numel(); ++k) {
      int ct = std::max(a->dt, b->dt);
      ld z, ez;
      if (!survives(a->dt, ct, a->v(k)) || !survives(b->dt, ct, b->v(mb[k]))) return unspec("range");
      if (!put(ct, a->v(k) + b->v(mb[k]), a->e(k) + b->e(mb[k]), z, ez)) return unspec("range");
      if (!put(a->dt, z, ez, n->st->v[k], n->st->e[k])) return unspec("range");
    }
    E.out = n; // values to be stored
    return valid();
  }
  case K_REQ: {
    if (!a) return unspec("slot");
    if (a->shared && o.strand >= 0) return unspec("shared");
    if (o.n0 && !is_float(a->dt)) return invalid();
    if (!a->leaf) return unspec("non-leaf");
    if (a->pos) return unspec("alias");
    if (used_as_input(w, o.strand, a.get())) return unspec("graph");
    if (!o.n0 && a->gs != G_NONE) return unspec("gradient");
    return valid();
  }
  case K_RETAIN: {
    if (!a) return unspec("slot");
    if (a->shared && o.strand >= 0) return unspec("shared");
    if (a->pos) return unspec("alias");
    if (!o.n0 && a->gs != G_NONE && !a->leaf) return unspec("gradient");
    return valid();
  }
  case K_BACK: {
    if (!a) return unspec("slot");
    if (!a->rg || a->leaf || a->numel() != 1) return invalid();
    std::vector<NodeP> topo;
    std::vector<BackState> bs;
    graph_of(a, topo);
    for (auto &n : topo) if (n != a && !n->leaf && n->spent) { E.probe = true; return unspec("already propagated"); }
    for (auto &n : topo)
      for (auto &i : n->in) {
        if (i->st->unk || n->st->unk) { E.probe = true; return unspec("unknown values"); }
        if (!i->rg && i->st->group) for (auto &m : topo) for (auto &h : m->gh) if (h == i->st) return unspec("gradient used as input");
      }
    if (!compute_backward(a, topo, bs)) return unspec("range");
    for (auto &n : topo)
      if (n->leaf)
        for (size_t k = 0; k < n->ga.size(); ++k) if (n->ga[k] > 1e5L) return unspec("range");
    return valid();
  }
  case K_ZGRAD: {
    if (!a) return unspec("slot");
    return valid();
  }
  case K_GRADC: {
    if (!a) return unspec("slot");
    if (a->gs != G_VAL || a->numel() == 0) return unspec("no gradient");
    auto n = fresh_node(a->dt, a->sz, o.id);
    for (size_t k = 0; k < n->numel(); ++k) {
      ld tol = 1e-9L + 1e-12L * a->ga[k] + 3 * a->ge[k];
      ld e0;
      if (!put(a->dt, a->g[k], tol, n->st->v[k], e0)) return unspec("range");
      n->st->e[k] = e0;
    }
    E.out = n;
    return valid();
  }
  case K_GRADH: { // a handle to the gradient itself: what it shows once the gradient changes is not specified
    if (!a) return unspec("slot");
    if (a->shared || a->st->shared || a->gs != G_VAL || a->numel() == 0) return unspec("no gradient");
    auto n = fresh_node(a->dt, a->sz, o.id);
    for (size_t k = 0; k < n->numel(); ++k) {
      ld tol = 1e-9L + 1e-12L * a->ga[k] + 3 * a->ge[k];
      ld e0;
      if (!put(a->dt, a->g[k], tol, n->st->v[k], e0)) return unspec("range");
      n->st->e[k] = e0;
    }
    n->fresh = false;
    n->pos = true;
    E.out = n;
    return valid();
  }
  case K_UNINIT: {
    std::vector<size_t> sz(o.sz.begin(), o.sz.end());
    Out co = count_elements(o.sz);
    if (co == INVALID) return invalid();
    if (co == UNSPEC) return unspec("size");
    auto n = fresh_node(o.dt, sz, o.id);
    n->st->unk = true;
    E.out = n;
    return valid();
  }
  case K_COPYH: case K_MOVEH: {
    if (!a) return unspec("slot");
    if (o.kind == K_MOVEH && (o.a >= SHARED || o.a == o.dst)) return unspec("shared");
    E.out = a;
    return valid();
  }
  case K_DROP: {
    if (!a) return unspec("slot");
    if (o.a >= SHARED && o.strand >= 0) return unspec("shared");
    return valid();
  }
  case K_RELEASE: {
    if (!a || o.a >= SHARED || !a->gh.empty()) return unspec("slot");
    if (!a->leaf) return unspec("graph");
    if (a->shared || a->st->shared) return unspec("shared");
    std::vector<const Node *> ns;
    all_nodes(w, o.strand, ns);
    int refs = 0, hs = 0;
    for (auto n : ns) refs += n->st == a->st;
    for (auto &s : w.slot[o.strand]) hs += s == a;
    if (refs != 1 || hs != 1 || a->st->group || used_as_input(w, o.strand, a.get())) return unspec("alias");
    return valid();
  }
  case K_QUERY: {
    if (!a) return unspec("slot");
    return valid();
  }
  case K_AUDIT: case K_SEED: return valid();
  }
  return unspec("?");
}

static void grad_changes(const NodeP &n) {
  for (auto &h : n->gh) h->unk = true;
  n->gh.clear();
}
static void join_group(World &w, StoreP a, StoreP b) {
  int g = a->group ? a->group : b->group ? b->group : w.next_group++;
  a->group = b->group = g;
}

void commit(World &w, const Op &o, Eff &E) {
  if (E.o != VALID) return;
  NodeP a = w.get(o.strand, o.a);
  switch (o.kind) {
  case K_IADD:
    for (size_t k = 0; k < a->numel(); ++k) { a->st->v[a->ix[k]] = E.out->st->v[k]; a->st->e[a->ix[k]] = E.out->st->e[k]; }
    return;
  case K_REQ: a->rg = o.n0; return;
  case K_RETAIN: a->retain = o.n0; return;
  case K_ZGRAD:
    grad_changes(a);
    if (a->gs == G_VAL || a->gs == G_UNK) {
      bool was_unk = a->gs == G_UNK;
      a->g.assign(a->numel(), 0); a->ga.assign(a->numel(), 0); a->ge.assign(a->numel(), 0);
      a->gs = was_unk ? G_MAYBE0 : G_VAL;
    }
    return;
  case K_BACK: {
    std::vector<NodeP> topo;
    std::vector<BackState> bs;
    compute_backward(a, topo, bs);
    for (size_t i = 0; i < topo.size(); ++i) {
      auto &n = topo[i];
      grad_changes(n);
      if (n->leaf) {
        if (n->gs == G_UNK) continue;
        bool was_none = n->gs == G_NONE || n->gs == G_MAYBE0;
        if (n->g.size() != n->numel()) { n->g.assign(n->numel(), 0); n->ga.assign(n->numel(), 0); n->ge.assign(n->numel(), 0); }
        bool zero = true;
        for (size_t k = 0; k < n->numel(); ++k) {
          n->g[k] += bs[i].g[k]; n->ga[k] += bs[i].ga[k]; n->ge[k] += bs[i].ge[k];
          if (bs[i].ga[k] != 0) zero = false;
        }
        n->gs = was_none && zero ? G_MAYBE0 : G_VAL;
      } else {
        bool had = n->gs != G_NONE;
        if (n != a) n->spent = true;
        if (n->retain) {
          n->gs = had && n != a ? G_UNK : G_VAL;
          n->g = bs[i].g; n->ga = bs[i].ga; n->ge = bs[i].ge;
        } else {
          n->gs = G_NONE;
          n->g.clear();
        }
      }
    }
    return;
  }
  case K_ALL: case K_QUERY: case K_AUDIT: case K_SEED: return;
  case K_DROP: case K_RELEASE: w.set(o.strand, o.a, nullptr); return;
  case K_MOVEH: w.set(o.strand, o.a, nullptr); w.set(o.strand, o.dst, E.out); return;
  case K_GRADH:
    a->gh.push_back(E.out->st);
    E.out->st->group = w.next_group++;
    E.out->st->ghandle = true;
    break;
  case K_POS: case K_RESHAPE: case K_RESHAPES: case K_RESHAPEAS:
    if (o.kind == K_POS) a->pos = E.out->pos = true;
    join_group(w, a->st, E.out->st);
    break;
  }
  w.set(o.strand, o.dst, E.out);
}

void unknown_values(World &w, int strand, const NodeP &a) {
  std::vector<const Node *> ns;
  all_nodes(w, strand, ns);
  int g = a->st->group;
  a->st->unk = true;
  for (auto n : ns) if (g && n->st->group == g) n->st->unk = true;
}

void unknown_gradients(const NodeP &root) {
  std::vector<NodeP> topo;
  graph_of(root, topo);
  for (auto &n : topo) {
    grad_changes(n);
    n->gs = G_UNK;
    if (!n->leaf) n->spent = true;
  }
}

void abandon_backward(World &, const NodeP &root) {
  std::vector<NodeP> topo;
  graph_of(root, topo);
  for (auto &n : topo) {
    grad_changes(n);
    if (n->leaf) {
      n->gs = G_MAYBE0;
      n->g.assign(n->numel(), 0); n->ga.assign(n->numel(), 0); n->ge.assign(n->numel(), 0);
    } else {
      n->spent = true;
      n->gs = G_UNK;
    }
  }
}
} // namespace md
