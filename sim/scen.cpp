// Scenarios with an oracle of their own: random draws (C12), work bounds (C13),
// long graphs on small stacks (C14) and recorded findings.
#include "exec.hpp"
#include <algorithm>
#include <cstring>
#include <memory>

namespace sc {
using namespace pg;
using rt::count;
using su::H;

static const Case *C;
static const size_t esz[] = {1, 2, 4, 8, 4, 8};

// ---- small helpers around single calls -------------------------------------------------
struct T { // owning handle
  H *h = nullptr;
  T() = default;
  explicit T(H *x) : h(x) {}
  T(T &&o) noexcept : h(o.h) { o.h = nullptr; }
  T &operator=(T &&o) noexcept { if (this != &o) { reset(); h = o.h; o.h = nullptr; } return *this; }
  T(const T &) = delete;
  ~T() { reset(); }
  void reset() { if (h) { H *x = h; h = nullptr; su::h_free(x); } }
};
static T dup(const T &t) { T r(su::h_new()); su::h_copy(r.h, t.h); return r; }

static su::Ret raw(Op o, H *a, H *b, const std::vector<H *> &l, H *out, int attempt = 0, void *blob = nullptr) {
  su::Obs q;
  return su::call(o, attempt, a, b, l, out, blob, &q);
}
static void must(const Op &o, const su::Ret &r) {
  if (r.st != su::OK) rt::fail(rt::enabled(rt::V_EXC) ? rt::V_EXC : rt::V_CRASH, "valid call " + show(o) + " failed without an injected fault: " + r.what);
}
static Op mk(int kind, int dt = 5) {
  Op o;
  o.id = rt::MAX_OPS - 2;
  o.kind = kind;
  o.dt = dt;
  o.dst = o.a = o.b = 0;
  return o;
}
static T un(int kind, const T &a, long n0 = 0, long n1 = 0) {
  Op o = mk(kind);
  o.n0 = n0; o.n1 = n1;
  T r(su::h_new());
  must(o, raw(o, a.h, nullptr, {}, r.h));
  return r;
}
static T bin(int kind, const T &a, const T &b) {
  Op o = mk(kind);
  T r(su::h_new());
  must(o, raw(o, a.h, b.h, {}, r.h));
  return r;
}
static T slice(const T &a, const char *s) {
  Op o = mk(K_SLICE);
  o.str = s;
  T r(su::h_new());
  must(o, raw(o, a.h, nullptr, {}, r.h));
  return r;
}
static T reshape(const T &a, std::vector<long long> sz) {
  Op o = mk(K_RESHAPE);
  o.sz = sz;
  T r(su::h_new());
  must(o, raw(o, a.h, nullptr, {}, r.h));
  return r;
}
static T to(const T &a, int dt) {
  Op o = mk(K_TYPE, dt);
  T r(su::h_new());
  must(o, raw(o, a.h, nullptr, {}, r.h));
  return r;
}
static T cat(const std::vector<const T *> &l, long dim) {
  Op o = mk(K_CAT);
  o.n0 = dim;
  std::vector<H *> hs;
  for (auto t : l) hs.push_back(t->h);
  T r(su::h_new());
  must(o, raw(o, nullptr, nullptr, hs, r.h));
  return r;
}
static T fill(std::vector<long long> sz, double v, int dt) {
  Op o = mk(K_FULLD, dt);
  o.sz = sz;
  o.val = v;
  T r(su::h_new());
  must(o, raw(o, nullptr, nullptr, {}, r.h));
  return r;
}
static T blob(std::vector<long long> sz, const std::vector<double> &v, int dt) {
  Op o = mk(K_BLOB, dt);
  o.sz = sz;
  void *p = rt::caller_alloc(v.size() * esz[dt]);
  for (size_t i = 0; i < v.size(); ++i) if (dt == 4) ((float *)p)[i] = (float)v[i]; else ((double *)p)[i] = v[i];
  T r(su::h_new());
  auto x = raw(o, nullptr, nullptr, {}, r.h, 0, p);
  rt::caller_free(p);
  must(o, x);
  return r;
}
static void req(const T &a) { Op o = mk(K_REQ); o.n0 = 1; must(o, raw(o, a.h, nullptr, {}, nullptr)); }
static void retain(const T &a) { Op o = mk(K_RETAIN); o.n0 = 1; must(o, raw(o, a.h, nullptr, {}, nullptr)); }
static void back(const T &a) { Op o = mk(K_BACK); must(o, raw(o, a.h, nullptr, {}, nullptr)); }
static std::string text(const T &a) {
  su::Obs o;
  auto r = su::observe(a.h, o);
  return r.st == su::OK ? o.s : std::string("?") + r.what;
}
static std::string check_text(const std::string &s, std::vector<size_t> sz, int dt, const std::vector<md::ld> &v, md::ld rel) {
  std::vector<md::ld> tol;
  for (auto x : v) tol.push_back(1e-6L + rel * std::fabs(x));
  return ex::compare_text(s, sz, dt, v, tol);
}

// ---- C12: draws ---------------------------------------------------------------------------
struct Draw {
  const Op *o;
  std::string s;      // what was drawn
  bool refused = false;
  uint64_t inv = 0, ret = 0;
};
struct Draws {
  std::vector<std::vector<std::vector<Draw>>> d; // [phase][strand]
  uint64_t clock = 0;
  std::vector<int> att;
  std::vector<T> tmpl; // by operation index: template for randn_like
};
static Draws *D;

// a tensor of the size and type to be drawn: as created, or a view of a larger one
static T template_of(const Op &o) {
  auto zeros = [&](std::vector<long long> sz) {
    Op z = mk(K_ZEROS, o.dt);
    z.sz = sz;
    T r(su::h_new());
    must(z, raw(z, nullptr, nullptr, {}, r.h));
    return r;
  };
  size_t rk = o.sz.size();
  switch (o.kind == K_RANDLIKE ? o.n0 : 0) {
  case 1: if (rk >= 2) { auto s = o.sz; std::swap(s[0], s[rk - 1]); return un(K_TRANS, zeros(s), 0, (long)rk - 1); } break;
  case 2: if (rk >= 1) { auto s = o.sz; s[0] = s[0] * 2 + 1; return slice(zeros(s), ("1:" + std::to_string(1 + 2 * o.sz[0]) + ":2").c_str()); } break;
  case 3: if (rk >= 1) { auto s = o.sz; s[rk - 1] += 3; std::string x; for (size_t i = 0; i + 1 < rk; ++i) x += ":,"; return slice(zeros(s), (x + "2:-1").c_str()); } break;
  case 4: if (rk >= 1 && o.sz[0] > 0) return slice(zeros(o.sz), "::-1"); break;
  case 5: return un(K_DETACH, zeros(o.sz));
  case 6: { auto s = o.sz; s.insert(s.begin(), 3); return slice(zeros(s), "1"); }
  }
  return zeros(o.sz);
}
// the same draw, asked for by size and type
static Op plain(const Op &o) {
  Op p = o;
  p.kind = K_RANDN;
  return p;
}
static std::string shape_check(const Op &o, H *h) {
  su::Obs ob;
  auto r = su::observe(h, ob);
  if (r.st != su::OK) return std::string("cannot be printed: ") + r.what;
  std::vector<size_t> sz(o.sz.begin(), o.sz.end());
  if (ob.sz != sz) return "has another shape than requested";
  if (ob.dt != o.dt) return "has another type than requested";
  std::vector<md::ld> v;
  std::string err;
  if (!ex::parse_text(ob.s, sz, o.dt, v, err)) return "prints as " + ob.s.substr(0, 100) + " (" + err + ")";
  for (auto x : v) if (!(std::fabs(x) < 20)) return "holds an element that is not a plausible normal number: " + ob.s.substr(0, 100);
  return "";
}
static bool draw_once(const Op &o, H *tmpl, int attempt, std::string &s, su::Ret &r) {
  T out(su::h_new());
  r = raw(o, tmpl, nullptr, {}, out.h, attempt);
  if (r.st != su::OK) return false;
  auto e = shape_check(o, out.h);
  if (!e.empty()) rt::violation(rt::V_VALUE, "call " + show(o) + ": the result " + e);
  s = text(out);
  return true;
}
static void do_draw(const Op &o, H *tmpl, Draw &d, int *att) {
  bool valid = o.dt >= 4;
  d.o = &o;
  d.inv = ++D->clock;
  count(rt::N_OPS);
  count(rt::N_RANDN);
  if (!valid) count(rt::N_INVALID);
  for (int tries = 0;; ++tries) {
    su::Ret r;
    bool ok = draw_once(o, tmpl, att ? (*att)++ : 1 << 20, d.s, r);
    bool fired = rt::fault_fired();
    if (ok) {
      if (!valid) { rt::violation(rt::V_ACCEPT, "call " + show(o) + " asks for random integers but was not refused"); d.refused = true; }
      break;
    }
    count(rt::N_FAILED_OPS);
    if (r.st == su::OTHEREXC) rt::violation(rt::V_EXC, "call " + show(o) + " ended in " + r.what);
    if (!valid) { d.refused = true; break; }
    if (!fired) { rt::violation(rt::V_EXC, "call " + show(o) + " is valid and no fault was injected, but it failed: " + r.what); d.refused = true; break; }
    count(rt::N_RETRIES);
    if (tries > 400) rt::fail(rt::V_HARNESS, "too many retries");
  }
  d.ret = ++D->clock;
  rt::log_obs(o.id, d.s);
}
static void draws_body(int tid, void *) {
  for (int p = 0; p < C->phases; ++p) {
    int strand = (tid - 1 + p) % C->strands;
    for (auto &d : D->d[p][strand]) {
      const Op &o = *d.o;
      rt::op_begin(o.id);
      do_draw(o, D->tmpl[o.id].h, d, &D->att[o.id]);
    }
    if (p + 1 < C->phases) rt::barrier(p % 60, C->strands);
  }
}
// does some one-at-a-time order of the draws, starting in the current state of the engine, give these values?
static bool lin(std::vector<std::vector<Draw *>> &q, std::vector<size_t> &pos, size_t left, long &budget) {
  if (!left) return true;
  if (--budget < 0) return true; // not decided
  uint64_t first_ret = ~0ull;
  for (size_t s = 0; s < q.size(); ++s) for (size_t i = pos[s]; i < q[s].size(); ++i) first_ret = std::min(first_ret, q[s][i]->ret);
  void *save = su::rng_save();
  bool ok = false;
  for (size_t s = 0; s < q.size() && !ok; ++s) {
    if (pos[s] == q[s].size()) continue;
    Draw *d = q[s][pos[s]];
    if (d->inv > first_ret) continue; // some pending draw had returned before this one began
    std::string t;
    su::Ret r;
    su::rng_restore(save);
    if (!draw_once(plain(*d->o), nullptr, 1 << 20, t, r)) continue;
    if (t != d->s) continue;
    ++pos[s];
    ok = lin(q, pos, left - 1, budget);
    if (!ok) --pos[s];
  }
  su::rng_discard(save);
  return ok;
}
static void draws(const Case &c) {
  Draws dd;
  D = &dd;
  dd.att.assign(rt::MAX_OPS, 0);
  dd.tmpl.resize(rt::MAX_OPS);
  dd.d.assign(c.phases, std::vector<std::vector<Draw>>(std::max(1, c.strands)));
  rt::op_begin(rt::MAX_OPS - 2);
  for (auto &o : c.ops) {
    if (o.strand < 0 || o.strand >= c.strands || o.phase >= c.phases || (o.kind != K_RANDN && o.kind != K_RANDLIKE)) continue;
    Draw d;
    d.o = &o;
    dd.d[o.phase][o.strand].push_back(d);
    dd.tmpl[o.id] = template_of(o);
  }
  unsigned long seed = (unsigned long)c.P("seed", 1);
  su::seed(seed);
  rt::run_callers(c.strands, draws_body, nullptr);
  rt::op_begin(rt::MAX_OPS - 2);
  // each phase: draws linearize; phases are separated by barriers
  if (su::have_rng()) {
    su::seed(seed);
    for (int p = 0; p < c.phases; ++p) {
      std::vector<std::vector<Draw *>> q(c.strands);
      std::vector<size_t> pos(c.strands, 0);
      size_t n = 0;
      for (int s = 0; s < c.strands; ++s)
        for (auto &d : dd.d[p][s]) if (!d.refused) { q[s].push_back(&d); ++n; }
      long budget = 20000;
      if (!lin(q, pos, n, budget)) {
        std::string m;
        for (auto &l : q) for (auto *d : l) if (m.size() < 700) m += "\n  strand " + std::to_string(d->o->strand) + ": " + show(*d->o) + " -> " + d->s.substr(0, 90);
        rt::violation(rt::V_RNG, "after seeding with " + std::to_string(seed) + ", the draws of phase " + std::to_string(p) + " equal those of no one-at-a-time order:" + m);
        return;
      }
      if (budget < 0) return; // too many orders to decide
      // `lin` leaves the engine behind the last draw of the order it found
    }
    if (c.P("reseed")) {
      auto all = [&](std::vector<std::string> &out) {
        for (auto &ph : dd.d) for (auto &st : ph) for (auto &d : st) {
          std::string s;
          su::Ret r;
          if (draw_once(*d.o, dd.tmpl[d.o->id].h, 1 << 20, s, r)) out.push_back(s);
          else out.push_back("-");
        }
      };
      std::vector<std::string> a, b;
      su::seed(seed + 1);
      all(a);
      // other draws in between, an odd number of them
      T x(su::h_new());
      Op o = mk(K_RANDN, 5);
      o.sz = {3};
      raw(o, nullptr, nullptr, {}, x.h, 1 << 20);
      su::seed(seed + 1);
      all(b);
      for (size_t i = 0; i < a.size(); ++i)
        if (a[i] != b[i]) {
          rt::violation(rt::V_RNG, "seeding with " + std::to_string(seed + 1) + " twice and drawing the same tensors gives " + a[i].substr(0, 150) + " the first time and " + b[i].substr(0, 150) + " the second");
          return;
        }
      // another seed gives other draws
      std::vector<std::string> e;
      su::seed(seed + 77);
      all(e);
      size_t nonempty = 0, same = 0;
      for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].find('.') == std::string::npos) continue;
        ++nonempty;
        same += a[i] == e[i];
      }
      if (nonempty >= 3 && same == nonempty) rt::violation(rt::V_RNG, "the draws do not depend on the seed");
    }
  }
  // every value is handed out once: no three neighbouring values turn up twice
  std::vector<std::string> win;
  for (auto &ph : dd.d) for (auto &st : ph) for (auto &d : st) {
    if (d.refused) continue;
    std::vector<std::string> n;
    size_t i = 0;
    while (i < d.s.size()) {
      size_t b = d.s.find_first_not_of("[], ", i);
      if (b == std::string::npos) break;
      size_t e = d.s.find_first_of("[], ", b);
      if (e == std::string::npos) e = d.s.size();
      n.push_back(d.s.substr(b, e - b));
      i = e;
    }
    for (size_t k = 0; k + 3 <= n.size(); ++k) win.push_back(n[k] + " " + n[k + 1] + " " + n[k + 2]);
  }
  std::sort(win.begin(), win.end());
  for (size_t i = 1; i < win.size(); ++i)
    if (win[i] == win[i - 1]) { rt::violation(rt::V_RNG, "the values " + win[i] + " were handed out twice"); return; }
  std::vector<std::string> seen;
  for (auto &ph : dd.d) for (auto &st : ph) for (auto &d : st) if (!d.refused && d.s.size() > 30 && std::count(d.s.begin(), d.s.end(), '.') >= 3) seen.push_back(d.s);
  std::sort(seen.begin(), seen.end());
  for (size_t i = 1; i < seen.size(); ++i)
    if (seen[i] == seen[i - 1]) { rt::violation(rt::V_RNG, "two draws are identical: " + seen[i].substr(0, 200)); return; }
}

// ---- C13: work bounds ------------------------------------------------------------------------
struct Work { uint64_t build = 0, back = 0, drop = 0; };

static Work scale_once(const Case &c, long n) {
  Work w;
  long shape = c.P("shape"), el = c.P("el", 1), var = c.P("var");
  int dt = (int)c.P("dt", 5);
  rt::op_begin(1);
  uint64_t t0 = rt::my_steps();
  std::vector<T> keep;
  T x = fill({el}, 0.5, dt), k = fill({el}, 0.5, dt), k1 = fill({1}, 0.25, dt);
  req(x);
  T a = dup(x), b = dup(x), d = dup(x), loss;
  bool ret = var & 1, hold = var & 2;
  auto note = [&](const T &t, long i) { if (ret && i % 3 == 0) retain(t); if (hold) keep.push_back(dup(t)); count(rt::N_NODES); };
  switch (shape) {
  case 0: for (long i = 0; i < n; ++i) { a = bin(var & 4 ? K_ADD : K_SUB, a, a); note(a, i); } break;
  case 1: for (long i = 0; i < n; ++i) { T t = bin(var & 4 ? K_ADD : K_MUL, a, b); b = std::move(a); a = std::move(t); note(a, i); } break;
  case 2: for (long i = 0; i < n; ++i) { T p = bin(K_MUL, a, k), q = bin(K_ADD, a, k); a = bin(K_ADD, p, q); note(a, i); } break;
  case 3: for (long i = 0; i < n; ++i) { a = bin(i & 1 ? K_ADD : K_MUL, a, i & 2 ? k : k1); note(a, i); } break;
  case 4: for (long i = 0; i < n; ++i) { T p = bin(K_MUL, x, k); a = bin(K_ADD, a, p); note(a, i); } break;
  case 5: {
    std::vector<T> ts;
    std::vector<const T *> l;
    for (long i = 0; i < n; ++i) ts.push_back(var & 4 ? bin(K_MUL, x, k) : dup(x));
    for (auto &t : ts) l.push_back(&t);
    a = cat(l, 0);
    note(a, 0);
    break;
  }
  case 6: {
    std::vector<T> ts;
    for (long i = 0; i < n; ++i) { T l = fill({el}, 0.25, dt); if (i % 2 == 0) req(l); ts.push_back(bin(K_ADD, l, x)); }
    while (ts.size() > 1) {
      std::vector<T> nx;
      for (size_t i = 0; i + 1 < ts.size(); i += 2) nx.push_back(bin(K_ADD, ts[i], ts[i + 1]));
      if (ts.size() & 1) nx.push_back(std::move(ts.back()));
      ts = std::move(nx);
    }
    a = std::move(ts[0]);
    break;
  }
  case 7: for (long i = 0; i < n; ++i) { T p = slice(a, "::-1"), q = slice(a, ":"); a = bin(K_ADD, p, q); note(a, i); } break;
  case 8: for (long i = 0; i < n; ++i) { T p = bin(K_ADD, a, b), q = bin(K_SUB, a, b); a = std::move(p); b = std::move(q); note(a, i); } a = bin(K_ADD, a, b); break;
  case 9: for (long i = 0; i < n; ++i) { T p = to(a, 4 + (int)(i & 1)), q = i & 2 ? un(K_CLONE, a) : un(K_ABS, a); a = bin(K_ADD, p, q); note(a, i); } break;
  case 10: break;
  case 11:
    for (long i = 0; i < n; ++i) {
      T p = bin(K_ADD, a, b), q = bin(K_MUL, b, d), r = bin(K_SUB, d, a);
      T p2 = bin(K_ADD, p, q);
      a = std::move(p2); b = std::move(q); d = std::move(r);
      note(a, i);
    }
    a = bin(K_ADD, bin(K_ADD, a, b), d);
    break;
  }
  if (shape != 10) loss = un(K_SUM, a);
  w.build = rt::my_steps() - t0;
  rt::op_begin(2);
  t0 = rt::my_steps();
  count(rt::N_BACKWARD);
  if (shape == 10) {
    for (long i = 0; i < n; ++i) { T s = un(K_SUM, bin(K_MUL, bin(K_ADD, x, k), k)); back(s); }
  } else {
    back(loss);
    if (var & 8) back(loss);
  }
  w.back = rt::my_steps() - t0;
  rt::op_begin(3);
  t0 = rt::my_steps();
  loss.reset(); a.reset(); b.reset(); d.reset(); x.reset(); k.reset(); k1.reset();
  keep.clear();
  w.drop = rt::my_steps() - t0;
  return w;
}
static Work wres[rt::MAXT][2];
static void scale_body(int tid, void *) {
  long n = C->P("n", 24);
  wres[tid][0] = scale_once(*C, n);
  wres[tid][1] = scale_once(*C, 4 * n);
}
static const char *shape_names[] = {"x = x op x", "x = x op its predecessor", "diamonds", "chain", "one leaf used in every step", "wide concatenation", "balanced tree", "two views of the predecessor added",
                                    "two interleaved lanes", "conversion and copy added", "many small graphs over one leaf", "three interleaved lanes"};
static void scale(const Case &c) {
  rt::run_callers(c.strands, scale_body, nullptr);
  long n = c.P("n", 24);
  rt::log_obs(1, std::to_string(wres[1][0].back) + "/" + std::to_string(wres[1][1].back));
  auto judge = [&](const char *what, uint64_t a, uint64_t b) {
    // linear work would be 4 times as much; quadratic work 16 times
    if (b > 7 * a + 4000)
      rt::violation(rt::V_HANG, std::string(what) + " a graph of shape '" + shape_names[c.P("shape") % 12] + "' takes " + std::to_string(a) + " steps with " + std::to_string(n) + " levels but " +
                                    std::to_string(b) + " steps with " + std::to_string(4 * n) + " levels");
  };
  for (int t = 1; t <= c.strands; ++t) {
    judge("differentiating", wres[t][0].back, wres[t][1].back);
    judge("building", wres[t][0].build, wres[t][1].build);
    judge("dropping", wres[t][0].drop, wres[t][1].drop);
  }
}

static uint64_t op_once(const Case &c, long n) {
  // one call on tensors of about n elements (the last dimension grows)
  long op = c.P("op"), var = c.P("var");
  int dt = (int)c.P("dt", 5);
  long rows = 2 + var % 3;
  std::vector<long long> sz = {rows, n};
  rt::op_begin(1);
  T a = fill(sz, 1.5, dt), b = fill(var & 1 ? std::vector<long long>{n} : sz, 0.75, dt);
  if (var & 4) { a = un(K_TRANS, fill({n, rows}, 1.5, dt), 0, 1); }
  bool g = (var & 8) && op < 20 && op != 16;
  if (g && !(var & 4)) req(a);
  rt::op_begin(2);
  uint64_t t0 = rt::my_steps();
  switch (op) {
  case 0: case 1: case 2: case 3: bin(K_ADD + (int)op, a, b); break;
  case 4: case 5: bin(op == 4 ? K_LT : K_NE, a, b); break;
  case 6: un(K_SUM, a); break;
  case 7: un(K_MEAN, a); break;
  case 8: un(K_MAX, a); break;
  case 9: un(K_MIN, a); break;
  case 10: un(K_ABS, a); break;
  case 11: slice(a, "::-1, 1:"); break;
  case 12: reshape(a, {-1, rows}); break;
  case 13: un(K_CLONE, a); break;
  case 14: un(K_CONTIG, a); break;
  case 15: to(a, 9 - dt); break;
  case 16: to(a, (int)(var % 4)); break;
  case 17: { T d = un(K_CLONE, a); cat({&a, &d, &a}, var & 1); break; }
  case 18: { Op o = mk(K_ALL); must(o, raw(o, a.h, nullptr, {}, nullptr)); break; }
  case 19: { T s = un(K_SUM, bin(K_MUL, a, b)); if (g && !(var & 4)) back(s); break; }
  case 20: { Op o = mk(K_IADD); must(o, raw(o, a.h, b.h, {}, nullptr)); break; }
  case 21: text(a); break;
  case 22: { Op o = mk(K_RANDN, dt); o.sz = sz; T r(su::h_new()); must(o, raw(o, nullptr, nullptr, {}, r.h)); break; }
  case 23: blob(sz, std::vector<double>(rows * n, 1.0), dt); break;
  case 24: { // slice strings of any length and content
    static const char *pieces[] = {"\\", " ", "0", "-", ":", "a", "\\:", "1\t", "%", "-\\", "[", ".5", "\n", "'", "+"};
    std::string s = var & 1 ? "0:" : "";
    while ((long)s.size() < n) s += pieces[(var / 2) % 15];
    if (var & 2) s += ":";
    Op o = mk(K_SLICE);
    o.str = s;
    T r(su::h_new());
    raw(o, a.h, nullptr, {}, r.h);
    break;
  }
  }
  return rt::my_steps() - t0;
}
static uint64_t ores[2];
static void op_body(int, void *) {
  long n = C->P("n", 30), f = C->P("fac", 4);
  ores[0] = op_once(*C, n);
  ores[1] = op_once(*C, n * f);
}
static void opscale(const Case &c) {
  rt::run_callers(1, op_body, nullptr);
  long f = c.P("fac", 4);
  rt::log_obs(1, std::to_string(ores[0]) + "/" + std::to_string(ores[1]));
  if (ores[1] > (uint64_t)(f * 1.75 * ores[0]) + 3000)
    rt::violation(rt::V_HANG, "call kind " + std::to_string(c.P("op")) + " takes " + std::to_string(ores[0]) + " steps but " + std::to_string(ores[1]) + " steps on tensors " + std::to_string(f) + " times as large");
}

static uint64_t pres[2][rt::MAXT];
static int prun;
static const T *PS, *PS2; // shared by the callers
static void prog_once(const Case &c, int strand) {
  long n = c.P("n", 8), var = c.P("var");
  rt::op_begin(10 + strand);
  T x = fill({3, 2}, 0.5 + strand, 5), k = fill({2}, 0.25, 4);
  req(x);
  T a = dup(x);
  for (long i = 0; i < n; ++i) {
    rt::op_begin(20 + (int)(i % 100));
    switch ((i * (1 + var % 5) + var + strand * (1 + var % 3)) % (c.P("fails") ? 15 : 12)) {
    case 12: { // requests that are refused
      T r(su::h_new());
      Op o = mk(K_BACK);
      switch ((i + var) % 4) {
      case 0: raw(o, a.h, nullptr, {}, nullptr); break;
      case 1: o = mk(K_RANDN, 2); o.sz = {2}; raw(o, nullptr, nullptr, {}, r.h); break;
      case 2: o = mk(K_SLICE); o.str = "7"; raw(o, a.h, nullptr, {}, r.h); break;
      case 3: { T y = fill({5}, 1, 5); o = mk(K_ADD); raw(o, a.h, y.h, {}, r.h); break; }
      }
      break;
    }
    case 13: { // memory runs out inside backward; the graph is built and differentiated again
      for (int at = 0; at < 2; ++at) {
        T s = un(K_SUM, bin(K_SUB, bin(K_MUL, a, x), bin(K_ADD, a, a)));
        if (!at) rt::op_begin(300 + (int)i % 100);
        Op o = mk(K_BACK);
        auto q = raw(o, s.h, nullptr, {}, nullptr);
        rt::op_begin(10 + strand);
        if (q.st == su::OK) break;
        if (at) must(o, q);
      }
      break;
    }
    case 14: { // memory runs out inside a draw or a sum
      for (int at = 0; at < 2; ++at) {
        T r(su::h_new());
        if (!at) rt::op_begin(300 + (int)i % 100);
        Op o = mk((i + var) % 2 ? K_RANDN : K_CLONE, 4 + (int)(var % 2));
        if (o.kind == K_RANDN) o.sz = {3};
        auto q = raw(o, o.kind == K_RANDN ? nullptr : a.h, nullptr, {}, r.h);
        rt::op_begin(10 + strand);
        if (q.st == su::OK) break;
        if (at) must(o, q);
      }
      break;
    }
    case 6: { Op o = mk(K_RANDN, 4); o.sz = {3}; T r(su::h_new()); must(o, raw(o, nullptr, nullptr, {}, r.h)); break; }
    case 7: { T r = un(K_RANDLIKE, a); text(r); break; }
    case 8: { T r = un(K_RANDLIKE, *PS); a = bin(K_ADD, a, bin(K_SUB, r, r)); break; }
    case 9: a = bin(K_MUL, a, slice(*PS, var % 2 ? ":" : "::-1")); break;
    case 10: { T r = cat({&*PS, &k}, 0); T t = to(r, 5); text(t); break; }
    case 11: { T r = un(K_ABS, reshape(a, {-1})); T t = bin(K_LT, r, *PS2); text(t); break; }
    case 0: a = bin(K_MUL, a, k); break;
    case 1: a = bin(K_ADD, a, a); break;
    case 2: a = un(K_CLONE, slice(a, "::-1")); break;
    case 3: { T s = un(K_SUM, bin(K_MUL, a, x)); back(s); break; }
    case 4: text(a); break;
    case 5: { Op o = mk(K_RANDN, 5); o.sz = {4}; T r(su::h_new()); must(o, raw(o, nullptr, nullptr, {}, r.h)); break; }
    }
  }
  T s = un(K_MEAN, a);
  back(s);
}
static void prog_body(int tid, void *) {
  int strand = prun < 0 ? tid - 1 : prun;
  uint64_t t0 = rt::my_steps();
  prog_once(*C, strand);
  pres[prun < 0][strand] = rt::my_steps() - t0;
}
static void progress(const Case &c) {
  su::seed(99);
  rt::op_begin(5);
  T ps = fill({2}, 0.5, c.P("var") % 2 ? 4 : 5), ps2 = fill({1}, 0.75, 4);
  PS = &ps;
  PS2 = &ps2;
  for (int s = 0; s < c.strands; ++s) { prun = s; rt::run_callers(1, prog_body, nullptr); }
  prun = -1;
  rt::run_callers(c.strands, prog_body, nullptr);
  for (int s = 0; s < c.strands; ++s)
    if (pres[1][s] > 3 * pres[0][s] + 5000)
      rt::violation(rt::V_HANG, "a program that takes " + std::to_string(pres[0][s]) + " steps alone takes " + std::to_string(pres[1][s]) + " steps of its own next to " + std::to_string(c.strands - 1) + " others");
}

// ---- C14: long graphs ---------------------------------------------------------------------------
struct Chain {
  T x, loss;
  std::vector<T> held;
  std::vector<double> held_d; // derivative of the loss by the held results, per element
  std::vector<char> held_ret;
  double v0 = 0;
  std::vector<double> leaf; // initial leaf values
  double dleaf = 1;
  bool reversed = false;
};
static Chain *CH;

static void chain_build(const Case &c) {
  Chain &h = *CH;
  long n = c.P("n", 6000), link = c.P("link"), el = c.P("el", 1), var = c.P("var");
  rt::Rng r((uint64_t)var * 97 + (uint64_t)link);
  rt::op_begin(1);
  std::vector<double> v(el);
  for (auto &q : v) q = 0.5 + (double)r.below(6) / 4;
  h.leaf = v;
  h.x = blob({1, el}, v, 5);
  req(h.x);
  T k = fill({1}, 0.0, 5), one = fill({el}, 1.0, 5), neg = fill({1}, -1.0, 4);
  T a = dup(h.x), prev = dup(h.x);
  double d = 1, dprev = 1; // derivative of a (and its predecessor) by x, the same for every element
  bool pos = true, rev = false; // sign of a's elements; order of elements
  bool flat = false; // shape {el} instead of {1,el}
  int dt = 5;
  // derivative of the loss by a held result: total / derivative of that result (links are linear with slope +-1)
  bool hold = c.P("hold") && link != 10 && link != 12;
  for (long i = 0; i < n; ++i) {
    long l = link == 11 ? (long)r.below(10) : link;
    if ((i & 1023) == 0) rt::op_begin(2);
    switch (l) {
    case 0: a = (i + var) % 2 ? bin(K_ADD, a, k) : bin(K_ADD, k, a); break;
    case 1: if (i % 3 == 0) { a = bin(K_MUL, a, neg); d = -d; pos = !pos; } else a = bin(K_MUL, one, a); break;
    case 2: if (i % 3 == 0) { a = bin(K_SUB, k, a); d = -d; pos = !pos; } else a = bin(K_SUB, a, k); break;
    case 3: if (i % 4 == 0) { a = bin(K_DIV, a, neg); d = -d; pos = !pos; } else a = bin(K_DIV, a, one); break;
    case 4: a = un(K_ABS, a); if (!pos) d = -d; pos = true; if (i % 2) { a = un(K_NEG, a); d = -d; pos = false; } break;
    case 5: if (i % 2) { a = slice(a, flat ? "::-1" : ":, ::-1"); rev = !rev; } else a = slice(a, ":"); break;
    case 6: if (flat) a = reshape(a, {1, el}), flat = false; a = un(i % 2 ? K_TRANS : K_TRANSS, un(K_TRANS, a, 0, 1), 0, 1); break;
    case 7: if (flat) a = reshape(a, {1, -1}); else a = reshape(a, {-1}); flat = !flat; break;
    case 8: a = un(i % 2 ? K_CLONE : K_CONTIG, a); break;
    case 9: dt = dt == 4 ? 5 : 4; a = to(a, dt); break;
    case 10: { T s = bin(K_MUL, h.x, i % 2 ? one : neg); a = bin(K_ADD, a, s); d += i % 2 ? 1 : -1; pos = true; break; }
    case 12: { T s = bin(K_ADD, a, prev); T t = bin(K_MUL, s, fill({1}, 0.5, 5)); double nd = (d + dprev) / 2; prev = std::move(a); a = std::move(t); dprev = d; d = nd; break; }
    }
    count(rt::N_NODES);
    if (c.P("retain")) retain(a);
    if (hold && i % (1 + n / 40) == 0) {
      h.held.push_back(dup(a));
      h.held_d.push_back(d);
      bool rt_ = var % 3 == 0;
      if (rt_) retain(a);
      h.held_ret.push_back(rt_);
    }
  }
  h.dleaf = d;
  rt::op_begin(3);
  h.loss = un(K_SUM, a);
  if (c.P("retain")) retain(h.loss);
  if (c.P("hold") && (var & 4)) h.held.push_back(std::move(a)), h.held_d.push_back(d), h.held_ret.push_back(0);
}
static void chain_back(const Case &c) {
  Chain &h = *CH;
  long el = c.P("el", 1);
  Op o = mk(K_BACK);
  o.id = 901;
  rt::op_begin(901);
  count(rt::N_BACKWARD);
  auto r = raw(o, h.loss.h, nullptr, {}, nullptr, 0);
  if (r.st != su::OK) {
    if (!rt::fault_fired()) must(o, r);
    count(rt::N_BACK_FAILED);
    count(rt::N_FAILED_OPS);
    return; // dropped as it is
  }
  su::Obs ob;
  bool none;
  auto q = su::observe_grad(h.x.h, ob, none);
  if (q.st != su::OK || none) { rt::violation(rt::V_GRAD, "the leaf has no gradient after differentiating a graph of " + std::to_string(c.P("n")) + " links"); return; }
  std::vector<md::ld> g(el, (md::ld)h.dleaf);
  auto e = check_text(ob.s, {1, (size_t)el}, 5, g, 1e-6L);
  if (!e.empty()) rt::violation(rt::V_GRAD, "after differentiating a graph of " + std::to_string(c.P("n")) + " links, the gradient of the leaf: " + e);
  count(rt::N_GRADS_CHECKED);
  // the values are as before
  std::vector<md::ld> lv(h.leaf.begin(), h.leaf.end());
  e = check_text(text(h.x), {1, (size_t)el}, 5, lv, 1e-9L);
  if (!e.empty()) rt::violation(rt::V_VALUE, "the leaf after backward: " + e);
}
static void chain_drop(const Case &c, bool other) {
  Chain &h = *CH;
  long how = c.P("drop");
  rt::Rng r((uint64_t)c.P("var") + 11);
  (void)other;
  int att = 0;
  auto kill = [&](T &t) {
    if (!t.h) return;
    rt::op_begin(900);
    H *x = t.h;
    t.h = nullptr;
    count(rt::N_DROPS);
    su::drop_armed(x, att);
  };
  switch (how) {
  case 0: case 1: kill(h.loss); for (auto &t : h.held) kill(t); kill(h.x); break;
  case 2: for (auto &t : h.held) kill(t); kill(h.x); kill(h.loss); break;
  case 3: kill(h.loss); for (size_t i = h.held.size(); i > 0; --i) kill(h.held[i - 1]); kill(h.x); break;
  case 4: {
    kill(h.x);
    for (size_t i = h.held.size(); i > 1; --i) std::swap(h.held[i - 1], h.held[r.below(i)]);
    size_t half = h.held.size() / 2;
    for (size_t i = 0; i < half; ++i) kill(h.held[i]);
    kill(h.loss);
    for (auto &t : h.held) kill(t);
    break;
  }
  case 5: { // the handle gets a new value
    T k = fill({1}, 1.0, 5);
    rt::op_begin(902);
    su::h_copy(h.loss.h, k.h);
    for (auto &t : h.held) su::h_copy(t.h, k.h);
    kill(h.loss);
    for (auto &t : h.held) kill(t);
    kill(h.x);
    break;
  }
  case 6: { // release()
    kill(h.x);
    Op o = mk(K_RELEASE);
    o.id = 900;
    rt::op_begin(900);
    raw(o, h.loss.h, nullptr, {}, nullptr, att);
    h.loss.reset();
    for (auto &t : h.held) kill(t);
    break;
  }
  default: { // moved from
    T k(su::h_new());
    rt::op_begin(903);
    su::h_take(k.h, h.loss.h);
    h.loss.reset();
    T z = fill({1}, 1.0, 5);
    su::h_take(k.h, z.h); // move assignment drops the graph
    for (auto &t : h.held) kill(t);
    kill(h.x);
  }
  }
  h.loss.reset();
  h.held.clear();
  h.x.reset();
}
static void chain_body1(int, void *) {
  chain_build(*C);
  if (C->P("back")) chain_back(*C);
  if (C->P("drop") != 1) chain_drop(*C, false);
}
static void chain_body2(int, void *) { chain_drop(*C, true); }
static void chain(const Case &c) {
  Chain ch;
  CH = &ch;
  size_t b0 = rt::live_bytes();
  rt::run_callers(1, chain_body1, nullptr);
  if (c.P("drop") == 1) rt::run_callers(1, chain_body2, nullptr);
  rt::op_begin(rt::MAX_OPS - 2);
  size_t left = rt::live_bytes() - std::min(b0, rt::live_bytes());
  if (left > 200000) rt::violation(rt::V_VALUE, "after dropping every handle to a graph of " + std::to_string(c.P("n")) + " links, " + std::to_string(left) + " bytes are still in use");
  su::Obs ob;
}

// ---- C02, C10: many uses of one tensor, many differentiations ------------------------------------
static void zero(const T &a) { Op o = mk(K_ZGRAD); must(o, raw(o, a.h, nullptr, {}, nullptr)); }
static std::string grad_is(const T &x, size_t el, int dt, const std::vector<md::ld> &g) {
  su::Obs ob;
  bool none;
  auto q = su::observe_grad(x.h, ob, none);
  count(rt::N_GRADS_CHECKED);
  if (q.st != su::OK || none) return "there is no gradient";
  rt::log_obs(1, ob.s);
  return check_text(ob.s, {el}, dt, g, dt == 4 ? 1e-5L : 1e-9L);
}
static void many_body(int tid, void *) {
  const Case &c = *C;
  long kind = c.P("kind"), K = c.P("n", 260), var = c.P("var");
  rt::Rng r((uint64_t)var * 131 + (uint64_t)tid * 7);
  size_t el = 1 + r.below(3);
  int dt = 4 + (int)r.below(2);
  rt::op_begin(tid * 10 + 1);
  std::vector<double> v(el);
  for (auto &q : v) q = 0.5 + (double)r.below(8) / 4;
  T x = blob({(long long)el}, v, dt);
  req(x);
  double m = 0.25 * (double)(1 + r.below(7));
  T k = fill({}, m, 5), k2 = fill({(long long)el}, -0.5, 4);
  std::vector<md::ld> g(el, 0);
  auto expect = [&](const char *what) {
    auto e = grad_is(x, el, dt, g);
    if (!e.empty()) rt::violation(rt::V_GRAD, std::string(what) + " (" + std::to_string(K) + " times), the gradient of the leaf: " + e);
  };
  switch (kind) {
  case 0: { // one input of a concatenation many times over
    T y = var & 1 ? bin(K_MUL, x, k) : dup(x);
    std::vector<const T *> l;
    for (long i = 0; i < K; ++i) l.push_back(i % 7 == 3 ? &k2 : &y);
    T a = cat(l, 0);
    l.clear();
    rt::op_begin(tid * 10 + 2);
    count(rt::N_NODES, 3);
    back(un(K_SUM, a));
    long uses = K - (K + 3) / 7;
    for (auto &q : g) q = (md::ld)uses * (var & 1 ? m : 1);
    expect("after differentiating a graph that uses one tensor many times in one call");
    break;
  }
  case 1: { // one intermediate result used by many calls
    T y = bin(K_MUL, x, k), a = fill({}, 0, 5);
    md::ld s = 0;
    for (long i = 0; i < K; ++i) {
      long how = (i + var) % 3;
      T p = how == 0 ? bin(K_MUL, y, k2) : how == 1 ? bin(K_SUB, k2, y) : un(K_CLONE, y);
      s += how == 0 ? -0.5L : how == 1 ? -1 : 1;
      a = bin(K_ADD, a, p);
      count(rt::N_NODES, 2);
    }
    rt::op_begin(tid * 10 + 2);
    back(un(K_SUM, a));
    for (auto &q : g) q = s * m;
    expect("after differentiating a graph that uses one intermediate result many times");
    break;
  }
  case 2: { // many graphs, each differentiated at once
    for (long i = 0; i < K; ++i) {
      if (i % 64 == 0) rt::op_begin(tid * 10 + 3);
      T y = bin(K_MUL, x, k);
      T l = un(K_SUM, (i + var) % 5 ? dup(y) : bin(K_ADD, y, y));
      back(l);
      count(rt::N_BACKWARD);
      for (auto &q : g) q += m * ((i + var) % 5 ? 1 : 2);
      if (i == K / 3 && (var & 2)) { zero(x); for (auto &q : g) q = 0; }
      if (i % 97 == 96) expect("after differentiating small graphs one after the other");
    }
    expect("after differentiating small graphs one after the other");
    break;
  }
  case 3: { // many graphs, built first, differentiated in another order, some dropped instead
    std::vector<T> ls;
    for (long i = 0; i < K; ++i) { T y = bin(K_MUL, x, k); ls.push_back(un(K_SUM, i % 3 ? dup(y) : bin(K_MUL, y, k2))); count(rt::N_NODES, 2); }
    std::vector<size_t> ord(K);
    for (long i = 0; i < K; ++i) ord[i] = (size_t)i;
    for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
    rt::op_begin(tid * 10 + 2);
    for (size_t i : ord) {
      if (r.chance(0.1)) { ls[i].reset(); continue; }
      back(ls[i]);
      count(rt::N_BACKWARD);
      for (auto &q : g) q += i % 3 ? m : -0.5 * m;
      if (r.chance(0.5)) ls[i].reset();
    }
    expect("after differentiating graphs over one leaf in any order");
    break;
  }
  default: { // the same scalar again and again
    T l = un(K_SUM, x);
    for (long i = 0; i < K; ++i) { back(l); count(rt::N_BACKWARD); }
    for (auto &q : g) q = (md::ld)K;
    expect("after differentiating one sum again and again");
  }
  }
}
static void many(const Case &c) { rt::run_callers(c.strands, many_body, nullptr); }

// ---- C10: the recorded finding ----------------------------------------------------------------
// y = 2x; l1 = sum(y); l2 = sum(3y); both are differentiated.  dx should be 2 + 6.
static void refed_body(int, void *) {
  rt::op_begin(1);
  T x = fill({2}, 1.0, 5), two = fill({1}, 2.0, 5), three = fill({1}, 3.0, 5);
  req(x);
  T y = bin(K_MUL, x, two);
  T l1 = un(K_SUM, y), l2 = un(K_SUM, bin(K_MUL, y, three));
  back(l1);
  back(l2);
  su::Obs ob;
  bool none;
  su::observe_grad(x.h, ob, none);
  rt::log_obs(1, ob.s);
  snprintf(rt::res->note, sizeof rt::res->note, "%s", ob.s.c_str());
  if (check_text(ob.s, {2}, 5, {8, 8}, 0).empty()) { strcpy(rt::res->note, "right"); return; }
  if (check_text(ob.s, {2}, 5, {2, 2}, 0).empty()) { strcpy(rt::res->note, "known"); return; }
  rt::violation(rt::V_GRAD, "two losses over a common intermediate result, differentiated one after the other, give the leaf the gradient " + ob.s + " instead of [8, 8] (or, as recorded, [2, 2])");
}
static void refed(const Case &) { rt::run_callers(1, refed_body, nullptr); }

bool run_scenario(const Case &c) {
  C = &c;
  if (c.scen == "draws") draws(c);
  else if (c.scen == "scale") scale(c);
  else if (c.scen == "opscale") opscale(c);
  else if (c.scen == "progress") progress(c);
  else if (c.scen == "chain") chain(c);
  else if (c.scen == "many") many(c);
  else if (c.scen == "refed") refed(c);
  else return false;
  return true;
}
} // namespace sc
