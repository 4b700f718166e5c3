// Seeded generation of cases.  One integer decides the programs of all callers,
// the fault plan, the behaviour of the heap and the scheduling policy.
#include "gen.hpp"
#include "model.hpp"
#include <algorithm>
#include <cstring>

namespace gn {
using namespace pg;
using namespace md;
using rt::Rng;

uint32_t cls_mask(const std::string &p) {
  auto m = [](std::initializer_list<int> l) { uint32_t r = 0; for (int x : l) r |= 1u << x; return r; };
  const uint32_t common = m({rt::V_CRASH, rt::V_STACK, rt::V_HANG});
  using namespace rt;
  if (p == "C01") return common | m({V_VALUE, V_EXC});
  if (p == "C02") return common | m({V_GRAD, V_EXC});
  if (p == "C03") return common | m({V_RACE});
  if (p == "C04") return common | m({V_ATOMIC, V_ACCEPT, V_EXC, V_VALUE});
  if (p == "C05") return common | m({V_LEAK});
  if (p == "C06") return common | m({V_ATOMIC, V_GRAD, V_EXC});
  if (p == "C07") return common | m({V_HEAPDEP});
  if (p == "C08") return common | m({V_MEM});
  if (p == "C09") return common | m({V_VALUE, V_EXC});
  if (p == "C10") return common | m({V_GRAD, V_VALUE, V_EXC});
  if (p == "C11") return common | m({V_GRAD, V_VALUE, V_EXC, V_MEM, V_RECLAIM});
  if (p == "C12") return common | m({V_RNG, V_VALUE, V_EXC, V_ACCEPT});
  if (p == "C13") return common;
  if (p == "C14") return common | m({V_GRAD, V_EXC, V_VALUE});
  return 0xffffffffu;
}

struct Prof {
  double create = 12, like = 2, arith = 14, cmp = 4, neg = 1, pos = 0.5, reduce = 6, all = 1.5, abs = 2, slice = 8, trans = 5, reshape = 5, detach = 2, clone = 3,
         contig = 2, type = 4, cat = 4, iadd = 2, req = 3, retain = 1, back = 3, zgrad = 1, gradc = 1, gradh = 0.6, uninit = 0.15, odd = 0, fan = 0.3, copyh = 2, moveh = 1, drop = 3, release = 0.5, query = 3,
         audit = 0.3, randn = 1.5, loss = 3, invalid = 0.06, probe = 0.04, probe_back = 0;
  int strands_lo = 1, strands_hi = 3, phases_hi = 2, ops_lo = 6, ops_hi = 22, slots = 10;
  int shared_lo = 0, shared_hi = 3;
  double p_shared_use = 0.25, p_rg = 0.5, p_big = 0.02;
  bool shared_rg = false, lock_shared = false;
  bool allow_back = true;
  int audit_lo = 1, audit_hi = 1;
  int rounds = 1;
  size_t max_el = 2500;
};

struct G {
  Rng r;
  Prof p;
  Case c;
  World w;
  int next_id = 0;
  int strand = 0, phase = 0, block = -1;
  bool probe_ok = false; // a call about whose result nothing is said may be appended
  bool bigint = false; // whole numbers up to the limits of their types
  bool huge = false; // tensors of tens of thousands of elements, few calls
  int lo_slot = 0, hi_slot = 10; // destination range
  double weight_scale[K_COUNT];
  explicit G(uint64_t s) : r(s) { for (auto &x : weight_scale) x = 1; }

  int nslots() const { return p.slots; }
  NodeP at(int s) const { return w.get(strand, s); }
  int want_kind = -1, last_action = 0, fix_dt = -1;
  int rnd_dt(bool fl) { if (fix_dt >= 0 && r.chance(0.85)) return fix_dt; return fl ? (r.chance(0.6) ? 4 : 5) : (int)r.below(6); }

  std::vector<long long> shape(size_t max_el) {
    std::vector<long long> s;
    int rk = (int)r.below(100);
    if (r.chance(0.006)) rk = 7 + (int)r.below(4);
    else rk = rk < 6 ? 0 : rk < 30 ? 1 : rk < 65 ? 2 : rk < 85 ? 3 : rk < 94 ? 4 : rk < 98 ? 5 : 6;
    size_t n = 1;
    for (int i = 0; i < rk; ++i) {
      long long d = r.chance(0.03) ? 0 : r.chance(0.2) ? 1 : 1 + (long long)r.below(rk <= 2 ? 6 : rk > 6 ? 2 : 4);
      while (d > 1 && n * (size_t)d > max_el) --d;
      if (d) n *= (size_t)d;
      s.push_back(d);
    }
    return s;
  }
  std::vector<long long> big_shape() {
    if (huge) switch (r.below(6)) {
      case 0: return {(long long)(4000 + r.below(1000))};
      case 1: return {(long long)(16 + r.below(50)), (long long)(250 + r.below(50))};
      case 2: return {(long long)(65000 + r.below(3000))};
      case 3: return {(long long)(256 + r.below(8)), (long long)(256 + r.below(6))};
      case 4: return {1, (long long)(8000 + r.below(9000)), 2};
      default: return {(long long)(1020 + r.below(10)), 3, 3};
      }
    switch (r.below(5)) {
    case 0: return {(long long)(200 + r.below(1500))};
    case 1: return {(long long)(20 + r.below(40)), (long long)(20 + r.below(30))};
    case 2: return {(long long)(2 + r.below(4)), (long long)(10 + r.below(10)), (long long)(5 + r.below(10))};
    case 3: return {1, (long long)(100 + r.below(400))};
    default: return {(long long)(2 + r.below(3)), 3, (long long)(2 + r.below(4)), 2, (long long)(3 + r.below(5))};
    }
  }
  // a shape that broadcasts with `a`
  std::vector<long long> compatible(const std::vector<size_t> &a) {
    std::vector<long long> s(a.begin(), a.end());
    switch (r.below(5)) {
    case 0: break;
    case 1: for (auto &x : s) if (r.chance(0.5) && x > 0) x = 1; break;
    case 2: if (!s.empty()) s.erase(s.begin(), s.begin() + 1 + (long)r.below(s.size())); break;
    case 3: if (s.size() < 5) s.insert(s.begin(), 1 + (long long)r.below(3)); break;
    case 4: if (!s.empty()) { s.erase(s.begin(), s.begin() + (long)r.below(s.size())); for (auto &x : s) if (r.chance(0.4) && x > 0) x = 1; } break;
    }
    size_t n = 1;
    for (auto x : s) n *= (size_t)x;
    if (n > (huge ? 80000u : 3000u)) { s.assign(a.begin(), a.end()); }
    return s;
  }

  int pick_any(bool allow_shared = true) {
    if (allow_shared && !w.shared.empty() && r.chance(p.p_shared_use)) return SHARED + (int)r.below(w.shared.size());
    std::vector<int> v;
    for (int i = 0; i < nslots(); ++i) if (at(i)) v.push_back(i);
    if (v.empty()) return w.shared.empty() || !allow_shared ? -1 : SHARED + (int)r.below(w.shared.size());
    return v[r.below(v.size())];
  }
  template <class F> int pick_if(F f, bool allow_shared = true) {
    std::vector<int> v;
    for (int i = 0; i < nslots(); ++i) if (at(i) && f(*at(i))) v.push_back(i);
    if (allow_shared) for (size_t i = 0; i < w.shared.size(); ++i) if (w.shared[i] && f(*w.shared[i])) v.push_back(SHARED + (int)i);
    return v.empty() ? -1 : v[r.below(v.size())];
  }
  int dst() {
    std::vector<int> fr;
    for (int i = lo_slot; i < hi_slot; ++i) if (!at(i)) fr.push_back(i);
    if (!fr.empty() && r.chance(0.7)) return fr[r.below(fr.size())];
    return lo_slot + (int)r.below(hi_slot - lo_slot);
  }
  Op base(int kind) {
    Op o;
    o.kind = kind;
    o.strand = strand;
    o.phase = phase;
    o.block = block;
    return o;
  }
  // try to append; wanted: which outcome is acceptable
  bool emit(Op o, bool allow_invalid = false) {
    if (next_id >= rt::MAX_OPS - 8 || (want_kind >= 0 && o.kind != want_kind)) return false;
    o.id = next_id;
    Eff e = eval(w, o);
    if (e.o == UNSPEC) {
      if (!probe_ok || !e.probe || (e.garbage && c.prop == "C07")) return false;
      if (!r.chance(o.kind == K_BACK || o.kind == K_IADD ? p.probe_back : o.kind == K_SLICE && !e.garbage ? 0.5 : p.probe)) return false;
      ++next_id;
      if (o.kind == K_BACK) unknown_gradients(w.get(strand, o.a));
      if (o.kind == K_IADD) unknown_values(w, strand, w.get(strand, o.a));
      c.ops.push_back(o);
      return true;
    }
    if (e.o == INVALID && !allow_invalid) return false;
    if (e.fuzzy && !r.chance(c.prop == "C07" ? 0.7 : 0.15)) return false;
    if (e.out && e.out->numel() > p.max_el) return false;
    ++next_id;
    commit(w, o, e);
    c.ops.push_back(o);
    return true;
  }

  Op mk_create() {
    double x = r.below(100);
    Op o = base(x < 12 ? K_ZEROS : x < 24 ? K_ONES : x < 32 ? K_FULLI : x < 42 ? K_FULLD : x < 47 ? K_EYE : x < 85 ? K_BLOB : x < 93 ? K_SCALAR : K_INIT);
    o.dst = dst();
    o.dt = bigint && r.chance(0.4) ? 2 + (int)r.below(2) : rnd_dt(r.chance(0.55));
    if (r.chance(p.p_big)) o.sz = big_shape();
    else {
      int s = r.chance(0.5) ? pick_any() : -1;
      if (s >= 0) o.sz = compatible(w.get(strand, s)->sz);
      else o.sz = shape(48);
    }
    switch (o.kind) {
    case K_FULLI:
      o.n0 = (long)r.below(15) - 7;
      if (bigint && o.dt < 4) { static const long lim[] = {127, 32767, 2147483647L, 1L << 62}; o.n0 = (lim[o.dt] >> r.below(3)) - (long)r.below(3); if (r.chance(0.5)) o.n0 = -o.n0; }
      break;
    case K_FULLD: o.val = ((double)r.below(29) - 14) / 4; break;
    case K_EYE:
      o.sz.clear(); o.n0 = 1 + (long)r.below(5); o.n1 = r.chance(0.4) ? o.n0 : 1 + (long)r.below(5);
      if (r.chance(0.04)) (r.chance(0.5) ? o.n0 : o.n1) = 0;
      break;
    case K_BLOB: o.n0 = r.chance(p.odd) ? 3 : (long)r.below(3); o.n1 = (long)r.below(1000000); if (bigint && o.dt < 4 && r.chance(0.7)) o.n0 = 4; break;
    case K_SCALAR: o.sz.clear(); o.val = o.dt >= 4 ? ((double)r.below(29) - 14) / 4 : (double)r.below(15) - 7; break;
    case K_INIT: o.sz.clear(); o.n0 = (long)r.below(5); o.n1 = (long)r.below(1000000); break;
    }
    return o;
  }
  bool leaf(int slot_lo, int slot_hi, bool rg) {
    Op o = base(K_BLOB);
    o.dst = slot_lo + (int)r.below(slot_hi - slot_lo);
    o.dt = rnd_dt(true);
    int s = r.chance(0.6) ? pick_any() : -1;
    if (r.chance(p.p_big * 0.5)) o.sz = big_shape();
    else o.sz = s >= 0 ? compatible(w.get(strand, s)->sz) : shape(24);
    o.n0 = r.chance(p.odd) ? 3 : r.chance(0.5) ? 1 : r.chance(0.6) ? 2 : 0;
    o.n1 = (long)r.below(1000000);
    if (!emit(o)) return false;
    if (rg) {
      Op q = base(K_REQ);
      q.a = o.dst;
      q.n0 = 1;
      emit(q);
    }
    return true;
  }
  Op mk_binary(int kind) {
    Op o = base(kind);
    o.dst = dst();
    o.a = pick_any();
    o.b = pick_any();
    if (o.a < 0) return o;
    std::vector<int> ok;
    NodeP a = w.get(strand, o.a);
    for (int s = 0; s < nslots(); ++s) {
      NodeP b = at(s);
      if (!b) continue;
      Op t = o;
      t.b = s;
      size_t na = a->numel(), nb = b->numel();
      if (na * nb > 40000 && !(huge && std::max(na, nb) <= p.max_el)) continue;
      bool fine = true;
      for (size_t i = 1; i <= std::min(a->sz.size(), b->sz.size()); ++i) {
        size_t x = a->sz[a->sz.size() - i], y = b->sz[b->sz.size() - i];
        if (x != y && x != 1 && y != 1) fine = false;
      }
      if (fine) ok.push_back(s);
    }
    if (!ok.empty() && r.chance(0.9)) o.b = ok[r.below(ok.size())];
    if (r.chance(0.5)) std::swap(o.a, o.b);
    return o;
  }
  // a string of no particular meaning
  std::string any_str() {
    static const char cs[] = "0123456789::::,,--+ \\\t.'[]()*%aexL_";
    std::string s;
    size_t n = r.below(10);
    for (size_t i = 0; i < n; ++i) s += r.chance(0.08) ? (char)(1 + r.below(255)) : cs[r.below(sizeof cs - 1)];
    if (r.chance(0.1)) { static const char *big[] = {"9223372036854775807", "-9223372036854775808", "99999999999999999999", "4294967296", "-2147483649"}; s = r.chance(0.3) ? big[r.below(5)] : std::string(r.chance(0.5) ? "::" : ":") + big[r.below(5)] + (r.chance(0.3) ? ":" + std::string(big[r.below(5)]) : ""); }
    return s;
  }
  std::string slice_str(const std::vector<size_t> &sz, bool bad) {
    std::string s;
    size_t k = sz.empty() ? 0 : 1 + r.below(sz.size());
    if (bad && r.chance(0.25)) k = sz.size() + 1;
    for (size_t d = 0; d < k; ++d) {
      if (d) s += r.chance(0.5) ? "," : ", ";
      long n = d < sz.size() ? (long)sz[d] : 2;
      auto idx = [&] { return std::to_string((long)r.below(2 * (uint64_t)n + 5) - n - 2); };
      if (n > 0 && r.chance(0.3)) { s += std::to_string((long)r.below(2 * (uint64_t)n) - n); continue; }
      switch (r.chance(0.04) ? 9 : r.below(9)) {
      case 0: s += ":"; break;
      case 1: s += "::" + std::string(r.chance(0.5) ? "-1" : "2"); break;
      case 2: s += idx() + ":"; break;
      case 3: s += ":" + idx(); break;
      case 4: s += idx() + ":" + idx(); break;
      case 5: { long st = 1 + (long)r.below(3); if (r.chance(0.5)) st = -st; s += idx() + ":" + idx() + ":" + std::to_string(st); break; }
      case 6: { long st = 1 + (long)r.below(3); if (r.chance(0.6)) st = -st; s += "::" + std::to_string(st); break; }
      case 7: s += std::to_string((long)r.below((uint64_t)n + 1)) + " : " + std::to_string(n); break;
      case 8: { long st = 1 + (long)r.below(2); if (r.chance(0.2)) st = n + (long)r.below(3); s += idx() + "::" + std::to_string(r.chance(0.7) ? -st : st); break; }
      case 9: s += (r.chance(0.5) ? "-100000" : "0") + std::string(":") + (r.chance(0.5) ? "100000" : "") + (r.chance(0.4) ? ":1000" : ""); break;
      }
    }
    if (bad && !sz.empty() && k <= sz.size()) {
      switch (r.below(4)) {
      case 0: s = std::to_string((long)sz[0] + (long)r.below(3)); break;
      case 1: s = std::to_string(-(long)sz[0] - 1 - (long)r.below(3)); break;
      case 2: s = "::0"; break;
      case 3: s = "a:"; break;
      }
    }
    return s;
  }
  std::vector<long long> factor(size_t n) {
    std::vector<long long> s;
    if (n == 0) { s = {0, (long long)r.below(4)}; if (r.chance(0.5)) std::swap(s[0], s[1]); return s; }
    size_t left = n;
    int k = (int)r.below(5);
    for (int i = 0; i < k && left > 1; ++i) {
      std::vector<size_t> div;
      for (size_t d = 1; d <= left && d <= 64; ++d) if (left % d == 0) div.push_back(d);
      size_t d = div[r.below(div.size())];
      s.push_back((long long)d);
      left /= d;
    }
    if (left > 1 || s.empty() || r.chance(0.1)) s.push_back((long long)left);
    if (r.chance(0.15)) s.insert(s.begin() + (long)r.below(s.size() + 1), 1);
    if (n == 1 && r.chance(0.3)) s.clear();
    if (!s.empty() && r.chance(0.35)) s[r.below(s.size())] = -1;
    return s;
  }
  Op mk_cat(bool bad) {
    Op o = base(K_CAT);
    o.dst = dst();
    int a = pick_if([](const Node &n) { return !n.sz.empty(); });
    if (a < 0) return o;
    NodeP n = w.get(strand, a);
    o.n0 = (long)r.below(n->sz.size());
    o.list.push_back(a);
    std::vector<int> ok;
    for (int s = 0; s < nslots(); ++s) {
      NodeP m = at(s);
      if (!m || m->sz.size() != n->sz.size()) continue;
      bool f = true;
      for (size_t j = 0; j < m->sz.size(); ++j) if ((long)j != o.n0 && m->sz[j] != n->sz[j]) f = false;
      if (f) ok.push_back(s);
    }
    size_t k = r.chance(0.02) ? 16 + r.below(30) : r.chance(0.1) ? 6 + r.below(8) : r.below(4);
    for (size_t i = 0; i < k; ++i) o.list.push_back(ok.empty() ? a : ok[r.below(ok.size())]);
    for (size_t i = o.list.size(); i > 1; --i) std::swap(o.list[i - 1], o.list[r.below(i)]);
    if (bad) switch (r.below(3)) {
      case 0: o.list.clear(); break;
      case 1: o.n0 = (long)n->sz.size() + (long)r.below(2); break;
      case 2: { int x = pick_any(); if (x >= 0) o.list.push_back(x); break; }
      }
    return o;
  }
  // a scalar that depends on every element of slot s with different weights
  int loss_of(int s) {
    NodeP n = w.get(strand, s);
    if (!n || !n->rg) return -1;
    int src = s;
    if (n->numel() != 1 && r.chance(0.6)) {
      Op k = base(K_BLOB);
      k.dst = dst();
      if (k.dst == s) k.dst = lo_slot + (k.dst - lo_slot + 1) % (hi_slot - lo_slot);
      if (k.dst == s) return -1;
      k.dt = r.chance(0.8) ? rnd_dt(true) : (int)r.below(4);
      k.sz.assign(n->sz.begin(), n->sz.end());
      k.n0 = r.chance(p.odd) ? 3 : 2;
      k.n1 = (long)r.below(1000000);
      if (!emit(k)) return -1;
      Op m = base(K_MUL);
      m.a = s;
      m.b = k.dst;
      if (r.chance(0.5)) std::swap(m.a, m.b);
      m.dst = dst();
      if (!emit(m)) return -1;
      src = m.dst;
    }
    Op q = base(r.chance(0.6) ? K_SUM : r.chance(0.6) ? K_MEAN : r.chance(0.5) ? K_MAX : K_MIN);
    q.a = src;
    q.dst = dst();
    if (!emit(q)) { q.kind = K_SUM; if (!emit(q)) return -1; }
    if (r.chance(0.4)) { // the reduction itself then receives a gradient other than one
      Op k = base(K_SCALAR);
      k.dst = dst();
      if (k.dst == q.dst) return q.dst;
      k.dt = rnd_dt(true);
      k.val = (double)(2 + r.below(11)) / 4 * (r.chance(0.5) ? -1 : 1);
      if (!emit(k)) return q.dst;
      Op m = base(r.chance(0.7) ? K_MUL : r.chance(0.5) ? K_DIV : K_SUB);
      m.a = q.dst;
      m.b = k.dst;
      m.dst = r.chance(0.5) ? q.dst : dst();
      if (emit(m)) return m.dst;
      NodeP x = at(q.dst);
      return x && x->rg && !x->leaf && x->numel() == 1 ? q.dst : -1;
    }
    return q.dst;
  }

  // one leaf used by several branches of different lengths that meet again
  bool fan() {
    int x = dst();
    if (!leaf(x, x + 1, true)) return false;
    NodeP n = at(x);
    if (!n || !n->rg || n->numel() > 60) return false;
    int k = 3 + (int)r.below(4), acc = -1;
    for (int i = 0; i < k; ++i) {
      int cur = x, len = 1 + (int)r.below(3);
      for (int j = 0; j < len; ++j) {
        int d = dst();
        if (d == x || d == acc || d == cur) continue;
        Op o = base(K_ABS);
        o.a = cur; o.dst = d;
        switch (r.below(7)) {
        case 0: o.kind = K_ABS; break;
        case 1: o.kind = K_NEG; break;
        case 2: o.kind = K_CLONE; break;
        default: {
          Op c2 = base(K_BLOB);
          c2.dst = d; c2.dt = rnd_dt(true); c2.n0 = r.chance(p.odd) ? 3 : 1; c2.n1 = (long)r.below(1000000);
          c2.sz.assign(n->sz.begin(), n->sz.end());
          if (!emit(c2)) continue;
          o.kind = r.chance(0.8) ? K_MUL : r.chance(0.5) ? K_DIV : K_SUB;
          o.b = d;
        }
        }
        if (emit(o)) cur = d;
      }
      if (cur == x) continue;
      if (acc < 0) { acc = cur; continue; }
      Op o = base(K_ADD);
      o.a = acc; o.b = cur; o.dst = r.chance(0.5) ? acc : cur;
      if (r.chance(0.5)) std::swap(o.a, o.b);
      if (emit(o)) acc = o.dst;
    }
    if (acc < 0) return false;
    int l = loss_of(acc);
    if (l < 0) return true;
    if (r.chance(0.85)) { Op q = base(K_BACK); q.a = l; emit(q); }
    return true;
  }

  struct W { int kind; double w; };
  bool step() {
    bool bad = r.chance(p.invalid);
    struct Ent { double w; int id; };
    enum { A_CREATE, A_LIKE, A_ARITH, A_CMP, A_NEG, A_POS, A_REDUCE, A_ALL, A_ABS, A_SLICE, A_TRANS, A_RESHAPE, A_DETACH, A_CLONE, A_CONTIG, A_TYPE, A_CAT, A_IADD, A_REQ,
           A_RETAIN, A_BACK, A_ZGRAD, A_GRADC, A_COPYH, A_MOVEH, A_DROP, A_RELEASE, A_QUERY, A_AUDIT, A_RANDN, A_LOSS, A_GRADH, A_UNINIT, A_FAN, A_N };
    double ws[A_N] = {p.create, p.like, p.arith, p.cmp, p.neg, p.pos, p.reduce, p.all, p.abs, p.slice, p.trans, p.reshape, p.detach, p.clone, p.contig, p.type, p.cat, p.iadd,
                      p.req, p.retain, p.allow_back ? p.back : 0, p.zgrad, p.gradc, p.copyh, p.moveh, p.drop, p.release, p.query, p.audit, p.randn, p.allow_back ? p.loss : 0, p.gradh, p.uninit, p.allow_back ? p.fan : 0};
    for (int i = 0; i < A_N; ++i) ws[i] *= weight_scale[i];
    double tot = 0;
    for (double x : ws) tot += x;
    double x = (double)(r.next() >> 11) / 9007199254740992.0 * tot;
    int k = 0;
    while (k < A_N - 1 && x >= ws[k]) { x -= ws[k]; ++k; }
    last_action = k;
    int live = 0;
    for (int i = 0; i < nslots(); ++i) live += at(i) != nullptr;
    if (live < 2 && k != A_CREATE) k = r.chance(0.6) ? A_CREATE : k;
    int s = pick_any();
    Op o;
    probe_ok = k != A_CREATE && k != A_BACK && k != A_LOSS && k != A_FAN;
    struct Reset { bool &b; ~Reset() { b = false; } } reset{probe_ok};
    switch (k) {
    case A_CREATE:
      if (bad) { // more elements than memory can hold, ragged initialisers
        o = mk_create();
        static const long long big[] = {1ll << 32, (1ll << 61) + 1, 1ll << 40, 3ll << 31, 1ll << 62, (1ll << 31) + 5, 1ll << 63 };
        if (o.kind == K_INIT) o.n0 = 5 + (long)r.below(4);
        else if (o.kind == K_EYE) { o.n0 = (long)big[r.below(6)]; o.n1 = r.chance(0.5) ? o.n0 : (long)big[r.below(6)]; }
        else if (o.kind == K_BLOB || o.kind == K_SCALAR) { o.kind = K_INIT; o.sz.clear(); o.n0 = 5 + (long)r.below(4); o.n1 = (long)r.below(1000); }
        else {
          if (r.chance(0.2)) o.kind = r.chance(0.5) ? K_UNINIT : K_RANDN;
          o.sz = {big[r.below(7)]};
          while (o.sz.size() < 4 && (r.chance(0.5) || o.sz[0] < (1ll << 40))) o.sz.insert(o.sz.begin() + (long)r.below(o.sz.size() + 1), r.chance(0.6) ? big[r.below(7)] : 1 + (long long)r.below(9));
          if (o.sz[0] < 0 && o.sz.size() == 1) o.sz = {1ll << 62, 4};
        }
        return emit(o, true);
      }
      if (r.chance(0.4)) return leaf(lo_slot, hi_slot, r.chance(p.p_rg) && p.req > 0);
      return emit(mk_create());
    case A_LIKE: o = base(r.chance(0.4) ? K_ZLIKE : r.chance(0.6) ? K_OLIKE : K_RANDLIKE); if (o.kind == K_RANDLIKE && p.randn == 0) o.kind = K_OLIKE; o.a = s; o.dst = dst(); return emit(o, bad || r.chance(0.1));
    case A_ARITH: return emit(mk_binary(K_ADD + (int)r.below(4)), bad);
    case A_CMP: return emit(mk_binary(K_LT + (int)r.below(6)), bad);
    case A_NEG: o = base(K_NEG); o.a = s; o.dst = dst(); return emit(o);
    case A_POS: o = base(K_POS); o.a = s; o.dst = dst(); return emit(o);
    case A_REDUCE: o = base(K_SUM + (int)r.below(4)); o.a = s; o.dst = dst(); return emit(o);
    case A_ALL: o = base(K_ALL); o.a = s; return emit(o);
    case A_ABS: o = base(K_ABS); o.a = s; o.dst = dst(); return emit(o);
    case A_SLICE: {
      o = base(K_SLICE);
      o.a = s;
      o.dst = dst();
      if (s < 0) return false;
      if (r.chance(p.probe)) { o.str = any_str(); return emit(o, true); }
      o.str = slice_str(w.get(strand, s)->sz, bad);
      return emit(o, bad);
    }
    case A_TRANS: {
      o = base(r.chance(0.5) ? K_TRANS : K_TRANSS);
      int t = pick_if([](const Node &n) { return n.sz.size() >= 2; });
      o.a = bad && r.chance(0.3) ? s : t;
      o.dst = dst();
      if (o.a < 0) return false;
      size_t rk = w.get(strand, o.a)->sz.size();
      if (rk == 0) rk = 1;
      o.n0 = (long)r.below(rk);
      o.n1 = (long)r.below(rk);
      if (!bad && o.n0 == o.n1) o.n1 = (o.n0 + 1) % (long)rk;
      if (bad && r.chance(0.6)) o.n1 = (long)rk + (long)r.below(2);
      return emit(o, bad);
    }
    case A_RESHAPE: {
      o = base(r.chance(0.45) ? K_RESHAPE : r.chance(0.6) ? K_RESHAPES : K_RESHAPEAS);
      o.a = s;
      o.dst = dst();
      if (s < 0) return false;
      NodeP n = w.get(strand, s);
      if (o.kind == K_RESHAPEAS) {
        o.b = bad ? pick_any() : pick_if([&](const Node &m) { return m.numel() == n->numel(); });
        if (o.b < 0) return false;
      } else {
        o.sz = factor(n->numel());
        if (bad) switch (r.below(5)) {
          case 4: o.sz = {1ll << 32, 1ll << 32}; if (r.chance(0.5)) o.sz.push_back((long long)n->numel()); if (r.chance(0.3)) o.sz.push_back(-1); break;
          case 0: o.sz.push_back(2 + (long long)r.below(3)); break;
          case 1: o.sz = {-1, -1}; break;
          case 2: o.sz = {-2, (long long)n->numel()}; break;
          case 3: o.sz = {(long long)n->numel() + 1, -1}; break;
          }
      }
      return emit(o, bad);
    }
    case A_DETACH: o = base(K_DETACH); o.a = s; o.dst = dst(); return emit(o);
    case A_CLONE: o = base(K_CLONE); o.a = s; o.dst = dst(); return emit(o);
    case A_CONTIG: o = base(K_CONTIG); o.a = s; o.dst = dst(); return emit(o);
    case A_TYPE: o = base(K_TYPE); o.a = s; o.dst = dst(); o.dt = rnd_dt(r.chance(0.5)); return emit(o, bad || r.chance(0.1));
    case A_CAT: return emit(mk_cat(bad), bad);
    case A_IADD: {
      o = mk_binary(K_IADD);
      o.dst = -1;
      NodeP a = w.get(strand, o.a), b = w.get(strand, o.b);
      if (a && b && a->numel() < b->numel()) std::swap(o.a, o.b);
      return emit(o, bad);
    }
    case A_REQ: {
      o = base(K_REQ);
      o.n0 = r.chance(0.9);
      o.a = bad ? s : pick_if([](const Node &n) { return n.leaf && is_float(n.dt); }, false);
      return o.a >= 0 && emit(o, bad);
    }
    case A_RETAIN: o = base(K_RETAIN); o.a = pick_if([](const Node &n) { return n.rg && !n.leaf; }, false); o.n0 = r.chance(0.85); return o.a >= 0 && emit(o);
    case A_BACK: {
      o = base(K_BACK);
      o.a = bad ? s : pick_if([](const Node &n) { return n.rg && !n.leaf && n.numel() == 1; }, false);
      if (o.a < 0) {
        int t = pick_if([](const Node &n) { return n.rg; }, true);
        if (t < 0) return false;
        o.a = loss_of(t);
        if (o.a < 0) return false;
      }
      if (o.a >= SHARED) return false;
      probe_ok = true;
      return emit(o, bad);
    }
    case A_ZGRAD: o = base(K_ZGRAD); o.a = pick_if([](const Node &n) { return n.gs != G_NONE; }, p.lock_shared); return o.a >= 0 && emit(o);
    case A_GRADC: o = base(K_GRADC); o.a = pick_if([](const Node &n) { return n.gs == G_VAL; }, p.lock_shared); o.dst = dst(); return o.a >= 0 && emit(o);
    case A_GRADH: o = base(K_GRADH); o.a = pick_if([](const Node &n) { return n.gs == G_VAL; }, false); o.dst = dst(); return o.a >= 0 && emit(o);
    case A_FAN: return fan();
    case A_UNINIT: o = base(K_UNINIT); o.dst = dst(); o.dt = rnd_dt(r.chance(0.5)); o.sz = shape(20); return emit(o);
    case A_COPYH: o = base(K_COPYH); o.a = s; o.dst = dst(); return emit(o);
    case A_MOVEH: o = base(K_MOVEH); o.a = pick_any(false); o.dst = dst(); return o.a >= 0 && emit(o);
    case A_DROP: o = base(K_DROP); o.a = pick_any(false); return o.a >= 0 && live > 2 && emit(o);
    case A_RELEASE: o = base(K_RELEASE); o.a = pick_any(false); return o.a >= 0 && live > 3 && emit(o);
    case A_QUERY: o = base(K_QUERY); o.a = s; return emit(o);
    case A_AUDIT: o = base(K_AUDIT); return emit(o);
    case A_RANDN: {
      o = base(K_RANDN);
      o.dst = dst();
      o.dt = r.chance(0.93) ? rnd_dt(true) : (int)r.below(4);
      o.sz = shape(20);
      return emit(o, true);
    }
    case A_LOSS: {
      int t = pick_if([](const Node &n) { return n.rg; }, true);
      if (t < 0) return false;
      int l = loss_of(t);
      if (l < 0) return false;
      if (r.chance(0.25)) { Op q = base(K_RETAIN); q.a = l; q.n0 = 1; emit(q); }
      if (r.chance(0.6)) { Op q = base(K_BACK); q.a = l; return emit(q); }
      return true;
    }
    }
    return false;
  }
  void steps(int n) {
    int tries = 0;
    for (int i = 0; i < n && tries < n * 8;) { ++tries; if (step()) ++i; }
  }
  // a graph of the caller's own over the tensors all callers read; returns the slot of its loss
  int own_graph() {
    if (w.shared.empty()) return -1;
    int x = dst();
    Op k = base(K_BLOB);
    NodeP sh = w.shared[r.below(w.shared.size())];
    if (!sh || sh->numel() > 200) return -1;
    k.dst = x; k.dt = rnd_dt(true); k.n0 = 1; k.n1 = (long)r.below(1000000);
    k.sz.assign(sh->sz.begin(), sh->sz.end());
    if (!emit(k)) return -1;
    Op q = base(K_REQ); q.a = x; q.n0 = 1;
    if (!emit(q)) return -1;
    int cur = x, n = 1 + (int)r.below(4);
    for (int i = 0; i < n; ++i) {
      Op o = mk_binary(K_ADD + (int)r.below(4));
      o.a = cur; o.b = SHARED + (int)r.below(w.shared.size());
      if (r.chance(0.15)) o.kind = r.chance(0.5) ? K_ABS : K_CLONE;
      else if (r.chance(0.5)) std::swap(o.a, o.b);
      o.dst = dst();
      if (o.dst == x) continue;
      if (emit(o)) cur = o.dst;
    }
    NodeP c = at(cur);
    if (!c || !c->rg) return -1;
    return loss_of(cur);
  }
  // the same call by every caller, on the tensors all of them read
  void echo(int k) {
    double save = p.p_shared_use;
    p.p_shared_use = 1;
    int me = strand;
    for (int i = 0, tries = 0; i < k && tries < 40; ++tries) {
      strand = 0;
      size_t n0 = c.ops.size();
      if (!step() || c.ops.size() != n0 + 1) continue;
      Op o = c.ops.back();
      bool ok = o.kind != K_AUDIT && (o.a < 0 || o.a >= SHARED) && (o.b < 0 || o.b >= SHARED);
      for (int l : o.list) if (l < SHARED) ok = false;
      if (!ok) continue;
      for (int s = 1; s < c.strands; ++s) { strand = s; Op q = o; q.strand = s; emit(q, true); }
      ++i;
    }
    strand = me;
    p.p_shared_use = save;
  }
  // the same kind of call by every caller, on tensors of its own
  void in_step(int k) {
    int me = strand;
    double save = p.p_shared_use;
    p.p_shared_use = 0.1;
    for (int i = 0; i < k; ++i) {
      strand = 0;
      want_kind = -1;
      size_t n0 = c.ops.size();
      for (int t = 0; t < 6 && c.ops.size() == n0; ++t) step();
      if (c.ops.size() == n0) continue;
      want_kind = c.ops.back().kind;
      int act = last_action;
      double ws[K_COUNT];
      memcpy(ws, weight_scale, sizeof ws);
      for (int j = 0; j < K_COUNT; ++j) if (j != act) weight_scale[j] = 0;
      for (strand = 1; strand < c.strands; ++strand) {
        n0 = c.ops.size();
        for (int t = 0; t < 25 && c.ops.size() == n0; ++t) step();
      }
      memcpy(weight_scale, ws, sizeof ws);
    }
    want_kind = -1;
    strand = me;
    p.p_shared_use = save;
  }
  void swarm() {
    if (r.chance(0.5)) return;
    for (int i = 0; i < 34; ++i) {
      if (i == 0) continue; // creation
      weight_scale[i] = r.chance(0.35) ? 0 : r.chance(0.3) ? 3 : 1;
    }
  }
  void setup_shared(int n, bool rg) {
    strand = -1;
    phase = 0;
    w.slot.resize(std::max(1, c.strands));
    for (int i = 0; i < n; ++i) {
      Op o = base(K_BLOB);
      o.dst = SHARED + i;
      o.dt = rg ? rnd_dt(true) : rnd_dt(r.chance(0.6));
      o.sz = i && r.chance(0.6) ? compatible(w.shared[0]->sz) : shape(24);
      o.n0 = 1 + (long)r.below(2);
      o.n1 = (long)r.below(1000000);
      // now and then the shared tensor is a view or has a history
      if (!emit(o)) { o.sz = {2, 3}; emit(o); }
      if (i && r.chance(0.35)) {
        Op v = base(K_SLICE);
        v.a = SHARED + (int)r.below(i);
        v.dst = SHARED + i;
        v.str = slice_str(w.shared[v.a - SHARED]->sz, false);
        if (!rg || !w.shared[v.a - SHARED]->rg) emit(v);
      }
      if (rg && is_float(w.shared[i]->dt) && w.shared[i]->leaf) {
        Op q = base(K_REQ);
        q.a = SHARED + i;
        q.n0 = 1;
        emit(q);
      }
    }
  }
};

static void heap_cfg(Rng &r, rt::HeapCfg &h) {
  h.seed = r.next() >> 20;
  h.reuse = (int)r.below(4);
  h.fill = (int)r.below(rt::G_FILLS);
}
static void sched_cfg(Rng &r, rt::SchedCfg &s, int strands) {
  s = rt::SchedCfg{};
  s.seed = r.next() >> 20;
  switch (r.below(6)) {
  case 0: s.p_op = 0.7; break;
  case 1: s.p_op = 0.3; s.p_shared = 0.25; s.p_mem = 0.0005; break;
  case 2: s.p_op = 0.3; s.p_mem = 0.01; s.p_alloc = 0.02; break;
  case 3: s.pct = 1 + (int)r.below(6); s.pct_span = 1ull << (6 + r.below(12)); break;
  case 4: s.p_op = 0.5; s.p_alloc = 0.1; s.p_shared = 0.03; break;
  case 5: s.p_op = 0.2; s.p_mem = 0.0008; s.p_shared = 0.02; break;
  }
  if (strands > 1 && r.chance(0.25)) { s.stall_tid = 1 + (int)r.below(strands); s.stall_from = r.below(20000); s.stall_len = 500 + r.below(60000); }
}

const char *const props[] = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", nullptr};

uint64_t call_cap(const Case &c) {
  if (c.scen == "scale") return 30000000ull + 200000ull * (uint64_t)c.P("n", 24);
  return c.scen == "chain" || c.scen == "many" ? 600000000ull : 100000000ull;
}

// blocks: build a graph from leaves, differentiate it, possibly several times over
static void gen_blocks(G &g, int blocks) {
  auto &p = g.p;
  p.slots = 16;
  int nl = 2 + (int)g.r.below(3);
  g.lo_slot = 0; g.hi_slot = nl;
  for (int i = 0; i < nl; ++i) g.leaf(i, i + 1, i == 0 || g.r.chance(0.7));
  for (int b = 0; b < blocks; ++b) {
    static int uid;
    (void)uid;
    g.block = g.strand * 100 + g.phase * 20 + b;
    g.lo_slot = nl; g.hi_slot = 16;
    int n = 2 + (int)g.r.below(7);
    g.steps(n);
    int t = g.pick_if([&](const Node &x) { return x.rg && !x.leaf; }, false);
    if (t < 0) t = g.pick_if([&](const Node &x) { return x.rg; }, false);
    if (t >= 0) {
      int l = g.loss_of(t);
      if (l >= 0) { Op q = g.base(K_BACK); q.a = l; g.emit(q); }
    }
    g.block = -1;
    if (g.r.chance(0.5)) { Op q = g.base(K_AUDIT); g.emit(q); }
    if (g.r.chance(0.3)) { Op q = g.base(K_ZGRAD); q.a = (int)g.r.below(nl); g.emit(q); }
    // the block's handles go, so that later blocks start from the leaves
    for (int s = nl; s < 16; ++s) if (g.at(s) && g.r.chance(0.8)) { Op q = g.base(K_DROP); q.a = s; g.emit(q); }
  }
}

// graphs of large tensors whose handles are dropped in every order
static void gen_reclaim(G &g) {
  auto &p = g.p;
  p.slots = 12;
  g.c.rounds = 2;
  g.c.scen = "mix";
  long long n = 1100 + (long long)g.r.below(500);
  int nl = 1 + (int)g.r.below(2);
  auto blob = [&](int dst, bool rg) {
    Op o = g.base(K_BLOB);
    o.dst = dst; o.dt = 5; o.n0 = 1; o.n1 = (long)g.r.below(1000000);
    o.sz = {n};
    g.emit(o);
    if (rg) { Op q = g.base(K_REQ); q.a = dst; q.n0 = 1; g.emit(q); }
  };
  for (int i = 0; i < nl; ++i) blob(i, true);
  int graphs = 1 + (int)g.r.below(3);
  for (int k = 0; k < graphs; ++k) {
    int cur = (int)g.r.below(nl);
    int len = 2 + (int)g.r.below(4);
    for (int i = 0; i < len; ++i) {
      int d = nl + (int)g.r.below(12 - nl);
      Op o = g.base(0);
      o.a = cur; o.dst = d;
      switch (g.r.below(10)) {
      case 0: o.kind = K_ABS; break;
      case 1: o.kind = K_CLONE; break;
      case 2: o.kind = K_TYPE; o.dt = g.w.get(g.strand, cur)->dt == 5 ? 4 : 5; break;
      case 3: o.kind = K_SLICE; o.str = "::-1"; break;
      case 4: o.kind = K_RESHAPE; o.sz = {-1}; break;
      case 5: o.kind = K_NEG; break;
      case 6: o.kind = K_CAT; o.list = {cur, (int)g.r.below(nl)}; o.n0 = 0; break;
      default: {
        o.kind = K_ADD + (int)g.r.below(4);
        int b = g.pick_if([&](const Node &x) { return x.sz == g.w.get(g.strand, cur)->sz; }, false);
        o.b = b < 0 ? cur : b;
      }
      }
      if (g.emit(o)) {
        cur = d;
        if (g.r.chance(0.2)) { Op q = g.base(K_RETAIN); q.a = d; q.n0 = 1; g.emit(q); }
        if (g.r.chance(0.15)) { Op q = g.base(K_CONTIG); q.a = d; q.dst = nl + (int)g.r.below(12 - nl); g.emit(q); }
      }
    }
    int l = -1;
    g.lo_slot = nl; g.hi_slot = 12;
    if (g.w.get(g.strand, cur)->rg) l = g.loss_of(cur);
    if (l >= 0 && g.r.chance(0.7)) {
      // drop intermediates first, some runs
      for (int s = nl; s < 12; ++s) if (s != l && g.at(s) && g.r.chance(0.4)) { Op q = g.base(K_DROP); q.a = s; g.emit(q); }
      Op q = g.base(K_BACK); q.a = l; g.emit(q);
    }
    std::vector<int> left;
    for (int s = nl; s < 12; ++s) if (g.at(s)) left.push_back(s);
    for (size_t i = left.size(); i > 1; --i) std::swap(left[i - 1], left[g.r.below(i)]);
    for (int s : left) { Op q = g.base(K_DROP); q.a = s; g.emit(q); }
    Op q = g.base(K_AUDIT);
    q.n0 = 1;
    g.emit(q);
  }
}

static int ri(Rng &r, int lo, int hi) { return r.range(lo, hi); }

static void gen_scenario(G &g, const std::string &prop) {
  Case &c = g.c;
  Rng &r = g.r;
  auto pick = [&](std::initializer_list<long> l) { return *(l.begin() + r.below(l.size())); };
  if (prop == "C12") {
    c.scen = "draws";
    c.strands = ri(r, 1, 4);
    c.phases = ri(r, 1, 3);
    c.par["seed"] = (long)r.below(1000000);
    c.par["reseed"] = r.chance(0.5);
    for (int p = 0; p < c.phases; ++p)
      for (int s = 0; s < c.strands; ++s) {
        int n = ri(r, 1, 4);
        for (int i = 0; i < n; ++i) {
          Op o;
          o.id = g.next_id++;
          o.strand = s; o.phase = p;
          o.dst = i;
          o.kind = r.chance(0.7) ? K_RANDN : K_RANDLIKE;
          if (o.kind == K_RANDLIKE) o.n0 = (long)r.below(7);
          o.dt = r.chance(0.12) ? (int)r.below(4) : 4 + (int)r.below(2);
          o.sz = g.shape(16);
          if (r.chance(0.05)) o.sz = {(long long)(50 + r.below(300))};
          c.ops.push_back(o);
        }
      }
    return;
  }
  if (prop == "C13") {
    c.scen = "scale";
    c.strands = r.chance(0.3) ? 2 : 1;
    c.par["shape"] = (long)r.below(12);
    c.par["n"] = c.strands > 1 ? pick({12, 24, 40}) : pick({12, 24, 40, 100, 300, 700});
    c.par["el"] = pick({1, 1, 2, 5});
    c.par["dt"] = 4 + (long)r.below(2);
    c.par["var"] = (long)r.below(1000);
    if (r.chance(0.35)) { c.scen = "opscale"; c.strands = 1; c.par["op"] = (long)r.below(25); c.par["n"] = pick({30, 60, 90}); c.par["fac"] = pick({4, 8}); }
    else if (r.chance(0.2)) { c.scen = "progress"; c.strands = ri(r, 2, 4); c.par["n"] = pick({4, 8, 16, 24}); 
      if (r.chance(0.5)) {
        c.par["fails"] = 1;
        for (int i = 0; i < 24; ++i) if (r.chance(0.8)) c.faults.push_back({300 + i, 0, r.chance(0.7) ? (int)rt::F_ONCE : (int)rt::F_REST, 1 + (int)r.below(i % 2 ? 12 : 120), 0});
      }
    }
    return;
  }
  if (prop == "C14") {
    c.scen = "chain";
    c.strands = 1;
    c.phases = 1;
    c.par["n"] = pick({5000, 5000, 7000, 9000, 14000, 30000});
    c.par["link"] = (long)r.below(13);
    c.par["drop"] = (long)r.below(8);
    c.par["back"] = r.chance(0.6);
    c.par["hold"] = r.chance(0.5);
    c.par["retain"] = r.chance(0.2);
    c.par["el"] = pick({1, 1, 1, 2});
    c.par["var"] = (long)r.below(1000);
    if (r.chance(0.5)) c.faults.push_back({900, 0, rt::F_REST, 1, 0});          // memory is short while dropping
    if (c.par["back"] && r.chance(0.2)) c.faults.push_back({901, 0, rt::F_ONCE, 1 + (int)r.below(30000), 0}); // and inside backward
    c.par["stack_kb"] = 256;
    return;
  }
}

Case generate(const std::string &prop, uint64_t seed) {
  uint64_t pn = strtoull(prop.c_str() + 1, nullptr, 10);
  G g(seed * 1000003ull + pn * 7919);
  g.bigint = g.r.chance(0.12);
  Rng &r = g.r;
  Prof &p = g.p;
  Case &c = g.c;
  c.prop = prop;
  c.seed = seed;
  heap_cfg(r, c.heap);
  c.par["faults"] = 0;
  if (prop == "C12" || prop == "C13" || prop == "C14") {
    gen_scenario(g, prop);
    if (prop == "C12") c.par["faults"] = r.chance(0.5) ? 1 + (long)r.below(4) : 0;
    sched_cfg(r, c.sched, c.strands);
    return c;
  }
  if ((prop == "C02" || prop == "C10") && r.chance(0.015)) {
    c.scen = "many";
    c.strands = prop == "C02" ? ri(r, 2, 3) : ri(r, 1, 2);
    c.par["kind"] = (long)r.below(5);
    static const long ks[] = {60, 130, 140, 260, 270, 300, 520};
    c.par["n"] = ks[r.below(7)];
    if (r.chance(0.1) && (c.par["kind"] == 0 || c.par["kind"] == 4)) { c.par["n"] = c.par["kind"] == 0 ? 80000 : 66000; c.strands = 1; }
    c.par["var"] = (long)r.below(1000);
    sched_cfg(r, c.sched, c.strands);
    return c;
  }
  p.odd = r.chance(0.3) ? 0.6 : 0;
  bool blocks = false, reclaim = false;
  if (prop == "C01") {
    p.strands_lo = 1; p.strands_hi = 4; p.back = 0.6; p.loss = 0.6; p.invalid = 0.02; p.audit_lo = 0; p.audit_hi = 1; p.iadd = 3;
  } else if (prop == "C02") {
    p.strands_lo = 2; p.strands_hi = 4; p.p_rg = 0.85; p.back = 6; p.loss = 8; p.cmp = 0.5; p.all = 0; p.invalid = 0; p.randn = 0.3; p.retain = 2; p.release = 0; p.iadd = 0.5;
  } else if (prop == "C03") {
    p.strands_lo = 2; p.strands_hi = 4; p.shared_lo = 1; p.shared_hi = 4; p.p_shared_use = 0.45; p.shared_rg = r.chance(0.4); p.randn = 4; p.audit_lo = 0; p.audit_hi = 1; p.query = 5;
    p.invalid = 0.06; p.back = 5; p.loss = 5; p.probe_back = 0.3;
  } else if (prop == "C04") {
    p.strands_lo = 1; p.strands_hi = 2; p.invalid = 0.25; p.probe = 0.12; p.query = 4; p.iadd = 7; p.detach = 3; p.max_el = 300;
  } else if (prop == "C05") {
    p.strands_lo = 1; p.strands_hi = 3; c.rounds = 3; p.ops_hi = 16; p.back = 5; p.loss = 5; p.invalid = 0.08; p.probe_back = 0.3; p.probe = 0.08; p.audit_lo = 0; p.audit_hi = 0;
  } else if (prop == "C06") {
    p.strands_lo = 1; p.strands_hi = 2; blocks = true; p.p_rg = 0.8;
  } else if (prop == "C07") {
    p.strands_lo = 1; p.strands_hi = 1; p.back = 5; p.loss = 5; p.invalid = 0.02; p.audit_lo = 1; p.audit_hi = 2; p.ops_hi = 28; p.odd = r.chance(0.6) ? 0.85 : 0; p.fan = 2.5;
  } else if (prop == "C08") {
    p.strands_lo = 1; p.strands_hi = 2; p.slice = 14; p.trans = 7; p.reshape = 7; p.back = 6; p.loss = 6; p.drop = 7; p.copyh = 3; p.moveh = 2; p.iadd = 4; p.abs = 4; p.release = 1;
    p.invalid = 0.1; p.ops_hi = 30; p.gradh = 4; p.probe = 0.2; p.probe_back = 0.3;
  } else if (prop == "C09") {
    p.strands_lo = 1; p.strands_hi = 2; p.phases_hi = 4; p.slice = 14; p.trans = 8; p.detach = 7; p.iadd = 22; p.clone = 4; p.contig = 4; p.type = 5; p.cat = 5; p.reshape = 2; p.req = 0.7;
    p.back = 0.3; p.loss = 0.3; p.p_rg = 0.1; p.drop = 5; p.audit_lo = 2; p.audit_hi = 2; p.invalid = 0.04; p.pos = 0.1; p.copyh = 4; p.max_el = 300;
  } else if (prop == "C10") {
    p.strands_lo = 1; p.strands_hi = 3; p.p_rg = 0.8; p.back = 8; p.loss = 8; p.zgrad = 3; p.retain = 3; p.gradc = 2; p.cmp = 0.4; p.all = 0.3; p.invalid = 0.01; p.lock_shared = true;
    p.shared_rg = true; p.shared_hi = 3; p.randn = 0.5; p.phases_hi = 3; p.iadd = 1.5; p.detach = 2;
  } else if (prop == "C11") {
    p.strands_lo = 1; p.strands_hi = 2; p.p_rg = 0.85; p.back = 5; p.loss = 5; p.drop = 16; p.moveh = 5; p.copyh = 5; p.phases_hi = 3; p.cmp = 0.3; p.all = 0.2; p.invalid = 0; p.slots = 7;
    p.query = 0.5; p.create = 16;
    reclaim = r.chance(0.3);
    if (r.chance(0.7)) { c.heap.reuse = rt::R_LIFO; c.heap.fill = r.chance(0.5) ? (int)rt::G_NOISE : (int)rt::G_FF; }
  }
  c.strands = ri(r, p.strands_lo, p.strands_hi);
  c.phases = ri(r, 1, p.phases_hi);
  c.audit = ri(r, p.audit_lo, p.audit_hi);
  int nsh = ri(r, p.shared_lo, p.shared_hi);
  if (c.strands == 1 && p.shared_lo == 0 && !p.lock_shared) nsh = r.chance(0.2) ? nsh : 0;
  if (reclaim) { nsh = 0; c.strands = 1; c.phases = 1; }
  if (r.chance(0.15)) { p.ops_hi *= 2; }
  if (!blocks && !reclaim && r.chance(0.006)) {
    g.huge = true;
    p.max_el = 80000; p.p_big = 0.5; p.ops_lo = 4; p.ops_hi = 9; p.invalid *= 0.5; c.phases = 1; c.rounds = 1; c.audit = std::min(c.audit, 1); c.strands = std::min(c.strands, 2);
    p.create += 6;
  }
  g.hi_slot = p.slots;
  bool rgsh = p.shared_rg && nsh;
  g.setup_shared(nsh, rgsh);
  if (prop == "C03" && rgsh) p.allow_back = p.allow_back; // own graphs only, see below
  g.swarm();
  if (prop == "C03" && rgsh) { // results built from shared leaves that require gradients are not differentiated here
    p.allow_back = false;
    p.back = p.loss = 0;
  }
  // callers that do the same at the same time: everything is prepared in one phase, and the next begins with it
  bool together = c.strands > 1 && nsh && !blocks && !reclaim && !g.huge && c.rounds == 1 && (prop == "C01" || prop == "C02" || prop == "C03") && r.chance(0.25);
  if (together && c.phases < 2) c.phases = 2;
  bool in_step = c.strands > 1 && !together && !blocks && !reclaim && !g.huge && c.rounds == 1 && (prop == "C01" || prop == "C02" || prop == "C03" || prop == "C04" || prop == "C09") && r.chance(0.2);
  if (in_step) {
    c.phases = 2;
    g.fix_dt = prop == "C02" ? 4 + (int)r.below(2) : (int)r.below(6);
  }
  std::vector<int> loss(8, -1);
  for (int ph = 0; ph < c.phases; ++ph)
    for (int s = 0; s < c.strands; ++s) {
      g.strand = s;
      g.phase = ph;
      g.lo_slot = 0;
      g.hi_slot = p.slots;
      if (in_step) {
        if (ph == 0) { for (int i = 0; i < 3; ++i) { g.leaf(i, i + 1, is_float(g.fix_dt) && r.chance(p.p_rg)); } if (p.allow_back && is_float(g.fix_dt) && r.chance(0.5)) loss[s] = g.own_graph(); }
        else {
          if (loss[s] >= 0) { Op q = g.base(K_BACK); q.a = loss[s]; g.emit(q); }
          if (s + 1 == c.strands) g.in_step(3 + (int)r.below(8));
        }
        continue;
      }
      if (together && ph == 0) {
        if (r.chance(0.3)) g.steps(3);
        if (p.allow_back) loss[s] = g.own_graph();
        continue;
      }
      if (together && ph == 1) {
        if (loss[s] >= 0) { Op q = g.base(K_BACK); q.a = loss[s]; g.emit(q); }
        if (s + 1 == c.strands) g.echo(1 + (int)r.below(4));
        if (c.strands == 2 && r.chance(0.3)) g.steps(4);
        continue;
      }
      if (blocks) gen_blocks(g, 1 + (int)r.below(2));
      else if (reclaim) gen_reclaim(g);
      else {
        int n = ri(r, p.ops_lo, p.ops_hi) / (c.strands > 2 ? 2 : 1) / (c.phases > 2 ? 2 : 1);
        g.steps(std::max(3, n));
      }
    }
  if (prop == "C04") c.par["faults"] = r.chance(0.85) ? 1 : 0;
  if (prop == "C05") c.par["faults"] = r.chance(0.7) ? 1 : 0;
  if (prop == "C06") c.par["faults"] = 1;
  if (prop == "C08") c.par["faults"] = r.chance(0.5) ? 1 : 0;
  if (prop == "C09") c.par["faults"] = r.chance(0.25) ? 1 : 0;
  if (prop == "C07") {
    for (int i = 0; i < 3; ++i) { rt::HeapCfg h; heap_cfg(r, h); c.heaps.push_back(h); }
    c.heap.fill = rt::G_ZERO;
    c.heaps[0].fill = rt::G_FF;
    c.heaps[1].fill = rt::G_STALE; c.heaps[1].reuse = rt::R_LIFO;
    c.heaps[2].fill = r.chance(0.5) ? (int)rt::G_NOISE : (int)rt::G_ONE;
  }
  if (p.lock_shared) c.par["locks"] = 1;
  c.par["together"] = together;
  if (prop != "C07") c.par["peek"] = r.chance(0.4) ? 100 : r.chance(0.5) ? (prop == "C03" ? 0 : 50) : 0;
  sched_cfg(r, c.sched, c.strands);
  c.par["instep"] = in_step;
  if ((together || in_step) && r.chance(0.7)) {
    uint64_t sd = c.sched.seed;
    c.sched = rt::SchedCfg{};
    c.sched.seed = sd;
    static const double ps[] = {0.05, 0.2, 0.5};
    c.sched.p_op = 0.3; c.sched.p_shared = ps[r.below(3)]; c.sched.p_mem = r.chance(0.5) ? 0.002 : 0.0001;
  }
  return c;
}

bool wants_faults(const Case &c) { return c.P("faults") > 0 && c.faults.empty(); }

void place_faults(Case &c, const uint32_t *allocs) {
  Rng r(c.seed * 77777ull + 5);
  std::vector<int> cand, backs;
  for (auto &o : c.ops) {
    if (o.strand < 0) continue;
    uint32_t n = allocs[o.id];
    if (o.kind == K_BACK) { if (n && c.prop != "C04" && c.prop != "C09") backs.push_back(o.id); continue; }
    if (n) cand.push_back(o.id);
    if (o.kind == K_DROP && r.chance(0.3)) c.faults.push_back({o.id, 0, rt::F_REST, 1, 0});
  }
  auto plan = [&](int id, int maxn) {
    int A = (int)allocs[id];
    int mode = (int)r.below(10);
    if (mode < 6) { // walk through the allocations of the call, one failure per attempt
      std::vector<int> ords;
      if (A <= maxn) for (int i = 1; i <= A; ++i) ords.push_back(i);
      else {
        for (int i = 1; i <= 6; ++i) ords.push_back(i);
        for (int i = 0; i < maxn - 8; ++i) ords.push_back(1 + (int)r.below(A));
        ords.push_back(A - 1); ords.push_back(A);
      }
      if (mode < 3) for (size_t i = ords.size(); i > 1; --i) std::swap(ords[i - 1], ords[r.below(i)]);
      int at = 0;
      for (int o : ords) c.faults.push_back({id, at++, rt::F_ONCE, o, 0});
    } else if (mode < 8)
      c.faults.push_back({id, 0, rt::F_REST, 1 + (int)r.below(A), 0});
    else if (mode < 9)
      c.faults.push_back({id, 0, rt::F_BIG, 1, 16 + (int)r.below(200)});
    else
      c.faults.push_back({id, 0, rt::F_WINDOW, 1 + (int)r.below(A), 1 + (int)r.below(4)});
  };
  if (c.prop == "C06") {
    for (int b : backs) if (r.chance(0.9)) plan(b, 24);
    if (!cand.empty() && r.chance(0.3)) plan(cand[r.below(cand.size())], 6);
    return;
  }
  double share = c.prop == "C05" ? 0.25 : c.prop == "C09" ? 0.15 : c.prop == "C12" ? 0.4 : 0.4;
  for (int id : cand) if (r.chance(share)) plan(id, c.prop == "C04" ? 20 : 8);
  for (int b : backs) if (r.chance(0.4)) plan(b, c.prop == "C05" ? 1 : 6);
}
} // namespace gn
