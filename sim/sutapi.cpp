#include "sutapi.hpp"
#include "INNC/INNC.hpp"
#include "values.hpp"
#include <cstring>
#include <new>
#ifdef HAVE_RNG
#include "INNC/utils/rand.hpp"
#endif

using INNC::SignedVec;
using INNC::SizeVec;
using INNC::Tensor;
using INNC::TensorInit;
using INNC::types;

namespace su {
struct H { Tensor t; };

// Not to be instrumented or counted: plain harness code.
static SizeVec sizes(const std::vector<long long> &v) {
  SizeVec s;
  for (auto x : v) s.push_back((size_t)x);
  return s;
}
static SignedVec ssizes(const std::vector<long long> &v) {
  SignedVec s;
  for (auto x : v) s.push_back(x);
  return s;
}

H *h_new() {
  void *m = rt::caller_alloc(sizeof(H));
  rt::Sut g;
  return new (m) H;
}
void h_free(H *h) {
  {
    rt::Sut g;
    h->~H();
  }
  rt::caller_free(h);
}
void drop_armed(H *h, int attempt) {
  rt::op_attempt(attempt);
  {
    rt::Sut g;
    h->~H();
  }
  rt::op_disarm();
  rt::caller_free(h);
}
void h_take(H *d, H *s) {
  rt::Sut g;
  d->t = std::move(s->t);
}
void h_copy(H *d, const H *s) {
  rt::Sut g;
  d->t = s->t;
}
void zero_grad(H *h) {
  rt::Sut g;
  h->t.zero_grad();
}

template <typename T> static TensorInit mk_init(long form, const std::vector<double> &v) {
  auto x = [&](int i) { return (T)v[i]; };
  using L = std::initializer_list<TensorInit>;
  using E = std::initializer_list<T>;
  using O = std::conditional_t<std::is_same_v<T, float>, double, float>; // another type
  switch (form) {
  case 0: return TensorInit(E{x(0), x(1), x(2)});
  case 1: return TensorInit(L{TensorInit(E{x(0), x(1)}), TensorInit(E{x(2), x(3)})});
  case 2: return TensorInit(L{TensorInit(L{TensorInit(E{x(0), x(1)}), TensorInit(E{x(2), x(3)}), TensorInit(E{x(4), x(5)})})});
  case 3: return TensorInit(E{x(0)});
  case 4: return TensorInit(L{TensorInit(L{TensorInit(L{TensorInit(E{x(0), x(1)})})}), TensorInit(L{TensorInit(L{TensorInit(E{x(2), x(3)})})})});
  // ragged or of mixed types
  case 5: return TensorInit(L{TensorInit(E{x(0), x(1)}), TensorInit(E{x(2)})});
  case 6: return TensorInit(L{TensorInit(E{x(0), x(1)}), TensorInit(std::initializer_list<O>{(O)1, (O)2})});
  case 7: return TensorInit(L{TensorInit(L{TensorInit(E{x(0), x(1)}), TensorInit(E{x(2), x(3)})}), TensorInit(L{TensorInit(E{x(4), x(5)})})});
  default: return TensorInit(L{TensorInit(E{x(0), x(1)}), TensorInit(L{TensorInit(E{x(2), x(3)})})});
  }
}
template <typename T> static void do_init(Tensor &out, const pg::Op &o, const std::vector<double> &v) {
  if (o.n1 & 1) out = mk_init<T>(o.n0, v); // assignment from an initialiser
  else out = Tensor(mk_init<T>(o.n0, v));
}

template <typename F> static Ret guarded(F &&f) {
  Ret r;
  {
    rt::Sut g;
    try {
      f(r);
    } catch (std::bad_alloc &) {
      r.st = BADALLOC;
      strcpy(r.what, "std::bad_alloc");
    } catch (std::exception &e) {
      r.st = STDEXC;
      strncpy(r.what, e.what(), sizeof r.what - 1);
    } catch (...) {
      r.st = OTHEREXC;
      strcpy(r.what, "an exception not derived from std::exception");
    }
  }
  rt::op_disarm();
  return r;
}

Ret call(const pg::Op &o, int attempt, H *ha, H *hb, const std::vector<H *> &list, H *hout, void *blob, Obs *obs) {
  using namespace pg;
  Tensor *a = ha ? &ha->t : nullptr, *b = hb ? &hb->t : nullptr, *out = hout ? &hout->t : nullptr;
  types dt = (types)o.dt;
  SizeVec sv;
  SignedVec gv;
  std::vector<double> iv;
  std::string str = o.str;
  if (o.kind == K_RESHAPE || o.kind == K_RESHAPES) gv = ssizes(o.sz);
  else sv = sizes(o.sz);
  if (o.kind == K_INIT) iv = vals::blob(o.dt, 6, 0, o.n1);
  std::string got;
  SizeVec gotsz;
  Ret ret = guarded([&](Ret &r) {
    std::vector<Tensor> ts;
    if (o.kind == K_CAT) {
      ts.reserve(list.size());
      for (auto h : list) { ts.emplace_back(); ts.back() = h->t; }
    }
    rt::op_attempt(attempt);
    switch (o.kind) {
    case K_ZEROS: *out = Tensor::zeros(sv, dt); break;
    case K_UNINIT: *out = Tensor(sv, dt); break;
    case K_ONES: *out = Tensor::ones(sv, dt); break;
    case K_FULLI: *out = Tensor::full(sv, (std::int64_t)o.n0, dt); break;
    case K_FULLD: *out = Tensor::full(sv, o.val, dt); break;
    case K_EYE:
      if (o.n0 == o.n1) *out = Tensor::eye((size_t)o.n0, dt);
      else *out = Tensor::eye((size_t)o.n0, (size_t)o.n1, dt);
      break;
    case K_BLOB: *out = Tensor::from_blob(blob, sv, dt); break;
    case K_ZLIKE: *out = Tensor::zeros_like(*a); break;
    case K_OLIKE: *out = Tensor::ones_like(*a); break;
    case K_SCALAR:
      switch (o.dt) {
      case 0: *out = Tensor((std::int8_t)o.val); break;
      case 1: *out = Tensor((std::int16_t)o.val); break;
      case 2: *out = Tensor((std::int32_t)o.val); break;
      case 3: *out = Tensor((std::int64_t)o.val); break;
      case 4: *out = Tensor((float)o.val); break;
      default: *out = Tensor(o.val); break;
      }
      break;
    case K_INIT:
      switch (o.dt) {
      case 0: do_init<std::int8_t>(*out, o, iv); break;
      case 1: do_init<std::int16_t>(*out, o, iv); break;
      case 2: do_init<std::int32_t>(*out, o, iv); break;
      case 3: do_init<std::int64_t>(*out, o, iv); break;
      case 4: do_init<float>(*out, o, iv); break;
      default: do_init<double>(*out, o, iv); break;
      }
      break;
    case K_RANDN: *out = Tensor::randn(sv, dt); break;
    case K_RANDLIKE: *out = Tensor::randn_like(*a); break;
    case K_ADD: *out = *a + *b; break;
    case K_SUB: *out = *a - *b; break;
    case K_MUL: *out = *a * *b; break;
    case K_DIV: *out = *a / *b; break;
    case K_LT: *out = *a < *b; break;
    case K_GT: *out = *a > *b; break;
    case K_LE: *out = *a <= *b; break;
    case K_GE: *out = *a >= *b; break;
    case K_EQ: *out = *a == *b; break;
    case K_NE: *out = *a != *b; break;
    case K_NEG: *out = -*a; break;
    case K_POS: *out = +*a; break;
    case K_SUM: *out = a->sum(); break;
    case K_MEAN: *out = a->mean(); break;
    case K_MAX: *out = a->max(); break;
    case K_MIN: *out = a->min(); break;
    case K_ABS: *out = a->abs(); break;
    case K_ALL: r.q = a->all(); break;
    case K_SLICE: *out = (*a)[str]; break;
    case K_TRANS: *out = a->transpose((size_t)o.n0, (size_t)o.n1); break;
    case K_TRANSS: *out = Tensor::transpose(*a, (size_t)o.n0, (size_t)o.n1); break;
    case K_RESHAPE: *out = a->reshape(gv); break;
    case K_RESHAPES: *out = Tensor::reshape(*a, gv); break;
    case K_RESHAPEAS: *out = a->reshape_as(*b); break;
    case K_DETACH: *out = a->detach(); break;
    case K_CLONE: *out = a->clone(); break;
    case K_CONTIG: *out = a->contiguous(); break;
    case K_TYPE: *out = a->type(dt); break;
    case K_CAT: *out = Tensor::cat(ts, (size_t)o.n0); break;
    case K_IADD: *a += *b; break;
    case K_REQ: a->requires_grad(o.n0 != 0); break;
    case K_RETAIN: a->retain_grad(o.n0 != 0); break;
    case K_BACK: a->backward(); break;
    case K_ZGRAD: a->zero_grad(); break;
    case K_GRADC: *out = a->grad().clone(); break;
    case K_GRADH: *out = a->grad(); break;
    case K_COPYH: *out = *a; break;
    case K_RELEASE: a->release(); break;
    case K_QUERY: {
      got = a->to_string();
      gotsz = a->size();
      break;
    }
    default: break;
    }
    rt::op_disarm();
  });
  if (o.kind == K_QUERY && obs && ret.st == OK) {
    obs->s.assign(got.data(), got.size());
    obs->sz.assign(gotsz.begin(), gotsz.end());
  }
  return ret;
}

static void observe_in(Tensor &t, std::string &s, SizeVec &sz, Obs &o) {
  s = t.to_string();
  sz = t.size();
  o.dt = (int)t.type();
  o.numel = t.numel();
  o.rg = t.requires_grad();
  o.retain = t.retain_grad();
  o.contig = t.is_contiguous();
}
Ret observe(H *h, Obs &o) {
  std::string s;
  SizeVec sz;
  Ret r = guarded([&](Ret &) { observe_in(h->t, s, sz, o); });
  o.s.assign(s.data(), s.size());
  o.sz.assign(sz.begin(), sz.end());
  return r;
}
Ret touch(H *h, std::string &out) {
  std::string s;
  SizeVec sz;
  Obs o;
  Ret r = guarded([&](Ret &) {
    s = h->t.to_string();
    if (s == "[]") return; // no tensor at all
    observe_in(h->t, s, sz, o);
  });
  out.assign(s.data(), s.size());
  return r;
}
Ret observe_grad(H *h, Obs &o, bool &none) {
  std::string s;
  SizeVec sz;
  none = false;
  Ret r = guarded([&](Ret &) {
    Tensor g = h->t.grad();
    s = g.to_string();
    if (s == "[]") { none = true; return; }
    observe_in(g, s, sz, o);
  });
  o.s.assign(s.data(), s.size());
  o.sz.assign(sz.begin(), sz.end());
  return r;
}

#ifdef HAVE_RNG
using Eng = std::remove_cvref_t<decltype(INNC::rng)>;
bool have_rng() { return true; }
void seed(unsigned long s) { INNC::rng.seed(s); }
void *rng_save() { return new Eng(INNC::rng); }
void rng_restore(void *p) { INNC::rng = *(Eng *)p; }
void rng_discard(void *p) { delete (Eng *)p; }
bool rng_equals(void *p) { return INNC::rng == *(Eng *)p; }
#else
bool have_rng() { return false; }
void seed(unsigned long) {}
void *rng_save() { return nullptr; }
void rng_restore(void *) {}
void rng_discard(void *) {}
bool rng_equals(void *) { return true; }
#endif

void warm_up() {
  // first use of streams and locales allocates inside the C++ runtime
  try { Tensor::transpose(Tensor::zeros({2, 2}, types::f32), 5, 6); } catch (std::exception &) {}
  try { Tensor a = Tensor::zeros({2, 2}, types::f32); a["5"]; } catch (std::exception &) {}
  (void)Tensor::zeros({2}, types::f64).to_string();
}
} // namespace su
