# Planted bugs: each written from the text of a property and the library's code.
TI = "src/INNC/tensorImpl.cpp"
FN = "src/INNC/function.cpp"
OPS = "include/INNC/ops.hpp"

COMMON = r'''#include "INNC/INNC.hpp"
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <string>
#include <thread>
#include <vector>
using namespace INNC;
static int bad(const char *m) { printf("BROKEN: %s\n", m); fflush(stdout); _Exit(1); return 1; }
[[maybe_unused]] static Tensor vec(std::vector<double> v) { return Tensor::from_blob(v.data(), SizeVec{v.size()}, f64); }
[[maybe_unused]] static Tensor cat2(const Tensor &a, const Tensor &b) { std::vector<Tensor> v(2); v[0] = a; v[1] = b; return Tensor::cat(v); }
'''
# a countdown to a failing allocation, and a count of what is in use
OOM = r'''
static std::atomic<long> fail_at{-1}, live{0};
static void *get(std::size_t n) {
  if (fail_at >= 0 && fail_at-- == 0) throw std::bad_alloc();
  void *p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  ++live;
  return p;
}
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void operator delete(void *p) noexcept { if (p) --live; std::free(p); }
void operator delete[](void *p) noexcept { if (p) --live; std::free(p); }
void operator delete(void *p, std::size_t) noexcept { if (p) --live; std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { if (p) --live; std::free(p); }
'''

BUGS = []


def bug(id, prop, edits, needs, breaks, demo, flags="", env=""):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, env=env))


bug("c01-sum-scratch", "C01",
    [(OPS, "  if (from->view->numel() == 0)\n    return;\n  SizeVec sv;\n  auto &data_sizes", "  if (from->view->numel() == 0)\n    return;\n  static SizeVec sv; // reused between calls\n  auto &data_sizes")],
    "two threads inside sum() of the same pair of element types at the same time, one preempted in the middle of its element loop",
    "sum() keeps its running index in a static variable, so that concurrent sums of independent tensors skip or repeat elements",
    r'''
int main() {
  std::atomic<bool> go{false};
  auto body = [&](double v) {
    Tensor t = Tensor::full(SizeVec{40, 50}, v, f64);
    while (!go) {}
    for (int i = 0; i < 400; ++i) if (std::stod(t.sum().to_string()) != v * 2000) bad("sum of a thread's own tensor is wrong");
  };
  std::thread a(body, 1.0), b(body, 2.0), c(body, 3.0);
  go = true;
  a.join(); b.join(); c.join();
}
''')

bug("c01-convert-fast", "C01",
    [(OPS, "  FromType *from_ptr = reinterpret_cast<FromType *>(from->data_->get_blob());\n  for_each_sizevec(to->view->sizes, [=](const SizeVec &sv) {\n    *(to_ptr + to->cnt_from_index(sv)) = *(from_ptr + from->cnt_from_index(sv));\n  });\n}\n\ntemplate <typename ToType, typename FromType>\nvoid tensor_sum",
      "  FromType *from_ptr = reinterpret_cast<FromType *>(from->data_->get_blob());\n  if (from->is_contiguous()) { // no index arithmetic needed\n    std::copy(from_ptr, from_ptr + from->numel(), to_ptr);\n    return;\n  }\n  for_each_sizevec(to->view->sizes, [=](const SizeVec &sv) {\n    *(to_ptr + to->cnt_from_index(sv)) = *(from_ptr + from->cnt_from_index(sv));\n  });\n}\n\ntemplate <typename ToType, typename FromType>\nvoid tensor_sum")],
    "conversion of a slice that is contiguous but does not begin at the start of its storage",
    "type(t) of such a view converts the wrong elements",
    r'''
int main() {
  Tensor t = vec({1, 2, 3, 4, 5, 6});
  Tensor s = t["3:"];
  if (s.type(i32).to_string() != "[4, 5, 6]") return bad("conversion of a slice shows other elements");
}
''')

bug("c02-cached-ones", "C02",
    [(FN, "  try_accumulate_grad(input_tfs[0].get(),\n                      TensorImpl::ones_like(*input_tfs[0]).get(),\n                      &get_out_grad());",
      "  static std::shared_ptr<TensorImpl> scratch = TensorImpl::ones({}, f64);\n  auto &seed = get_out_grad();\n  // spread the incoming gradient through a reused buffer\n  std::memcpy(scratch->data_->get_blob(), seed.data_->get_blob(), size_of(f64));\n  try_accumulate_grad(input_tfs[0].get(),\n                      TensorImpl::ones_like(*input_tfs[0]).get(),\n                      scratch.get());"),
     (FN, "#include <memory>\n", "#include <cstring>\n#include <memory>\n")],
    "two threads inside the backward of sum() at the same time with different incoming gradients, one preempted between filling and reading the buffer",
    "the incoming gradient of sum() goes through one buffer shared by all threads, so that a thread's leaves receive another thread's gradient",
    r'''
int main() {
  std::atomic<bool> go{false};
  auto body = [&](double v) {
    Tensor x = Tensor::full(SizeVec{300}, 1.0, f64);
    x.requires_grad(true);
    Tensor k = Tensor::full(SizeVec{}, v, f64);
    std::string want = (Tensor::full(SizeVec{300}, v, f64)).to_string();
    while (!go) {}
    for (int i = 0; i < 1500; ++i) {
      x.zero_grad();
      (x.sum() * k).backward();
      if (x.grad().to_string() != want) bad("gradient comes from another thread's graph");
    }
  };
  std::thread a(body, 1.0), b(body, 2.0), c(body, 3.0);
  go = true;
  a.join(); b.join(); c.join();
}
''')

bug("c03-version-counter", "C03",
    [(TI, "  _version = 0;\n", "  static decltype(_version) next_version = 0;\n  _version = next_version++;\n")],
    "two threads creating tensors of their own at the same time",
    "every new tensor draws a number from an unsynchronised process-wide counter: a data race between independent threads, although nothing visible depends on it",
    r'''
int main() {
  auto body = [] { for (int i = 0; i < 2000; ++i) Tensor::zeros(SizeVec{2}, f32); };
  std::thread a(body), b(body);
  a.join(); b.join();
}
''', flags="-fsanitize=thread", env="TSAN_OPTIONS=exitcode=66")

bug("c03-lazy-contiguous", "C03",
    [("include/INNC/layouts.hpp", "  SignedVec strides;\n  size_t offset;\n", "  SignedVec strides;\n  size_t offset;\n  int contiguity = -1; // not known yet\n"),
     ("src/INNC/layouts.cpp", "bool StridedLayout::is_contiguous() {\n  long long step = 1;", "bool StridedLayout::is_contiguous() {\n  if (contiguity >= 0)\n    return contiguity;\n  long long step = 1;"),
     ("src/INNC/layouts.cpp", "    if (step != strides[d])\n      return false;\n    step *= sizes[d];\n  }\n  return true;", "    if (step != strides[d])\n      return contiguity = 0;\n    step *= sizes[d];\n  }\n  return contiguity = 1;")],
    "two threads asking whether the same shared tensor is contiguous at the same time",
    "a query that only reads, as far as callers can tell, writes a cached answer into the shared tensor without synchronisation",
    r'''
int main() {
  for (int i = 0; i < 200; ++i) {
    Tensor t = Tensor::zeros(SizeVec{3, 4}, f32);
    std::atomic<int> ready{0};
    auto body = [&] { ++ready; while (ready < 2) {} if (!t.is_contiguous()) bad("wrong answer"); };
    std::thread a(body), b(body);
    a.join(); b.join();
  }
}
''', flags="-fsanitize=thread", env="TSAN_OPTIONS=exitcode=66")

bug("c04-requires-grad-order", "C04",
    [("src/INNC/tensor.cpp", "  if (b)\n    run_expect(fptr->type() == f32 || fptr->type() == f64,\n               \"Only matrices of floating point number can require grad\");\n  fptr->requires_grad = b;\n",
      "  fptr->requires_grad = b;\n  if (b)\n    run_expect(fptr->type() == f32 || fptr->type() == f64,\n               \"Only matrices of floating point number can require grad\");\n")],
    "an invalid request (an integer tensor asked to require grad) whose exception the caller catches before going on using the tensor",
    "the refused call has switched the tensor to requiring grad, so that later valid calls on it behave differently or are refused",
    r'''
int main() {
  Tensor t = Tensor::ones(SizeVec{3}, i32);
  bool refused = false;
  try { t.requires_grad(true); } catch (const std::exception &) { refused = true; }
  if (!refused) return bad("not refused");
  if (t.requires_grad()) return bad("the refused call changed the tensor");
  try { t += t; } catch (const std::exception &) { return bad("a valid call fails after a refused one"); }
}
''')

bug("c04-zero-grad-alloc", "C04",
    [(TI, "  grad->data_->zero_();\n}", "  // a handle to the old gradient keeps what it shows\n  const_cast<TensorImpl *>(this)->grad = create(\n      grad->dtype, grad->view,\n      std::make_shared<UntypedStorage>(grad->data_->get_size()));\n  grad->data_->zero_();\n}")],
    "memory running out inside zero_grad()",
    "zero_grad() is noexcept but now allocates, so that running out of memory there terminates the program instead of reaching the caller",
    OOM + r'''
int main() {
  Tensor x = vec({1, 2});
  x.requires_grad(true);
  x.sum().backward();
  std::set_terminate([] { bad("terminated instead of an exception"); });
  for (int i = 0; i < 8; ++i) {
    fail_at = i;
    try { x.zero_grad(); } catch (const std::bad_alloc &) {}
    fail_at = -1;
  }
}
''')

bug("c04-cat-steal", "C04",
    [(TI, "  SizeVec sizes = input_ts[0]->size();\n  sizes[dim] = 0;\n", "  // accumulate the length in place, to save a copy of the sizes\n  auto &sizes = input_ts[0]->view->sizes;\n  const size_t first = sizes[dim];\n  size_t total = 0;\n"),
     (TI, "    sizes[dim] += input_ts[j]->size(dim);\n", "    total += input_ts[j]->size(dim);\n  sizes[dim] = total;\n"),
     (TI, "  std::shared_ptr<TensorImpl> ret = create(dtype, StridedLayout{sizes});\n\n  size_t s_offset", "  std::shared_ptr<TensorImpl> ret = create(dtype, StridedLayout{sizes});\n  sizes[dim] = first;\n\n  size_t s_offset")],
    "memory running out inside cat() while it creates the result",
    "the first operand of the failed concatenation is left with the size of the result, so that its shape changed and its elements lie outside its storage",
    OOM + r'''
int main() {
  Tensor x = vec({1, 2}), y = vec({3});
  for (int i = 0; i < 40; ++i) {
    fail_at = i;
    try { Tensor z = cat2(x, y); } catch (const std::bad_alloc &) {}
    fail_at = -1;
    if (x.size()[0] != 2) return bad("a failed call changed the shape of its operand");
  }
}
''')

bug("c05-blob-leak", "C05",
    [(TI, "  auto ptr = create(dtype, view,\n                    std::make_unique<UntypedStorage>(\n", "  auto blob = prealloc ? new uint8_t[size_of(dtype) * view->numel()] : nullptr;\n  auto ptr = create(dtype, view,\n                    std::make_unique<UntypedStorage>(\n"),
     (TI, "  if (prealloc)\n    ptr->data_->alloc();\n  return ptr;", "  if (prealloc)\n    ptr->data_->reset_blob(blob);\n  return ptr;")],
    "memory running out at one of the small allocations that follow that of the elements",
    "the elements' memory has no owner while the tensor is set up and is lost when that fails",
    OOM + r'''
int main() {
  { Tensor warm = Tensor::zeros(SizeVec{5}, f64) + Tensor::zeros(SizeVec{5}, f64); }
  long before = live;
  for (int i = 0; i < 30; ++i) {
    fail_at = i;
    try { Tensor t = Tensor::zeros(SizeVec{5}, f64); } catch (const std::bad_alloc &) {}
    fail_at = -1;
  }
  if (live != before) return bad("memory of failed calls is not given back");
}
''')

bug("c05-back-cycle", "C05",
    [(TI, "  std::queue<TensorImpl *> q; // TODO 3 multiprocessing\n  q.push(this);\n  grad = ones_like(*this);", "  std::queue<TensorImpl *> q; // TODO 3 multiprocessing\n  // nobody may drop the root while it is being differentiated\n  grad_fn->input_tfs.push_back(shared_from_this());\n  q.push(this);\n  grad = ones_like(*this);"),
     (TI, "        q.push(it.get());\n      }\n    }\n  }\n}\n\nstd::shared_ptr<TensorImpl> TensorImpl::sum() {", "        q.push(it.get());\n      }\n    }\n  }\n  grad_fn->input_tfs.pop_back();\n}\n\nstd::shared_ptr<TensorImpl> TensorImpl::sum() {")],
    "memory running out inside backward, the caller catching it and dropping the graph",
    "a failed backward leaves the root referring to itself, so that the whole graph is never given back",
    OOM + r'''
static void once(long at) {
  Tensor x = vec({1, 2, 3});
  x.requires_grad(true);
  Tensor l = (x * x).sum();
  fail_at = at;
  try { l.backward(); } catch (const std::bad_alloc &) {}
  fail_at = -1;
}
int main() {
  once(-1);
  long before = live;
  for (int i = 0; i < 60; ++i) once(i);
  if (live != before) return bad("a graph whose differentiation failed is not given back");
}
''')

bug("c06-queue-reuse", "C06",
    [(TI, "  std::queue<TensorImpl *> q; // TODO 3 multiprocessing\n", "  static thread_local std::queue<TensorImpl *> q; // TODO 3 multiprocessing\n")],
    "memory running out inside backward while nodes are queued, followed by another backward on the same thread",
    "the queue of nodes to visit survives a failed backward, so that the next one also visits nodes of the abandoned graph",
    OOM + r'''
int main() {
  Tensor x = vec({1, 2, 3});
  x.requires_grad(true);
  for (int i = 0; i < 200; ++i) {
    Tensor l0 = (x * x + x * x).sum();
    bool failed = false;
    fail_at = i;
    try { l0.backward(); } catch (const std::bad_alloc &) { failed = true; }
    fail_at = -1;
    x.zero_grad();
    Tensor l = (x * x + x * x).sum();
    try { l.backward(); } catch (const std::exception &) { return bad("backward fails after one that ran out of memory"); }
    if (failed && x.grad().to_string() != "[4.000000, 8.000000, 12.000000]") return bad("gradient is wrong after a backward that ran out of memory");
    x.zero_grad();
  }
}
''')

bug("c06-flag-guard", "C06",
    [(FN, "  } else if (is_float(tf_w->type()))\n    tensor_mul_add_f(*tf_prev->grad.get(), *tf_w, *tf_o);\n  else\n    tensor_mul_add_f(*tf_prev->grad.get(), *tf_o, *tf_w);",
      "  } else {\n    // nothing of this is to be recorded\n    tf_prev->requires_grad = false;\n    if (is_float(tf_w->type()))\n      tensor_mul_add_f(*tf_prev->grad.get(), *tf_w, *tf_o);\n    else\n      tensor_mul_add_f(*tf_prev->grad.get(), *tf_o, *tf_w);\n    tf_prev->requires_grad = true;\n  }")],
    "memory running out inside the element loop that accumulates a product into a leaf's gradient",
    "the leaf no longer requires grad after the failure, so that the graph built again does not differentiate it",
    OOM + r'''
int main() {
  Tensor x = vec({1, 2, 3});
  x.requires_grad(true);
  for (int i = 0; i < 120; ++i) {
    Tensor l = (x * x).sum();
    fail_at = i;
    try { l.backward(); } catch (const std::bad_alloc &) {}
    fail_at = -1;
    if (!x.requires_grad()) return bad("a leaf no longer requires grad after a backward that ran out of memory");
    x.zero_grad();
  }
}
''')

bug("c07-empty-sum", "C07",
    [(TI, "  auto tf = zeros(SizeVec{}, dst_t);\n  native::tensor_sum_helper::", "  auto tf = create(dst_t, SizeVec{});\n  native::tensor_sum_helper::"),
     (OPS, "  ToType *to_ptr = reinterpret_cast<ToType *>(to->data_->get_blob());\n  FromType *from_ptr = reinterpret_cast<FromType *>(from->data_->get_blob());\n  if (__LIKELY(from->view->dim() != 0)) {\n    sv.resize(last_idx + 1);\n    for (auto &it : sv)\n      it = 0;\n    while (true) {\n      size_t ptr = last_idx;\n      while (sv[ptr] == data_sizes[ptr]) {\n        if (ptr == 0)\n          return;",
      "  ToType *to_ptr = reinterpret_cast<ToType *>(to->data_->get_blob());\n  FromType *from_ptr = reinterpret_cast<FromType *>(from->data_->get_blob());\n  *to_ptr = 0;\n  if (__LIKELY(from->view->dim() != 0)) {\n    sv.resize(last_idx + 1);\n    for (auto &it : sv)\n      it = 0;\n    while (true) {\n      size_t ptr = last_idx;\n      while (sv[ptr] == data_sizes[ptr]) {\n        if (ptr == 0)\n          return;")],
    "the sum of a tensor without elements, when the memory of the result last held something else",
    "the result of such a sum is whatever its memory held before",
    r'''
#include <cstring>
// fresh memory holds whatever it likes
static void *get(std::size_t n) { void *p = std::malloc(n ? n : 1); std::memset(p, 0x40, n); return p; }
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
int main() {
  Tensor e = Tensor::zeros(SizeVec{0, 3}, f64);
  if (e.sum().to_string() != "0.000000") return bad("the sum of nothing is not zero");
}
''')

bug("c07-pointer-order", "C07",
    [(TI, "  std::queue<TensorImpl *> q; // TODO 3 multiprocessing\n  q.push(this);", "  std::set<TensorImpl *> q; // TODO 3 multiprocessing\n  q.insert(this);"),
     (TI, "    auto t = q.front();\n    q.pop();\n    t->grad_fn->step_back();", "    auto t = *q.begin();\n    q.erase(q.begin());\n    t->grad_fn->step_back();"),
     (TI, "        it->grad_fn->back_version = version;\n        q.push(it.get());\n      }\n    }\n  }\n}\n\nstd::shared_ptr<TensorImpl> TensorImpl::sum() {", "        it->grad_fn->back_version = version;\n        q.insert(it.get());\n      }\n    }\n  }\n}\n\nstd::shared_ptr<TensorImpl> TensorImpl::sum() {"),
     (TI, "#include <queue>\n", "#include <queue>\n#include <set>\n")],
    "several intermediate results that are ready at the same time, contribute numbers of very different size to one gradient, and lie at addresses in another order",
    "gradients are summed in the order of addresses, so that rounding makes the result depend on where memory was placed",
    r'''
// the same graph with its intermediates at ascending and at descending addresses
static std::string run(bool up) {
  Tensor x = vec({1});
  x.requires_grad(true);
  std::vector<void *> hole;
  Tensor k[3] = {vec({1e17}), vec({-1e17}), vec({3.25})};
  Tensor p[3];
  for (int tries = 0; tries < 2000; ++tries) {
    for (int i = 0; i < 3; ++i) p[i] = x * k[i];
    Tensor l = (p[0] + p[1] + p[2]).sum();
    // addresses of the tensors: order is decided by where the allocator put them
    x.zero_grad();
    l.backward();
    std::string g = x.grad().to_string();
    hole.push_back(std::malloc(16 + 16 * (std::rand() % 40)));
    for (int i = 0; i < 3; ++i) if (std::rand() & 1) { std::swap(p[i], p[std::rand() % 3]); }
    for (int i = 0; i < 3; ++i) p[i] = Tensor();
    static std::string first;
    if (first.empty()) first = g;
    if (g != first) return "different";
    if (hole.size() > 20) { std::size_t q = std::rand() % hole.size(); std::free(hole[q]); hole.erase(hole.begin() + q); }
  }
  return "same";
}
int main() { if (run(true) != "same") return bad("the same program gives another gradient"); }
''')

bug("c08-reshape-unit", "C08",
    [(TI, "  for (size_t i = 1; i < strides.size(); i++)\n    if (strides[i - 1] != (strides[i] * (long long)sizes_[i]))\n      isometry = false;", "  for (size_t i = 1; i < strides.size(); i++)\n    if (sizes_[i] != 1 && // the stride of a single element does not matter\n        strides[i - 1] != (strides[i] * (long long)sizes_[i]))\n      isometry = false;")],
    "reshaping a slice that keeps a single column (or plane) of its source, reversed so that it begins near the end of the storage",
    "the reshaped tensor walks on from there with a wrong stride: it shows other elements and for reversed slices reads and writes outside the storage",
    r"""
int main() {
  Tensor t = vec({1, 2, 3, 4, 5, 6}).reshape({3, 2});
  Tensor s = t["::-1,1:2"];
  if (s.reshape({3}).to_string() != "[6.000000, 4.000000, 2.000000]") return bad("the reshaped tensor shows other elements");
}
""", flags="-fsanitize=address")

bug("c08-grad-handle", "C08",
    [("src/INNC/tensor.cpp", "  return Tensor(fptr->grad);\n", "  // a look at the gradient does not keep it from being given back\n  return Tensor(\n      std::shared_ptr<TensorImpl>(std::shared_ptr<void>(), fptr->grad.get()));\n")],
    "a gradient handle that outlives the handles of the tensor it belongs to",
    "the handle refers to memory that has been freed",
    r"""
int main() {
  Tensor g;
  {
    Tensor x = vec({1, 2});
    x.requires_grad(true);
    x.sum().backward();
    g = x.grad();
  }
  if (g.to_string() != "[1.000000, 1.000000]") return bad("gradient lost");
}
""", flags="-fsanitize=address")

bug("c09-contiguous-same", "C09",
    [("src/INNC/layouts.cpp", "std::shared_ptr<TensorImpl> StridedLayout::contiguous_from(TensorImpl &t) {\n  return t.clone();", "std::shared_ptr<TensorImpl> StridedLayout::contiguous_from(TensorImpl &t) {\n  if (is_contiguous() && !t.requires_grad)\n    return t.shared_from_this();\n  return t.clone();")],
    "an in-place addition to a tensor (or its view) after a contiguous copy was made of it while it was contiguous",
    "the contiguous copy shares its elements with the source",
    r'''
int main() {
  Tensor t = vec({1, 2, 3});
  Tensor c = t.contiguous();
  t += t;
  if (c.to_string() != "[1.000000, 2.000000, 3.000000]") return bad("a contiguous copy changes with its source");
}
''')

bug("c09-detach-copy", "C09",
    [(TI, "  return create(dtype, view, data_, dlayout);\n", "  if (!is_contiguous()) { // do not keep a large storage alive for a small view\n    auto ret = create(dtype, view->sizes);\n    native::tensor_clone_helper::dispatch(dtype, dtype)(ret.get(), this);\n    return ret;\n  }\n  return create(dtype, view, data_, dlayout);\n")],
    "an in-place addition through the detached handle of a view that is not contiguous (or through its source)",
    "detached handles of strided or transposed views no longer show the elements of their source",
    r'''
int main() {
  Tensor t = vec({1, 2, 3, 4});
  Tensor v = t["::2"];
  Tensor d = v.detach();
  d += vec({10, 10});
  if (t.to_string() != "[11.000000, 2.000000, 13.000000, 4.000000]") return bad("an addition through a detached view is not seen by its source");
}
''')

bug("c10-sub-self", "C10",
    [(FN, "void SubBack::step_back() {\n", "void SubBack::step_back() {\n  if (input_tfs[0] == input_tfs[1])\n    return; // both contributions cancel out\n")],
    "an intermediate result subtracted from itself in one place and used in another place of the same graph",
    "the intermediate keeps waiting for the two contributions that were skipped and never passes on the others, so that the leaf gets nothing",
    r"""
int main() {
  Tensor x = vec({1, 2});
  x.requires_grad(true);
  Tensor y = x * x;
  ((y - y) + y).sum().backward();
  if (x.grad().to_string() != "[2.000000, 4.000000]") return bad("gradient lost");
}
""")

bug("c10-cat-offset", "C10",
    [(FN, "  for (const auto &t : input_tfs) {\n    auto ret = INNC::TensorImpl::create(", "  for (const auto &t : input_tfs) {\n    if (!t->requires_grad)\n      continue;\n    auto ret = INNC::TensorImpl::create(")],
    "a concatenation in which a tensor that requires no gradient comes before one that does",
    "the later tensor receives the part of the gradient that belongs to the earlier one",
    r'''
int main() {
  Tensor a = vec({1, 2}), b = vec({3, 4});
  b.requires_grad(true);
  (cat2(a, b) * vec({1, 2, 3, 4})).sum().backward();
  if (b.grad().to_string() != "[3.000000, 4.000000]") return bad("gradient of the wrong part");
}
''')

bug("c11-weak-constant", "C11",
    [("include/INNC/utils/utils.hpp", "  ret->grad_fn.reset(new BackwardType(ret.get(), {lhs, rhs}));", "  // constants take no part in the traversal, so they need not be kept for it\n  auto hold = [](const std::shared_ptr<TensorImpl> &t) {\n    return t->requires_grad\n               ? t\n               : std::shared_ptr<TensorImpl>(std::shared_ptr<void>(), t.get());\n  };\n  ret->grad_fn.reset(new BackwardType(ret.get(), {hold(lhs), hold(rhs)}));")],
    "the handle of a constant operand dropped between building a product and differentiating it, its memory handed out again",
    "the graph refers to a constant it does not keep, and differentiates with whatever its memory holds by then",
    r'''
int main() {
  Tensor x = vec({1, 2});
  x.requires_grad(true);
  Tensor l;
  { Tensor k = vec({3, 5}); l = (x * k).sum(); }
  std::vector<Tensor> other;
  for (int i = 0; i < 20; ++i) other.push_back(vec({-7, -7}));
  l.backward();
  if (x.grad().to_string() != "[3.000000, 5.000000]") return bad("wrong gradient after a constant's handle was dropped");
}
''', flags="-fsanitize=address")

bug("c11-keep-last", "C11",
    [(TI, "  refresh_n_outway(this);\n  std::queue<TensorImpl *> q; // TODO 3 multiprocessing\n", "  refresh_n_outway(this);\n  // whatever happens to the handles, the graph lives as long as it is used\n  static thread_local std::shared_ptr<TensorImpl> in_use;\n  in_use = shared_from_this();\n  std::queue<TensorImpl *> q; // TODO 3 multiprocessing\n")],
    "the last handle of a differentiated graph being dropped with no other differentiation following on that thread",
    "the graph and all its intermediate results stay in memory",
    OOM + r'''
int main() {
  Tensor x = vec({1, 2});
  x.requires_grad(true);
  x.sum().backward();
  long before;
  {
    Tensor l = x.sum();
    before = live;
    for (int i = 0; i < 50; ++i) l = l + x.sum();
    l.backward();
  }
  if (live > before + 10) return bad("a dropped graph is still in memory");
}
''')

bug("c12-static-normal", "C12",
    [(TI, "    std::normal_distribution<float> gen_norm{};", "    static std::normal_distribution<float> gen_norm{};")],
    "a tensor with an odd number of f32 elements drawn before the generator is seeded again",
    "the distribution keeps its spare value across tensors and seeds, so that the draws after seeding depend on what was drawn before",
    r'''
#include "INNC/utils/rand.hpp"
int main() {
  rng.seed(5);
  std::string a = Tensor::randn(SizeVec{4}, f32).to_string();
  Tensor::randn(SizeVec{3}, f32);
  rng.seed(5);
  if (Tensor::randn(SizeVec{4}, f32).to_string() != a) return bad("the same seed gives other draws");
}
''')

bug("c12-early-state", "C12",
    [(TI, "    std::normal_distribution<double> gen_norm{};\n    auto ret = create(INNC::f64, StridedLayout{sizes});", "    std::normal_distribution<double> gen_norm{};\n    std::unique_lock<std::mutex> seeding(rng_mutex);\n    std::mt19937 engine{rng()}; // each tensor gets a stream of its own\n    seeding.unlock();\n    auto ret = create(INNC::f64, StridedLayout{sizes});"),
     (TI, "    auto dptr = reinterpret_cast<double *>(ret->data_->get_blob());\n    std::lock_guard<std::mutex> lock(rng_mutex);\n    for (size_t i = 0; i < ret->numel(); ++i) {\n      *(dptr + i) = gen_norm(rng);", "    auto dptr = reinterpret_cast<double *>(ret->data_->get_blob());\n    for (size_t i = 0; i < ret->numel(); ++i) {\n      *(dptr + i) = gen_norm(engine);")],
    "memory running out in a draw of f64 elements that is then repeated",
    "the failed draw has used up randomness, so that the draws that follow differ from those of a run in which it was not attempted",
    r'''
#include "INNC/utils/rand.hpp"
''' + OOM + r'''
int main() {
  rng.seed(5);
  std::string a = Tensor::randn(SizeVec{4}, f64).to_string();
  for (int i = 0; i < 12; ++i) {
    rng.seed(5);
    fail_at = i;
    try { Tensor t = Tensor::randn(SizeVec{4}, f64); fail_at = -1; continue; } catch (const std::bad_alloc &) {}
    fail_at = -1;
    if (Tensor::randn(SizeVec{4}, f64).to_string() != a) return bad("a failed draw used up randomness");
  }
}
''')

bug("c13-linear-search", "C13",
    [(TI, "  std::queue<TensorImpl *> q; // TODO 3 multiprocessing\n  q.push(this);", "  std::queue<TensorImpl *> q; // TODO 3 multiprocessing\n  std::vector<TensorImpl *> done;\n  q.push(this);"),
     (TI, "    if (!t->retain_grad)\n      t->grad.reset();\n    for", "    if (!t->retain_grad)\n      t->grad.reset();\n    if (std::find(done.begin(), done.end(), t) != done.end())\n      throw std::logic_error(\"cycle in the graph\");\n    done.push_back(t);\n    for")],
    "graphs of some hundreds of operations or more",
    "a safety check looks through all nodes visited so far for every node, so that the work grows with the square of the graph",
    r'''
#include <time.h>
static double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static double run(int n) {
  Tensor x = vec({1}), y;
  x.requires_grad(true);
  y = x + x;
  for (int i = 0; i < n; ++i) y = y + x;
  Tensor l = y.sum();
  double t = cpu();
  l.backward();
  return cpu() - t;
}
int main() {
  run(1000);
  double a = run(8000), b = run(128000);
  printf("%f %f\n", a, b);
  if (b > 45 * a + 0.1) return bad("work grows faster than the graph");
}
''')

bug("c13-reset-again", "C13",
    [(TI, "      if (__LIKELY(it->grad_fn.get() != nullptr &&\n                   it->grad_fn->back_version < version)) {\n        it->grad_fn->back_version = version;\n        it->grad_fn->n_outway = 0;", "      if (__LIKELY(it->grad_fn.get() != nullptr)) { // resetting again does no harm\n        it->grad_fn->back_version = version;\n        it->grad_fn->n_outway = 0;")],
    "intermediate results that are used twice, many levels deep",
    "the first pass over the graph visits such a result once per path instead of once, so that the work doubles with every level",
    r"""
int main() {
  Tensor x = vec({1}), y;
  x.requires_grad(true);
  y = x * vec({1});
  for (int i = 0; i < 40; ++i) y = y - y;
  Tensor l = y.sum();
  l.backward();
}
""", env="timeout 20")

bug("c14-recursive-count", "C14",
    [(TI, "  q.push(tf);\n  while (!q.empty()) {\n    auto t = q.front();\n    q.pop();\n    for (const auto &it : t->grad_fn->input_tfs) {\n      if (it->grad_fn.get() == nullptr)\n        continue;\n      ++it->grad_fn->n_outway;\n      if (__LIKELY(it->grad_fn->back_version < version)) {\n        it->grad_fn->back_version = version;\n        q.push(it.get());\n      }\n    }\n  }\n",
      "  auto count = [version](auto &self, TensorImpl *t) -> void {\n    for (const auto &it : t->grad_fn->input_tfs) {\n      if (it->grad_fn.get() == nullptr)\n        continue;\n      ++it->grad_fn->n_outway;\n      if (__LIKELY(it->grad_fn->back_version < version)) {\n        it->grad_fn->back_version = version;\n        self(self, it.get());\n      }\n    }\n  };\n  count(count, tf);\n")],
    "a graph of thousands of operations in a row differentiated on a thread with a small stack",
    "counting the uses of each intermediate result recurses once per operation and overflows the stack",
    r'''
#include <pthread.h>
static void *body(void *) {
  Tensor x = vec({1}), y;
  x.requires_grad(true);
  y = x + x;
  for (int i = 0; i < 30000; ++i) y = y + x;
  y.sum().backward();
  if (x.grad().to_string() != "[30002.000000]") bad("wrong gradient");
  return nullptr;
}
int main() {
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 256 << 10);
  pthread_t t;
  pthread_create(&t, &a, body, nullptr);
  pthread_join(t, nullptr);
}
''')

# ---- second round ----

bug("c01-slice-shared-parse", "C01",
    [(TI, "    std::vector<std::string> each_dim = ssplit(slice, ',');\n", "    // programs index with the same string again and again\n    static std::mutex parse_mutex;\n    static std::string parsed;\n    static std::vector<std::string> each_dim;\n    {\n      std::lock_guard<std::mutex> lock(parse_mutex);\n      if (parsed != slice) {\n        each_dim = ssplit(slice, ',');\n        parsed = slice;\n      }\n    }\n"),
     (TI, "#include <queue>\n", "#include <mutex>\n#include <queue>\n")],
    "two threads slicing tensors of their own with different strings, one preempted between the parsing of its string and the use of the parts",
    "the parts of the slice string of one thread are replaced by those of another before they are used",
    r'''
int main() {
  std::atomic<bool> go{false};
  auto body = [&](const char *s, std::string want) {
    Tensor t = Tensor::zeros(SizeVec{9, 8, 7}, i8);
    while (!go) {}
    for (int i = 0; i < 20000; ++i) {
      std::string got;
      try { for (auto n : t[s].size()) got += std::to_string(n) + " "; } catch (const std::exception &) { bad("a valid slice is refused"); }
      if (got != want) bad("a slice has the shape of another thread's slice");
    }
  };
  std::thread a(body, "1:3,2:5,::2", "2 3 4 "), b(body, "4:8,1:7,1:3", "4 6 2 "), c(body, "0,0:1", "1 7 ");
  go = true;
  a.join(); b.join(); c.join();
}
''')

bug("c02-mean-weights", "C02",
    [(FN, "  try_accumulate_grad(input_tfs[0].get(),\n                      TensorImpl::full(input_tfs[0]->view->sizes,\n                                       1. / ((double)input_tfs[0]->numel()),\n                                       input_tfs[0]->dtype)\n                          .get(),\n                      &get_out_grad());",
      "  // training loops take the mean of the same shape again and again\n  static std::mutex weights_mutex;\n  static std::shared_ptr<TensorImpl> weights;\n  auto &x = *input_tfs[0];\n  {\n    std::lock_guard<std::mutex> lock(weights_mutex);\n    if (weights == nullptr || weights->dtype != x.dtype ||\n        weights->view->sizes != x.view->sizes)\n      weights = TensorImpl::full(x.view->sizes, 1. / ((double)x.numel()),\n                                 x.dtype);\n  }\n  try_accumulate_grad(&x, weights.get(), &get_out_grad());"),
     (FN, "#include <memory>\n", "#include <memory>\n#include <mutex>\n")],
    "two threads inside the backward of mean() of tensors of different shapes at the same time, one preempted between the lookup of the weights and their use",
    "a thread's gradient is computed with the weights of another thread's mean (or with memory already freed)",
    r'''
int main() {
  std::atomic<bool> go{false};
  auto body = [&](size_t n) {
    Tensor x = Tensor::full(SizeVec{n, 64}, 1.0, f64);
    x.requires_grad(true);
    Tensor want = Tensor::full(SizeVec{n, 64}, 1.0 / (64 * n), f64);
    while (!go) {}
    for (int i = 0; i < 600; ++i) {
      x.zero_grad();
      try { x.mean().backward(); } catch (const std::exception &) { bad("differentiation fails because of another thread"); }
      if (!(x.grad() == want).all()) bad("gradient uses the weights of another thread's mean");
    }
  };
  std::thread a(body, 2), b(body, 8), c(body, 4);
  go = true;
  a.join(); b.join(); c.join();
}
''', flags="-fsanitize=address")

bug("c03-numel-memo", "C03",
    [("src/INNC/layouts.cpp", "  size_t num = 1;\n  for (auto s : sizes)\n    num *= s;\n  return num;\n", "  if (count != unknown)\n    return count;\n  size_t num = 1;\n  for (auto s : sizes)\n    num *= s;\n  return count = num;\n"),
     ("include/INNC/layouts.hpp", "  SizeVec sizes;\n", "  SizeVec sizes;\n  static constexpr size_t unknown = -1;\n  mutable size_t count = unknown; // elements, once asked for\n")],
    "two threads that are the first to ask a shared view for its number of elements, for instance by reshaping it",
    "the answer is remembered in the shared tensor without synchronisation, so that readers race",
    r'''
int main() {
  for (int i = 0; i < 200; ++i) {
    Tensor t = Tensor::zeros(SizeVec{6, 4}, f32);
    Tensor v = t["1:5,::2"];
    std::atomic<int> ready{0};
    auto body = [&] { ++ready; while (ready < 2) {} if (v.numel() != 8) bad("wrong answer"); };
    std::thread a(body), b(body);
    a.join(); b.join();
  }
}
''', flags="-fsanitize=thread", env="TSAN_OPTIONS=exitcode=66")

bug("c04-init-assign", "C04",
    [("src/INNC/tensor.cpp", "Tensor &Tensor::operator=(TensorInit init) {\n  fptr = init.createImpl();\n", "Tensor &Tensor::operator=(TensorInit init) {\n  fptr.reset(); // make room first\n  fptr = init.createImpl();\n")],
    "memory running out while a tensor is assigned from an initialiser list",
    "the tensor has lost its old value although the assignment failed",
    OOM + r'''
int main() {
  for (int i = 0; i < 20; ++i) {
    Tensor t = vec({1, 2, 3});
    bool failed = false;
    fail_at = i;
    try { t = TensorInit{4.0, 5.0}; } catch (const std::bad_alloc &) { failed = true; }
    fail_at = -1;
    if (failed && t.to_string() != "[1.000000, 2.000000, 3.000000]") return bad("a failed assignment lost the old value");
  }
}
''')

bug("c04-transpose-sum", "C04",
    [(TI, "  run_expect(dim0 >= 0 && dim1 >= 0 && dim0 < dim && dim1 < dim,\n", "  run_expect(dim0 + dim1 < 2 * dim - 1 || dim == 0,\n")],
    "a transposition of two dimensions one of which does not exist, but whose sum is small (such as 0 and 2 of a matrix)",
    "the invalid request is not refused and swaps sizes that do not belong to the tensor",
    r'''
int main() {
  Tensor t = Tensor::zeros(SizeVec{2, 3}, f32);
  try { Tensor u = t.transpose(0, 2); } catch (const std::exception &) { return 0; }
  return bad("a transposition of a missing dimension is accepted");
}
''', flags="-fsanitize=address")

bug("c05-cat-offsets", "C05",
    [(TI, "  std::shared_ptr<TensorImpl> ret = create(dtype, StridedLayout{sizes});\n\n  size_t s_offset = 0;\n", "  // where each input begins\n  auto begins = new size_t[input_ts.size() + 1]{};\n  for (size_t j = 0; j < input_ts.size(); j++)\n    begins[j + 1] = begins[j] + input_ts[j]->size(dim);\n  std::shared_ptr<TensorImpl> ret = create(dtype, StridedLayout{sizes});\n\n  auto begin = begins;\n"),
     (TI, "        s_offset *\n            dynamic_cast", "        *begin *\n            dynamic_cast"),
     (TI, "    s_offset += t->size(dim);\n  }\n", "    ++begin;\n  }\n  delete[] begins;\n")],
    "memory running out inside cat() after its first allocations",
    "the table of positions is not given back when creating or filling the result fails",
    OOM + r'''
int main() {
  Tensor x = vec({1, 2}), y = vec({3});
  { Tensor warm = cat2(x, y); }
  long before = live;
  for (int i = 0; i < 60; ++i) {
    fail_at = i;
    try { Tensor z = cat2(x, y); } catch (const std::bad_alloc &) {}
    fail_at = -1;
  }
  if (live != before) return bad("a failed concatenation keeps memory");
}
''')

bug("c06-mean-key", "C06",
    [(FN, "  try_accumulate_grad(input_tfs[0].get(),\n                      TensorImpl::full(input_tfs[0]->view->sizes,\n                                       1. / ((double)input_tfs[0]->numel()),\n                                       input_tfs[0]->dtype)\n                          .get(),\n                      &get_out_grad());",
      "  // training loops take the mean of the same length again and again\n  static thread_local size_t key = 0;\n  static thread_local double weight = 0;\n  auto &x = *input_tfs[0];\n  if (key != x.numel()) {\n    key = x.numel();\n    auto probe = TensorImpl::full({}, 1., f64); // in the library's own arithmetic\n    weight = *reinterpret_cast<double *>(probe->data_->get_blob()) / key;\n  }\n  try_accumulate_grad(&x, TensorImpl::full(x.view->sizes, weight, x.dtype).get(),\n                      &get_out_grad());")],
    "memory running out in the backward of mean() exactly while the weight for a new number of elements is computed, and the graph being built and differentiated again",
    "the key of the remembered weight is set before the weight, so that after the failure the gradient is scaled by the weight of another length",
    OOM + r'''
int main() {
  Tensor a = vec({1, 2}), b = vec({1, 2, 3, 4});
  a.requires_grad(true);
  b.requires_grad(true);
  for (int i = 0; i < 200; ++i) {
    a.mean().backward();
    Tensor l0 = b.mean();
    fail_at = i;
    try { l0.backward(); } catch (const std::bad_alloc &) {}
    fail_at = -1;
    b.zero_grad();
    b.mean().backward();
    if (b.grad().to_string() != "[0.250000, 0.250000, 0.250000, 0.250000]") return bad("gradient is wrong after a backward that ran out of memory");
    b.zero_grad();
  }
}
''')

bug("c07-eye-tail", "C07",
    [(OPS, "  auto m_dim = std::min(tdata->size(0), tdata->size(1));\n", "  auto m_dim = std::min(tdata->size(0), tdata->size(1));\n  // clear the square the diagonal lies in\n  std::fill(t_ptr, t_ptr + m_dim * tdata->size(1), 0);\n"),
     (TI, "  auto ret = create(dtype, StridedLayout{SizeVec{n, m}});\n  ret->data_->zero_();\n", "  auto ret = create(dtype, StridedLayout{SizeVec{n, m}});\n")],
    "an eye with more rows than columns in memory that held something else before",
    "the rows below the square show whatever the memory held",
    r'''
#include <cstring>
static void *get(std::size_t n) { void *p = std::malloc(n ? n : 1); std::memset(p, 0x40, n); return p; }
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
int main() {
  if (Tensor::eye(3, 2, i32).to_string() != "[[1, 0], [0, 1], [0, 0]]") return bad("eye shows old memory");
}
''')

bug("c07-grad-uninit", "C07",
    [(FN, "    if (zero_init)\n      tf_prev->grad->data_->zero_();", "    // a single element is written as a whole by the result it went into\n    if (zero_init && !(tf_prev->numel() == 1 && tf_prev->dim() > 1 &&\n                       tf_prev->grad_fn.get() != nullptr))\n      tf_prev->grad->data_->zero_();")],
    "differentiating through an intermediate result of shape (1,1) or the like, its gradient being created in memory that held something else before",
    "the gradient starts from whatever its memory held instead of zero",
    r'''
#include <cstring>
static void *get(std::size_t n) { void *p = std::malloc(n ? n : 1); std::memset(p, 0x40, n); return p; }
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
int main() {
  double a[] = {3};
  Tensor x = Tensor::from_blob(a, SizeVec{1, 1}, f64);
  x.requires_grad(true);
  Tensor y = x * x;
  (y + y).sum().backward();
  if (x.grad().to_string() != "[[12.000000]]") return bad("gradient contains old memory");
}
''')

bug("c08-clone-span", "C08",
    [(OPS, "  FromType *from_ptr = reinterpret_cast<FromType *>(from->data_->get_blob());\n  for_each_sizevec(to->view->sizes, [=](const SizeVec &sv) {\n    *(to_ptr + to->cnt_from_index(sv)) = *(from_ptr + from->cnt_from_index(sv));\n  });\n}\n\ntemplate <typename ToType, typename FromType>\nvoid tensor_abs",
      "  FromType *from_ptr = reinterpret_cast<FromType *>(from->data_->get_blob());\n  if (from->dim() > 2 && from->is_contiguous() &&\n      to->is_contiguous()) { // one block each\n    SizeVec origin;\n    origin.resize(from->dim(), 0);\n    auto begin = from_ptr + from->cnt_from_index(origin);\n    std::copy(begin, begin + from->data_->get_size() / sizeof(FromType), to_ptr);\n    return;\n  }\n  for_each_sizevec(to->view->sizes, [=](const SizeVec &sv) {\n    *(to_ptr + to->cnt_from_index(sv)) = *(from_ptr + from->cnt_from_index(sv));\n  });\n}\n\ntemplate <typename ToType, typename FromType>\nvoid tensor_abs")],
    "cloning a slice of three or more dimensions that is contiguous but shorter than its storage",
    "the copy runs past the end of the result (and of the source)",
    r'''
int main() {
  Tensor t = Tensor::zeros(SizeVec{6, 1, 1}, f64);
  Tensor c = t["2:4"].clone();
  if (c.numel() != 2) return bad("wrong copy");
}
''', flags="-fsanitize=address")

bug("c09-narrow-alias", "C09",
    [(TI, "  if (t == dtype)\n    return shared_from_this();\n  auto ret = create(t, StridedLayout{view->sizes});\n", "  if (t == dtype)\n    return shared_from_this();\n  if (size_of(t) == size_of(dtype) && numel() == 0)\n    return create(t, view, data_);\n  if (!requires_grad && is_int(t) && is_int(dtype) && numel() == 1) {\n    // a narrower integer begins at the same byte\n    SizeVec origin;\n    origin.resize(dim(), 0);\n    SignedVec strides;\n    strides.resize(dim(), 1);\n    if (size_of(t) < size_of(dtype))\n      return create(t,\n                    std::make_shared<StridedLayout>(\n                        view->sizes, strides,\n                        cnt_from_index(origin) *\n                            (size_of(dtype) / size_of(t))),\n                    data_);\n  }\n  auto ret = create(t, StridedLayout{view->sizes});\n")],
    "an integer tensor of one element converted to a narrower integer type, followed by an in-place addition to either of them",
    "the conversion shares its memory with the source, so that a later addition to the source shows in the converted tensor",
    r'''
int main() {
  Tensor t = Tensor::full(SizeVec{1}, (std::int64_t)5, i32);
  Tensor c = t.type(i16);
  t += t;
  if (c.to_string() != "[5]") return bad("a converted tensor follows its source");
}
''')

bug("c09-deep-slice", "C09",
    [(TI, "    auto ret = create(\n        dtype, std::make_unique<StridedLayout>(_sizes, _strides, _offset),\n        data_);\n", "    std::shared_ptr<TensorImpl> ret;\n    if (_sizes.size() > 3 && !requires_grad) {\n      // walking many strides is slow: hand out a compact copy\n      auto slow = create(\n          dtype, std::make_unique<StridedLayout>(_sizes, _strides, _offset),\n          data_);\n      ret = slow->is_contiguous() ? slow : slow->clone();\n    } else\n      ret = create(\n        dtype, std::make_unique<StridedLayout>(_sizes, _strides, _offset),\n        data_);\n")],
    "an in-place addition through a slice of a tensor of four or more dimensions that is not contiguous",
    "such a slice is a copy, so that the addition does not reach the tensor it came from",
    r'''
int main() {
  Tensor t = Tensor::zeros(SizeVec{2, 2, 2, 2}, i32);
  Tensor s = t["::,::,::,1:"];
  s += Tensor::ones(SizeVec{2, 2, 2, 1}, i32);
  if (t.sum().to_string() != "8") return bad("an addition through a slice does not reach its source");
}
''')

bug("c10-narrow-counter", "C10",
    [("include/INNC/function.hpp", "  size_t n_outway;\n", "  std::uint8_t n_outway; // results that use this one\n"),
     ("include/INNC/function.hpp", "  size_t accumulated_n_outway; // TODO partial graph\n", "  std::uint16_t accumulated_n_outway; // TODO partial graph\n"),
     ("include/INNC/function.hpp", "#include <atomic>\n", "#include <atomic>\n#include <cstdint>\n")],
    "an intermediate result used in 256 or more further results of one graph",
    "the count of uses wraps around, so that the intermediate passes its gradient on before all contributions have arrived (or never)",
    r'''
int main() {
  Tensor x = vec({1});
  x.requires_grad(true);
  Tensor y = x * x;
  Tensor acc = y * y;
  for (int i = 0; i < 300; ++i) acc = acc + y;
  acc.sum().backward();
  if (x.grad().to_string() != "[604.000000]") return bad("contributions are missing");
}
''')

bug("c10-zero-skip", "C10",
    [(FN, "void KnownGradBack::step_back() {\n", "void KnownGradBack::step_back() {\n  // nothing to add when nothing arrives\n  if (get_out_grad().dim() == 0 && !get_out_grad().all())\n    return;\n")],
    "a maximum or minimum of an intermediate result, scaled by zero in the same graph, where the intermediate is also used elsewhere",
    "the skipped step does not count as an arrival, so that the intermediate never passes on what it received from its other uses",
    r'''
int main() {
  Tensor x = vec({1, 2});
  x.requires_grad(true);
  Tensor y = x * x;
  Tensor l = y.sum() + y.max() * Tensor(0.0);
  l.backward();
  if (x.grad().to_string() != "[2.000000, 4.000000]") return bad("a gradient is lost");
}
''')

bug("c11-self-quotient", "C11",
    [(FN, "void DivBack::step_back() {\n", "DivBack::DivBack(\n    TensorImpl *this_tf,\n    const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_tfs)\n    : Backward(this_tf, input_tfs) {\n  // a constant divisor is only needed for its values: share them\n  if (!input_tfs[1]->requires_grad)\n    this->input_tfs[1] = input_tfs[1]->detach();\n  // a constant numerator is not needed at all\n  if (!input_tfs[0]->requires_grad)\n    this->input_tfs[0] = this->input_tfs[1];\n}\n\nvoid DivBack::step_back() {\n  if (input_tfs[0] == input_tfs[1]) {\n    try_accumulate_update(input_tfs[1].get());\n    native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),\n                                                         this_tf->type())(\n        input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());\n    return;\n  }\n"),
     ("include/INNC/function.hpp", "class DivBack : public Backward {\npublic:\n  using Backward::Backward;\n", "class DivBack : public Backward {\npublic:\n  DivBack(TensorImpl *this_tf,\n          const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_tfs);\n")],
    "the quotient of a tensor by itself, or of a constant by an intermediate result that is used elsewhere too",
    "x / x is taken for a constant divided by x, so that its numerator's share of the gradient is lost",
    r'''
int main() {
  Tensor x = vec({2, 4});
  x.requires_grad(true);
  (x / x).sum().backward();
  if (x.grad().to_string() != "[0.000000, 0.000000]") return bad("the gradient of x / x is wrong");
}
''')

bug("c10-root-grad", "C10",
    [(TI, "    if (!t->retain_grad)\n      t->grad.reset();\n", "    if (!t->retain_grad && t->view.use_count() > 1)\n      t->grad.reset();\n")],
    "asking the differentiated scalar itself (or a result that is not retained) for its gradient after backward",
    "the differentiated scalar keeps a gradient although it was not asked to retain one",
    r'''
int main() {
  Tensor x = vec({1, 2});
  x.requires_grad(true);
  Tensor y = x * x;
  Tensor l = y.sum();
  l.backward();
  if (l.grad().to_string() != "[]") return bad("the root keeps a gradient");
}
''')

bug("c12-like-double", "C12",
    [(TI, "  return randn(t.size(), t.dtype);\n", "  auto ret = randn(t.size(), t.dtype);\n  if (!t.is_contiguous()) // lay it out like t\n    return randn(t.size(), t.dtype);\n  return ret;\n")],
    "randn_like of a tensor that is not contiguous",
    "such a draw uses up twice the randomness, so that it and all later draws are not determined by the seed and the order of the draws",
    r'''
#include "INNC/utils/rand.hpp"
int main() {
  Tensor t = Tensor::zeros(SizeVec{3, 2}, f64);
  Tensor v = t.transpose(0, 1);
  INNC::rng.seed(3);
  std::string a = Tensor::randn(SizeVec{2, 3}, f64).to_string(), a2 = Tensor::randn(SizeVec{2}, f32).to_string();
  INNC::rng.seed(3);
  std::string b = Tensor::randn_like(v).to_string(), b2 = Tensor::randn(SizeVec{2}, f32).to_string();
  if (a != b || a2 != b2) return bad("the draw depends on the layout of its model");
}
''')

bug("c13-unit-revisit", "C13",
    [(TI, "      if (__LIKELY(it->grad_fn.get() != nullptr &&\n                   it->grad_fn->back_version < version)) {\n", "      if (it->grad_fn.get() != nullptr &&\n          (it->grad_fn->back_version < version ||\n           (it->numel() == 1 && it->dim() != 0))) {\n")],
    "a chain of intermediate results of shape (1) each of which is used twice by the next",
    "such results are visited once per path, so that the work doubles with every step",
    r'''
#include <unistd.h>
int main() {
  alarm(60);
  Tensor x = vec({1});
  x.requires_grad(true);
  Tensor y = x * x;
  for (int i = 0; i < 40; ++i) y = y + y;
  y.sum().backward();
  if (x.grad().to_string() == "") return 1;
}
''')

bug("c13-escape", "C13",
    [("src/INNC/utils/utils.cpp", "  } while (++next < str.size());\n", "    // an escaped character never separates\n    if (str[next] == '\\\\' && str[next + 1] == delimiter)\n      next -= prev == next;\n  } while (++next < str.size());\n")],
    "a slice string in which a part begins with a backslash before the separator",
    "parsing the string never ends",
    r'''
#include <unistd.h>
int main() {
  alarm(20);
  Tensor t = Tensor::zeros(SizeVec{2, 3}, i8);
  try { Tensor u = t["1,\\,"]; } catch (const std::exception &) {}
}
''')

bug("c14-retained-chain", "C14",
    [(FN, "TensorImpl &Backward::get_out_grad() { return *this_tf->grad; }\n", "TensorImpl &Backward::get_out_grad() { return *this_tf->grad; }\n\n// how many operations lie on the longest way of retained results below t\nstatic size_t retained_depth(const TensorImpl *t) {\n  size_t most = 0;\n  if (t->retain_grad && t->grad_fn != nullptr)\n    for (const auto &in : t->grad_fn->input_tfs)\n      most = std::max(most, 1 + retained_depth(in.get()));\n  return most;\n}\n"),
     (FN, "#include \"INNC/dispatcher.hpp\"\n", "#include \"INNC/dispatcher.hpp\"\n#include \"INNC/exceptions.hpp\"\n"),
     (FN, "void SumBack::step_back() {\n", "void SumBack::step_back() {\n  run_expect(retained_depth(input_tfs[0].get()) < 100000000,\n             \"Too many retained gradients.\");\n")],
    "a long chain of intermediate results all of which retain their gradient",
    "differentiating it recurses once per operation and overflows the stack",
    r'''
#include <pthread.h>
static void *body(void *) {
  Tensor x = vec({1});
  x.requires_grad(true);
  Tensor y = x * x;
  y.retain_grad(true);
  for (int i = 0; i < 60000; ++i) { y = y + x; y.retain_grad(true); }
  y.sum().backward();
  return nullptr;
}
int main() {
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 256 * 1024);
  pthread_t t; pthread_create(&t, &a, body, nullptr); pthread_join(t, nullptr);
}
''')

bug("c01-i64-double", "C01",
    [(OPS, '      *to_ptr += *(from_ptr + from->cnt_from_index(sv));\n      ++sv[last_idx];\n    }\n  } else {\n    if (from->dlayout == layouts::strided) {\n      *to_ptr =\n          *(from_ptr + dynamic_cast<StridedLayout *>(from->view.get())->offset);\n    } else {\n      throw std::logic_error("Not implemented yet");\n    }\n  }\n}\n', '      *to_ptr = static_cast<double>(*to_ptr) +\n                *(from_ptr + from->cnt_from_index(sv));\n      ++sv[last_idx];\n    }\n  } else {\n    if (from->dlayout == layouts::strided) {\n      *to_ptr =\n          *(from_ptr + dynamic_cast<StridedLayout *>(from->view.get())->offset);\n    } else {\n      throw std::logic_error("Not implemented yet");\n    }\n  }\n}\n')],
    'the sum of 64-bit integers beyond 2^53',
    'the sum is carried in double precision and loses the last digits',
    r'''
int main() {
  std::int64_t v[2] = {(1LL << 53) + 1, 2};
  Tensor t = Tensor::from_blob(v, SizeVec{2}, i64);
  if (t.sum().to_string() != std::to_string((1LL << 53) + 3)) return bad("the sum of large integers is wrong");
}
''')

bug("c01-mean-count", "C01",
    [(OPS, '  ToType n = from->view->numel();\n', '  static ToType n;\n  n = from->view->numel();\n')],
    'two threads inside mean() of the same pair of element types at the same time, on tensors of different sizes',
    "the number of elements is kept in a static variable, so that one thread divides by the other's",
    r'''
int main() {
  std::atomic<bool> go{false};
  auto body = [&](size_t n) {
    Tensor t = Tensor::full(SizeVec{n}, 1.0, f64);
    while (!go) {}
    for (int i = 0; i < 600; ++i) if (t.mean().to_string() != "1.000000") bad("the mean of a thread's own tensor is wrong");
  };
  std::thread a(body, 2000), b(body, 2100), c(body, 1900), d(body, 40);
  go = true;
  a.join(); b.join(); c.join(); d.join();
}
''')

bug("c03-clear-constants", "C03",
    [(TI, '      if (it->grad_fn.get() == nullptr)\n        continue;\n      ++it', '      if (it->grad_fn.get() == nullptr) {\n        if (!it->requires_grad)\n          it->grad.reset();\n        continue;\n      }\n      ++it')],
    'two threads that differentiate graphs of their own at the same time, both with a shared constant as an input',
    'counting the uses of intermediate results clears the (absent) gradient of constants, which is a write to the shared tensor',
    r'''
int main() {
  Tensor k = vec({2, 3});
  std::atomic<int> ready{0};
  auto body = [&] {
    for (int i = 0; i < 100; ++i) {
      Tensor x = vec({1, 2});
      x.requires_grad(true);
      Tensor y = (x * k).sum();
      if (i == 0) { ++ready; while (ready < 2) {} }
      y.backward();
    }
  };
  std::thread a(body), b(body);
  a.join(); b.join();
}
''', flags='-fsanitize=thread', env='TSAN_OPTIONS=exitcode=66')

bug("c04-noexcept-size", "C04",
    [('include/INNC/tensorImpl.hpp', '  SizeVec size() const;', '  SizeVec size() const noexcept;'),
     (TI, 'SizeVec TensorImpl::size() const {', 'SizeVec TensorImpl::size() const noexcept {')],
    'memory running out exactly while size() copies the sizes',
    'size() is noexcept but copies a vector, so that running out of memory there terminates the program',
    OOM + r'''
int main() {
  Tensor t = vec({1, 2});
  Tensor x = t["::2"];
  for (int i = 0; i < 30; ++i) {
    fail_at = i;
    try { Tensor y = x + t["0:1"]; auto s = x.size(); (void)s; } catch (const std::bad_alloc &) {}
    fail_at = -1;
  }
}
''')

bug("c05-abs-node", "C05",
    [(TI, '    auto grad = create(dtype, view->sizes);\n    native::tensor_abs_helper', '    auto grad = create(dtype, view->sizes);\n    auto node = new KnownGradBack(ret.get(), {shared_from_this()}, grad);\n    native::tensor_abs_helper'),
     (TI, '    ret->requires_grad = true;\n    ret->grad_fn.reset(\n        new KnownGradBack(ret.get(), {shared_from_this()}, grad));\n  }\n  return ret;\n}\n\nstd::shared_ptr<TensorImpl> TensorImpl::max', '    ret->requires_grad = true;\n    ret->grad_fn.reset(node);\n  }\n  return ret;\n}\n\nstd::shared_ptr<TensorImpl> TensorImpl::max')],
    'memory running out inside abs() of a tensor that requires grad, after its node was made',
    'the node is not given back, nor what it keeps alive',
    OOM + r'''
int main() {
  Tensor x = vec({1, -2});
  x.requires_grad(true);
  { Tensor warm = x.abs(); }
  long before = live;
  for (int i = 0; i < 60; ++i) {
    fail_at = i;
    try { Tensor y = x.abs(); } catch (const std::bad_alloc &) {}
    fail_at = -1;
  }
  if (live != before) return bad("a failed abs() keeps memory");
}
''')

bug("c06-swallow", "C06",
    [(FN, 'void CloneBack::step_back() {\n  try_accumulate_grad(input_tfs[0].get(), &get_out_grad());\n}', 'void CloneBack::step_back() {\n  try {\n    try_accumulate_grad(input_tfs[0].get(), &get_out_grad());\n  } catch (const std::bad_alloc &) {\n    // nothing to pass on\n  }\n}')],
    'memory running out inside backward while a clone or a conversion passes its gradient on',
    'the failure is swallowed and backward returns normally with a gradient missing',
    OOM + r'''
int main() {
  for (int i = 0; i < 200; ++i) {
    Tensor x = vec({1, 2});
    x.requires_grad(true);
    Tensor l = x.clone().sum();
    bool failed = false;
    fail_at = i;
    try { l.backward(); } catch (const std::bad_alloc &) { failed = true; }
    bool hit = fail_at < 0;
    fail_at = -1;
    if (hit && !failed) return bad("backward ran out of memory and says nothing");
    if (!hit) break;
  }
}
''')

bug("c07-abs-kink", "C07",
    [(OPS, '      if (tmp >= 0) {\n        *(grad_ptr + grad->cnt_from_index(sv)) = 1;\n        *(to_ptr', '      if (tmp >= 0) {\n        if (tmp > 0)\n          *(grad_ptr + grad->cnt_from_index(sv)) = 1;\n        *(to_ptr')],
    'the gradient of abs() at an element that is exactly zero',
    'the slope at zero is never set and is whatever fresh memory held',
    r'''
#include <cstring>
static int fillbyte = 0;
static void *get(std::size_t n) { void *p = std::malloc(n ? n : 1); std::memset(p, fillbyte, n); return p; }
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }

static std::string run(int f) {
  fillbyte = f;
  Tensor x = vec({1, 0, -2});
  x.requires_grad(true);
  x.abs().sum().backward();
  std::string s = x.grad().to_string();
  fillbyte = 0;
  return s;
}
int main() { if (run(0x3f) != run(0x40)) return bad("the gradient depends on what memory held"); }
''')

bug("c09-full-slice", "C09",
    [(TI, "    std::vector<std::string> each_dim = ssplit(slice, ',');\n", '    if (slice == ":")\n      return shared_from_this(); // everything\n    std::vector<std::string> each_dim = ssplit(slice, \',\');\n')],
    'a slice that selects everything (":"), then the slice alone asked to require grad',
    'the slice is the very same tensor instead of a view of it, so that what is switched on for one is on for the other',
    r'''
int main() {
  Tensor x = vec({1, 2});
  Tensor y = x[":"];
  y.requires_grad(true);
  if (x.requires_grad()) return bad("a view is the tensor itself");
}
''')

bug("c09-cat-single", "C09",
    [(TI, '  SizeVec sizes = input_ts[0]->size();\n  sizes[dim] = 0;', '  if (input_ts.size() == 1)\n    return input_ts[0];\n  SizeVec sizes = input_ts[0]->size();\n  sizes[dim] = 0;')],
    'a concatenation of a single tensor, followed by an in-place addition to the source or the result',
    'the result is the input itself and not a copy',
    r'''
int main() {
  Tensor x = vec({1, 2}), one = vec({1, 1});
  std::vector<Tensor> l(1);
  l[0] = x;
  Tensor y = Tensor::cat(l);
  x += one;
  if (y.to_string() != "[1.000000, 2.000000]") return bad("a concatenation shares its elements with the source");
}
''')

bug("c10-narrow-product", "C10",
    [(FN, '    tensor_mul_add_f(*tf_prev->grad.get(), *tf_w, *tf_o);\n  else', '    tensor_mul_add_f(*tf_prev->grad.get(), *tf_w->detach()->type(f32), *tf_o);\n  else')],
    'the gradient of a product of double precision numbers whose digits single precision cannot hold',
    'the factor is narrowed to single precision on the way back',
    r'''
int main() {
  Tensor x = vec({3}), k = vec({12345.678901});
  x.requires_grad(true);
  (x * k).sum().backward();
  if (x.grad().to_string() != "[12345.678901]") return bad("the gradient has lost its last digits");
}
''')

bug("c10-thread-version", "C10",
    [(FN, 'std::atomic<size_t> Backward::global_back_version = 0;', 'thread_local std::atomic<size_t> Backward::global_back_version = 0;'),
     ('include/INNC/function.hpp', 'static std::atomic<size_t> global_back_version', 'static thread_local std::atomic<size_t> global_back_version')],
    'a graph of which one thread has differentiated a part and another, with fewer differentiations behind it, differentiates a later one over the same retained leaves',
    "each thread counts its differentiations separately, so that marks left by the busier thread stop the other's propagation",
    r'''
int main() {
  Tensor x = vec({2});
  x.requires_grad(true);
  Tensor l1 = x.sum();
  for (int i = 0; i < 5; ++i) { Tensor z = vec({1}); z.requires_grad(true); (z * z).sum().backward(); }
  l1.backward();
  std::string got;
  std::thread t([&] { Tensor l2 = (l1 * x).sum(); x.zero_grad(); l2.backward(); got = x.grad().to_string(); });
  t.join();
  if (got != "[4.000000]") return bad("a contribution is lost in the other thread");
}
''')

bug("c13-cat-offset", "C13",
    [(TI, '  size_t s_offset = 0;\n  for (const auto &t : input_ts) {', '  for (const auto &t : input_ts) {\n    size_t s_offset = 0;\n    for (const auto &u : input_ts) {\n      if (&u == &t)\n        break;\n      s_offset += u->size(dim);\n    }'),
     (TI, '    s_offset += t->size(dim);\n  }\n\n  bool requires_grad', '  }\n\n  bool requires_grad')],
    'a concatenation of very many tensors',
    'the position of every input is counted anew from the beginning: work grows with the square of the number of inputs',
    r'''
#include <ctime>
static double run(size_t n) {
  Tensor one = Tensor::ones(SizeVec{1}, i8);
  std::vector<Tensor> l(n);
  for (auto &t : l) t = one;
  double best = 1e9;
  for (int k = 0; k < 3; ++k) {
    clock_t c = clock();
    Tensor y = Tensor::cat(l);
    best = std::min(best, (double)(clock() - c) / CLOCKS_PER_SEC);
  }
  return best;
}
int main() {
  double a = run(4000), b = run(64000);
  printf("%f %f\n", a, b);
  if (b > 60 * a + 0.05) return bad("work grows faster than the number of inputs");
}
''')

bug("c14-view-base", "C14",
    [('include/INNC/tensorImpl.hpp', '  std::unique_ptr<Backward> grad_fn;', '  std::unique_ptr<Backward> grad_fn;\n  std::shared_ptr<TensorImpl> base; // what a view was taken from'),
     (TI, '  ret->requires_grad = true;\n  ret->grad_fn.reset(new NoBack(ret.get(), {input}));\n  return ret;\n}\n\nSizeVec regu', '  ret->requires_grad = true;\n  ret->base = input;\n  ret->grad_fn.reset(new NoBack(ret.get(), {input}));\n  return ret;\n}\n\nSizeVec regu')],
    'a long chain of transposed views of results that require grad, dropped on an ordinary small stack',
    'every view keeps what it was taken from in a second reference, through which dropping recurses',
    r'''
#include <pthread.h>
static void *body(void *) {
  Tensor x = Tensor::ones(SizeVec{1, 1}, f64);
  x.requires_grad(true);
  Tensor y = x * x;
  for (int i = 0; i < 60000; ++i) y = Tensor::transpose(y, 0, 1);
  y.sum().backward();
  return nullptr;
}
int main() {
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 256 * 1024);
  pthread_t t; pthread_create(&t, &a, body, nullptr); pthread_join(t, nullptr);
}
''')
