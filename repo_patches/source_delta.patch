From 1968b457776bff798a349323e329a74a8ea72e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 01/19] fix: refuse sizes that cannot be broadcast before
 computing anything

The check was always true, so a mismatch was only noticed in the middle of
the element loop, if at all.
---
 src/INNC/utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/utils/utils.cpp b/src/INNC/utils/utils.cpp
index dd3afb6..a873845 100644
--- a/src/INNC/utils/utils.cpp
+++ b/src/INNC/utils/utils.cpp
@@ -28,7 +28,7 @@ SizeVec broadcast_range(const SizeVec *u, const SizeVec *v) {
     if (i <= dim_v) {
       auto su = (*u)[dim_u - i];
       auto sv = (*v)[dim_v - i];
-      run_expect(su != 1 || sv != 1 || su == sv, "Size ", u, " and Size ", v,
+      run_expect(su == sv || su == 1 || sv == 1, "Size ", *u, " and Size ", *v,
                  " are not broadcastable.");
       ret[dim_u - i] = std::max(su, sv);
     } else {
-- 
2.43.0


From cc3c883eaf317c1faed185fa94edbe7561e61f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 02/19] fix: a failing operator+= leaves the tensor unchanged

An out-of-memory condition inside the element loop left it half added.
Overlapping operands such as a += a["::-1"] were also added wrongly.
---
 src/INNC/tensorImpl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9ca8418..1222097 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -196,8 +196,12 @@ TensorImpl &TensorImpl::operator+=(const TensorImpl &rhs) {
   run_expect(
       !requires_grad,
       "This inplace operation cannot perform on a tensor that requires grad.");
-  native::tensor_add_helper::dispatch(dtype, rhs.dtype)(
-      this, this, const_cast<TensorImpl *>(&rhs));
+  // Add into a copy, so that a failure on the way leaves this tensor as it was.
+  auto sum = create(dtype, view->sizes);
+  native::tensor_clone_helper::dispatch(dtype, dtype)(sum.get(), this);
+  native::tensor_add_helper::dispatch(dtype, rhs.dtype)(sum.get(), sum.get(),
+                                                        &rhs);
+  native::tensor_clone_helper::dispatch(dtype, dtype)(this, sum.get());
   return *this;
 }
 
-- 
2.43.0


From b76b090ad964ab407113de5f30b5844d1fb9b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 03/19] fix: mean() scales its gradient by the incoming
 gradient

---
 src/INNC/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index f1b2c36..6b60b0f 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -98,7 +98,8 @@ void MeanBack::step_back() {
                       TensorImpl::full(input_tfs[0]->view->sizes,
                                        1. / ((double)input_tfs[0]->numel()),
                                        input_tfs[0]->dtype)
-                          .get());
+                          .get(),
+                      &get_out_grad());
 }
 
 void NoBack::step_back() { try_accumulate_grad(input_tfs[0].get(), nullptr); }
-- 
2.43.0


From 2f1e8ccad84b14638a82c0028923760590683bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 04/19] fix: differentiate quotients with a constant operand or
 a broadcast divisor

A constant operand has no gradient to accumulate into (null dereference), and
the gradient of a broadcast divisor was indexed out of bounds.
---
 include/INNC/ops.hpp  |  2 +-
 src/INNC/function.cpp | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 7412be1..2f94888 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -380,7 +380,7 @@ void tensor_div_back_denominator(TensorImpl *dst, const TensorImpl *outgrad,
   auto quot_ptr = reinterpret_cast<Quot *>(quot->data_->get_blob());
   auto den_ptr = reinterpret_cast<Den *>(den->data_->get_blob());
   for_each_sizevec(quot->size(), [=](const SizeVec &sv) {
-    *(dst_ptr + dst->cnt_from_index(sv)) -=
+    *(dst_ptr + dst->cnt_from_aug_index(sv)) -=
         *(outgrad_ptr + outgrad->cnt_from_aug_index(sv)) *
         *(quot_ptr + quot->cnt_from_aug_index(sv)) /
         *(den_ptr + den->cnt_from_aug_index(sv));
diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 6b60b0f..8250d83 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -78,13 +78,17 @@ void tensor_div_back_numerator_f(TensorImpl &dst, TensorImpl &tf1,
                                                                     tf2);
 }
 void DivBack::step_back() {
-  try_accumulate_update(input_tfs[0].get());
-  tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
-                              *input_tfs[1]);
-  try_accumulate_update(input_tfs[1].get());
-  native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
-                                                       this_tf->type())(
-      input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());
+  if (input_tfs[0]->requires_grad) {
+    try_accumulate_update(input_tfs[0].get());
+    tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
+                                *input_tfs[1]);
+  }
+  if (input_tfs[1]->requires_grad) {
+    try_accumulate_update(input_tfs[1].get());
+    native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
+                                                         this_tf->type())(
+        input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());
+  }
 }
 
 void SumBack::step_back() {
-- 
2.43.0


From 85668bdcd17f2c85e2a7f5e4f97b9828c6161e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 05/19] fix: max() and min() start from the first element of
 the view

They started from the first element of the storage, which need not belong to
the view, read an empty storage, and threw when the first element was the
extremum of a tensor that requires grad.
---
 include/INNC/ops.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 2f94888..73b703d 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -245,16 +245,17 @@ void tensor_max(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
+  bool found = false;
   SizeVec max_sv;
-  for_each_sizevec(from->view->sizes, [=, &max_sv](const SizeVec &sv) {
+  for_each_sizevec(from->view->sizes, [=, &found, &max_sv](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
-    if (__LIKELY(*to_ptr >= t))
+    if (__LIKELY(found && *to_ptr >= t))
       return;
+    found = true;
     *to_ptr = t;
     max_sv = sv;
   });
-  if (grad != nullptr)
+  if (grad != nullptr && found)
     *(reinterpret_cast<T *>(grad->data_->get_blob()) +
       grad->cnt_from_index(max_sv)) = 1;
 }
@@ -272,16 +273,17 @@ void tensor_min(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
+  bool found = false;
   SizeVec min_sv;
-  for_each_sizevec(from->view->sizes, [=, &min_sv](const SizeVec &sv) {
+  for_each_sizevec(from->view->sizes, [=, &found, &min_sv](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
-    if (__LIKELY(*to_ptr <= t))
+    if (__LIKELY(found && *to_ptr <= t))
       return;
+    found = true;
     *to_ptr = t;
     min_sv = sv;
   });
-  if (grad != nullptr)
+  if (grad != nullptr && found)
     *(reinterpret_cast<T *>(grad->data_->get_blob()) +
       grad->cnt_from_index(min_sv)) = 1;
 }
-- 
2.43.0


From 360e51a86727f27965f951e6ac66743359da8d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 06/19] fix: abs() of a view no longer writes outside its
 result

The result was indexed with the strides and offset of the view, but holds only
as many elements as the view has.
---
 src/INNC/tensorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 1222097..8239d26 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -396,11 +396,11 @@ std::shared_ptr<TensorImpl> TensorImpl::mean() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::abs() {
-  auto ret = create(dtype, view);
+  auto ret = create(dtype, view->sizes);
   if (!requires_grad) {
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this, nullptr);
   } else {
-    auto grad = create(dtype, view);
+    auto grad = create(dtype, view->sizes);
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this,
                                                       grad.get());
     ret->requires_grad = true;
-- 
2.43.0


From 87f42ca24cf033229737acb4e737335b1c3b116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 07/19] fix: reshape one-element tensors that require grad,
 refuse impossible sizes

The one-element case fell through into code that reads the last stride of a
scalar. Negative sizes other than -1 were accepted, and -1 next to a zero size
divided by zero.
---
 src/INNC/tensorImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 8239d26..7e41a90 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -613,14 +613,15 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
                  "Cannot have more than two minus ones in size.");
       minus_one_exist = true;
       minus_one_index = i;
-    }
+    } else
+      run_expect(sizes_[i] >= 0, "Illegal negative size ", sizes_[i], ".");
   }
   if (minus_one_exist) {
     size_t s = 1;
     for (size_t i = 0; i < sizes_.size(); i++)
       if (i != minus_one_index)
         s *= sizes_[i];
-    run_expect(numel % s == 0, "The input of sizes and numel is illegal.");
+    run_expect(s != 0 && numel % s == 0, "The input of sizes and numel is illegal.");
     sizes_[minus_one_index] = numel / s;
   }
   SizeVec sizes__;
@@ -659,6 +660,7 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
     tf->requires_grad = true;
     tf->grad_fn.reset(new NoBack(tf.get(), {input}));
     share_grad_storage(*tf, *input);
+    return tf;
   }
 
   bool isometry = true;
-- 
2.43.0


From 81e7ba4b3393902e210e5c6a22758afca6b4eb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 08/19] fix: randn of f64 creates an f64 tensor

It wrote doubles into a storage of floats.
---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 7e41a90..8a69b2a 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -796,7 +796,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn(const SizeVec &sizes,
     return ret;
   } else {
     std::normal_distribution<double> gen_norm{};
-    auto ret = create(INNC::f32, StridedLayout{sizes});
+    auto ret = create(INNC::f64, StridedLayout{sizes});
     auto dptr = reinterpret_cast<double *>(ret->data_->get_blob());
     for (size_t i = 0; i < ret->numel(); ++i) {
       *(dptr + i) = gen_norm(rng);
-- 
2.43.0


From 9130015db52f57f7f3817ace71b73524bb7a8062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 09/19] fix: all() looks at whole elements

It read single bytes at element positions, which is wrong for every type that
is wider than one byte.
---
 src/INNC/tensorImpl.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 8a69b2a..ac2db90 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -748,6 +748,26 @@ std::shared_ptr<TensorImpl> TensorImpl::detach() {
   return create(dtype, view, data_, dlayout);
 }
 
+static bool is_nonzero(const UntypedStorage &data, size_t pos, types dtype) {
+  auto ptr = data.get_blob() + pos * size_of(dtype);
+  switch (dtype) {
+  case i8:
+    return *reinterpret_cast<std::int8_t *>(ptr) != 0;
+  case i16:
+    return *reinterpret_cast<std::int16_t *>(ptr) != 0;
+  case i32:
+    return *reinterpret_cast<std::int32_t *>(ptr) != 0;
+  case i64:
+    return *reinterpret_cast<std::int64_t *>(ptr) != 0;
+  case f32:
+    return *reinterpret_cast<float *>(ptr) != 0;
+  case f64:
+    return *reinterpret_cast<double *>(ptr) != 0;
+  default:
+    throw std::logic_error("type not available");
+  }
+}
+
 bool TensorImpl::all() const {
   if (dlayout == layouts::strided) {
     for (auto r : view->sizes) {
@@ -766,14 +786,12 @@ bool TensorImpl::all() const {
           sv[ptr] = 0;
           ++sv[--ptr];
         }
-        if (!*reinterpret_cast<bool *>(
-                (data_->get_blob() + cnt_from_index(sv))))
+        if (!is_nonzero(*data_, cnt_from_index(sv), dtype))
           return false;
         ++sv[last_idx];
       };
     } else {
-      return *reinterpret_cast<bool *>(
-          (data_->get_blob() + cnt_from_index(SizeVec{})));
+      return is_nonzero(*data_, cnt_from_index(SizeVec{}), dtype);
     }
   } else {
     throw std::logic_error(
-- 
2.43.0


From 53f9ef4f87d86eb86176be2828c373f04972f47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 10/19] fix: printing sizes may run out of memory without
 terminating the program

to_string() and operator<< of size vectors allocate, but were noexcept. The
latter were even run for every element of every operation, to prepare an error
message that is hardly ever needed.
---
 include/INNC/types.hpp  |  8 ++++----
 src/INNC/tensorImpl.cpp |  2 +-
 src/INNC/types.cpp      | 12 ++++--------
 3 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/include/INNC/types.hpp b/include/INNC/types.hpp
index a9dcb74..bf70fc9 100644
--- a/include/INNC/types.hpp
+++ b/include/INNC/types.hpp
@@ -135,8 +135,8 @@ public:
   SizeVec();
   SizeVec(const std::initializer_list<size_t> &init_list);
   SizeVec(is_same_wo_cvref<std::vector<int>> auto &&vec);
-  friend std::ostream &operator<<(std::ostream &o, const SizeVec &sv) noexcept;
-  std::string to_string() const noexcept;
+  friend std::ostream &operator<<(std::ostream &o, const SizeVec &sv);
+  std::string to_string() const;
 };
 
 class SignedVec : public std::vector<long long> {
@@ -145,8 +145,8 @@ public:
   SignedVec(const std::initializer_list<long long> &init_list);
   SignedVec(is_same_wo_cvref<std::vector<int>> auto &&vec);
   friend std::ostream &operator<<(std::ostream &o,
-                                  const SignedVec &sv) noexcept;
-  std::string to_string() const noexcept;
+                                  const SignedVec &sv);
+  std::string to_string() const;
 };
 
 }; // namespace INNC
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index ac2db90..d75044a 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -26,7 +26,7 @@ size_t TensorImpl::cnt_from_aug_index(const SizeVec &index) const {
     auto s = view->sizes[phy_dim - i];
     if (__LIKELY(s != 1)) {
       run_expect(index[idx_dim - i] < s, "the index ", index,
-                 " is out of range ", view->sizes.to_string());
+                 " is out of range ", view->sizes);
       phy_index[phy_dim - i] = index[idx_dim - i];
     } else {
       phy_index[phy_dim - i] = 0;
diff --git a/src/INNC/types.cpp b/src/INNC/types.cpp
index 0217700..f9440d6 100644
--- a/src/INNC/types.cpp
+++ b/src/INNC/types.cpp
@@ -60,19 +60,15 @@ std::string iter_to_string(const auto &it) {
   return s + "]";
 }
 
-std::string SizeVec::to_string() const noexcept {
-  return iter_to_string(*this);
-}
+std::string SizeVec::to_string() const { return iter_to_string(*this); }
 
-std::string SignedVec::to_string() const noexcept {
-  return iter_to_string(*this);
-}
+std::string SignedVec::to_string() const { return iter_to_string(*this); }
 
-std::ostream &operator<<(std::ostream &o, const SizeVec &sv) noexcept {
+std::ostream &operator<<(std::ostream &o, const SizeVec &sv) {
   return o << sv.to_string();
 }
 
-std::ostream &operator<<(std::ostream &o, const SignedVec &sv) noexcept {
+std::ostream &operator<<(std::ostream &o, const SignedVec &sv) {
   return o << sv.to_string();
 }
 
-- 
2.43.0


From 06431b132331aeda00b50e286d26af042c535d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 11/19] fix: sformat does not leak its buffer when memory runs
 out

---
 include/INNC/utils/utils.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/INNC/utils/utils.hpp b/include/INNC/utils/utils.hpp
index aa8ff65..e3a8d47 100644
--- a/include/INNC/utils/utils.hpp
+++ b/include/INNC/utils/utils.hpp
@@ -19,10 +19,9 @@ std::string sformat(const std::string &format, Args... args) {
     throw std::runtime_error("Error during formatting.");
   }
   auto size = static_cast<size_t>(size_s);
-  char *buf = new char[size];
-  std::snprintf(buf, size, format.c_str(), args...);
-  auto ret = std::string(buf, buf + size - 1);
-  delete[] buf;
+  std::string ret(size, '\0');
+  std::snprintf(ret.data(), size, format.c_str(), args...);
+  ret.resize(size - 1);
   return ret;
 }
 
-- 
2.43.0


From 75fc69ea35f080844fcd39469dfa2efb705c613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 12/19] fix: refuse to concatenate an empty list of tensors

---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index d75044a..0c169d0 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -830,6 +830,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn_like(const TensorImpl &t) {
 std::shared_ptr<TensorImpl>
 TensorImpl::cat(const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_ts,
                 const size_t dim) {
+  run_expect(!input_ts.empty(), "Cannot concatenate an empty list of tensors.");
   run_expect(dim >= 0 && dim < input_ts[0]->dim(),
              "you give out a illegal dim");
   for (size_t i = 1; i < input_ts.size(); i++) {
-- 
2.43.0


From 5179bc6db505bb8369e763d44e68af4c939575e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 13/19] fix: views have gradients of their own

A view shared the gradient storage of its source. Therefore differentiating a
view itself was lost, taking a view of a leaf gave it a gradient without
storage (reading it crashed) and wrote to the leaf, clearing or retaining the
gradient of a view affected its source, and the gradient of a leaf that is a
detached view was indexed out of bounds.
---
 src/INNC/function.cpp   | 20 ++++++++++++++------
 src/INNC/tensorImpl.cpp | 16 ----------------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 8250d83..343ba49 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -44,11 +44,10 @@ void Backward::try_accumulate_update(TensorImpl *tf_prev, bool zero_init) {
   if (tf_prev->grad_fn.get() != nullptr)
     ++tf_prev->grad_fn->accumulated_n_outway;
   if (tf_prev->grad.get() == nullptr) {
-    tf_prev->grad = TensorImpl::create(tf_prev->dtype, tf_prev->view);
-    if (zero_init)
-      tf_prev->grad->data_->zero_();
-  } else if (!tf_prev->grad->data_->is_alloc()) {
-    tf_prev->grad->data_->alloc();
+    // A gradient is laid out exactly like the data it belongs to.
+    tf_prev->grad = TensorImpl::create(
+        tf_prev->dtype, tf_prev->view,
+        std::make_shared<UntypedStorage>(tf_prev->data_->get_size()));
     if (zero_init)
       tf_prev->grad->data_->zero_();
   }
@@ -106,7 +105,16 @@ void MeanBack::step_back() {
                       &get_out_grad());
 }
 
-void NoBack::step_back() { try_accumulate_grad(input_tfs[0].get(), nullptr); }
+void NoBack::step_back() {
+  auto input = input_tfs[0].get();
+  if (!input->requires_grad)
+    return;
+  try_accumulate_update(input);
+  // The elements of the input's gradient that this view shows.
+  auto shown =
+      TensorImpl::create(input->dtype, this_tf->view, input->grad->data_);
+  *shown += get_out_grad();
+}
 
 void CloneBack::step_back() {
   try_accumulate_grad(input_tfs[0].get(), &get_out_grad());
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 0c169d0..0f74bee 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -444,18 +444,6 @@ void TensorImpl::zero_grad() const noexcept {
   grad->data_->zero_();
 }
 
-void share_grad_storage(TensorImpl &to, TensorImpl &from,
-                        const std::shared_ptr<Layout> &view) {
-  if (from.grad == nullptr) {
-    from.grad = TensorImpl::create(from.dtype, from.view, false);
-  }
-  to.grad = TensorImpl::create(to.dtype, view, from.grad->data_);
-}
-
-void share_grad_storage(TensorImpl &to, TensorImpl &from) {
-  share_grad_storage(to, from, to.view);
-}
-
 std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
   if (dlayout == layouts::strided) {
     std::vector<std::string> each_dim = ssplit(slice, ',');
@@ -561,7 +549,6 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
       return ret;
     ret->requires_grad = true;
     ret->grad_fn.reset(new NoBack(ret.get(), {shared_from_this()}));
-    share_grad_storage(*ret, *this);
     return ret;
   } else {
     throw std::runtime_error("Not implemented");
@@ -593,7 +580,6 @@ TensorImpl::transpose(const std::shared_ptr<TensorImpl> &input, size_t dim0,
     return ret;
   ret->requires_grad = true;
   ret->grad_fn.reset(new NoBack(ret.get(), {input}));
-  share_grad_storage(*ret, *input);
   return ret;
 }
 
@@ -659,7 +645,6 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
       return tf;
     tf->requires_grad = true;
     tf->grad_fn.reset(new NoBack(tf.get(), {input}));
-    share_grad_storage(*tf, *input);
     return tf;
   }
 
@@ -703,7 +688,6 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
     return tf;
   tf->requires_grad = true;
   tf->grad_fn.reset(new NoBack(tf.get(), {last_node}));
-  share_grad_storage(*tf, *last_node);
   return tf;
 }
 
-- 
2.43.0


From 3de980cfa15ba00127b58d706caa3129120833c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 14/19] fix: threads may differentiate their own graphs at the
 same time

Every traversal compared its marks with a process-wide counter that other
traversals advance meanwhile, so nodes could be visited twice or not at all.
The counter is atomic now and each traversal keeps the value it drew.
---
 include/INNC/function.hpp |  3 ++-
 src/INNC/function.cpp     |  2 +-
 src/INNC/tensorImpl.cpp   | 22 ++++++++++++----------
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/INNC/function.hpp b/include/INNC/function.hpp
index 3201c52..509688d 100644
--- a/include/INNC/function.hpp
+++ b/include/INNC/function.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "tensor.hpp"
+#include <atomic>
 #include <memory>
 
 namespace INNC {
@@ -12,7 +13,7 @@ public:
   TensorImpl *this_tf;
   size_t n_outway;
   size_t accumulated_n_outway; // TODO partial graph
-  static size_t global_back_version;
+  static std::atomic<size_t> global_back_version;
   size_t back_version;
 
   Backward(TensorImpl *this_tf,
diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 343ba49..a44781c 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -9,7 +9,7 @@
 
 namespace INNC {
 
-size_t Backward::global_back_version = 0;
+std::atomic<size_t> Backward::global_back_version = 0;
 
 Backward::Backward(
     TensorImpl *this_tf,
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 0f74bee..6672613 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -305,21 +305,23 @@ std::shared_ptr<TensorImpl> TensorImpl::type(types t) {
 void refresh_n_outway(TensorImpl *tf) {
   std::queue<TensorImpl *> q;
   tf->grad_fn->n_outway = 0;
-  tf->grad_fn->back_version = ++Backward::global_back_version;
+  size_t version = ++Backward::global_back_version;
+  tf->grad_fn->back_version = version;
   q.push(tf);
   while (!q.empty()) {
     auto t = q.front();
     q.pop();
     for (const auto &it : t->grad_fn->input_tfs) {
       if (__LIKELY(it->grad_fn.get() != nullptr &&
-                   it->grad_fn->back_version < Backward::global_back_version)) {
-        it->grad_fn->back_version = Backward::global_back_version;
+                   it->grad_fn->back_version < version)) {
+        it->grad_fn->back_version = version;
         it->grad_fn->n_outway = 0;
         q.push(it.get());
       }
     }
   }
-  tf->grad_fn->back_version = ++Backward::global_back_version;
+  version = ++Backward::global_back_version;
+  tf->grad_fn->back_version = version;
   q.push(tf);
   while (!q.empty()) {
     auto t = q.front();
@@ -328,8 +330,8 @@ void refresh_n_outway(TensorImpl *tf) {
       if (it->grad_fn.get() == nullptr)
         continue;
       ++it->grad_fn->n_outway;
-      if (__LIKELY(it->grad_fn->back_version < Backward::global_back_version)) {
-        it->grad_fn->back_version = Backward::global_back_version;
+      if (__LIKELY(it->grad_fn->back_version < version)) {
+        it->grad_fn->back_version = version;
         q.push(it.get());
       }
     }
@@ -347,7 +349,8 @@ void TensorImpl::backward() {
   std::queue<TensorImpl *> q; // TODO 3 multiprocessing
   q.push(this);
   grad = ones_like(*this);
-  grad_fn->back_version = ++Backward::global_back_version;
+  const size_t version = ++Backward::global_back_version;
+  grad_fn->back_version = version;
   while (!q.empty()) {
     auto t = q.front();
     q.pop();
@@ -356,9 +359,8 @@ void TensorImpl::backward() {
       t->grad.reset();
     for (const auto &it : t->grad_fn->input_tfs) {
       if (it->grad_fn.get() != nullptr &&
-          it->grad_fn->back_version < Backward::global_back_version &&
-          it->grad_fn->is_ready()) {
-        it->grad_fn->back_version = Backward::global_back_version;
+          it->grad_fn->back_version < version && it->grad_fn->is_ready()) {
+        it->grad_fn->back_version = version;
         q.push(it.get());
       }
     }
-- 
2.43.0


From c4b43abc8e9ddae50671332e671c6e6710c4b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 15/19] fix: threads may draw random tensors at the same time

They used the shared random engine without synchronisation.
---
 include/INNC/utils/rand.hpp | 2 ++
 src/INNC/tensorImpl.cpp     | 2 ++
 src/INNC/utils/rand.cpp     | 1 +
 3 files changed, 5 insertions(+)

diff --git a/include/INNC/utils/rand.hpp b/include/INNC/utils/rand.hpp
index 5dc766d..797aeef 100644
--- a/include/INNC/utils/rand.hpp
+++ b/include/INNC/utils/rand.hpp
@@ -1,5 +1,7 @@
+#include <mutex>
 #include <random>
 
 namespace INNC {
 extern std::mt19937 rng;
+extern std::mutex rng_mutex; // held while drawing from rng
 }
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 6672613..62dd2f5 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -794,6 +794,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn(const SizeVec &sizes,
     std::normal_distribution<float> gen_norm{};
     auto ret = create(INNC::f32, StridedLayout{sizes});
     auto dptr = reinterpret_cast<float *>(ret->data_->get_blob());
+    std::lock_guard<std::mutex> lock(rng_mutex);
     for (size_t i = 0; i < ret->numel(); ++i) {
       *(dptr + i) = gen_norm(rng);
     }
@@ -802,6 +803,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn(const SizeVec &sizes,
     std::normal_distribution<double> gen_norm{};
     auto ret = create(INNC::f64, StridedLayout{sizes});
     auto dptr = reinterpret_cast<double *>(ret->data_->get_blob());
+    std::lock_guard<std::mutex> lock(rng_mutex);
     for (size_t i = 0; i < ret->numel(); ++i) {
       *(dptr + i) = gen_norm(rng);
     }
diff --git a/src/INNC/utils/rand.cpp b/src/INNC/utils/rand.cpp
index c8bdea5..0e449cc 100644
--- a/src/INNC/utils/rand.cpp
+++ b/src/INNC/utils/rand.cpp
@@ -2,4 +2,5 @@
 
 namespace INNC {
 std::mt19937 rng{std::random_device{}()};
+std::mutex rng_mutex;
 }
-- 
2.43.0


From 2d8e6a7e23e1eea6898f50e8ab8ad78ef52ad3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 16/19] fix: dropping a long graph does not overflow the stack

Disposal recursed several frames deep for every recorded operation.
---
 include/INNC/function.hpp |  1 +
 src/INNC/function.cpp     |  2 +-
 src/INNC/tensorImpl.cpp   | 22 +++++++++++++++++++++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/INNC/function.hpp b/include/INNC/function.hpp
index 509688d..54f835c 100644
--- a/include/INNC/function.hpp
+++ b/include/INNC/function.hpp
@@ -15,6 +15,7 @@ public:
   size_t accumulated_n_outway; // TODO partial graph
   static std::atomic<size_t> global_back_version;
   size_t back_version;
+  Backward *next_dropped; // only used while the graph is disposed of
 
   Backward(TensorImpl *this_tf,
            const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_tfs);
diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index a44781c..5ab0db7 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -15,7 +15,7 @@ Backward::Backward(
     TensorImpl *this_tf,
     const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_tfs)
     : input_tfs(input_tfs), this_tf(this_tf), n_outway(0),
-      accumulated_n_outway(0), back_version(0) {}
+      accumulated_n_outway(0), back_version(0), next_dropped(nullptr) {}
 
 Backward::~Backward() = default;
 
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 62dd2f5..9765626 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -67,7 +67,27 @@ std::string TensorImpl::to_string() const {
   return view->to_string_from(*data_, dtype);
 }
 
-TensorImpl::~TensorImpl() = default;
+// Dropping a node may drop its inputs, their nodes, and so on. They are queued
+// and dropped one by one, because a long graph would overflow the stack.
+static thread_local Backward *dropped_nodes = nullptr;
+static thread_local bool is_dropping = false;
+
+TensorImpl::~TensorImpl() {
+  if (grad_fn.get() == nullptr)
+    return;
+  auto node = grad_fn.release();
+  node->next_dropped = dropped_nodes;
+  dropped_nodes = node;
+  if (is_dropping)
+    return;
+  is_dropping = true;
+  while (dropped_nodes != nullptr) {
+    node = dropped_nodes;
+    dropped_nodes = node->next_dropped;
+    delete node;
+  }
+  is_dropping = false;
+}
 
 TensorImpl::TensorImpl(types dtype, layouts dlayout,
                        const std::shared_ptr<Layout> &view,
-- 
2.43.0


From 39d2afc40f2694432e9c7dbe6409c19cfb063034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:15 +0000
Subject: [PATCH 17/19] fix: what an intermediate result retained is not
 propagated again

If a differentiated scalar retained its gradient and later became part of
another graph, the retained gradient was added to the new one and propagated a
second time.
---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9765626..ff39383 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -336,6 +336,7 @@ void refresh_n_outway(TensorImpl *tf) {
                    it->grad_fn->back_version < version)) {
         it->grad_fn->back_version = version;
         it->grad_fn->n_outway = 0;
+        it->grad.reset(); // what it still holds has been propagated before
         q.push(it.get());
       }
     }
-- 
2.43.0


From d9665961cdf90eb1ae77c4deb186bc797ef79a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:09 +0000
Subject: [PATCH 18/19] fix: refuse sizes whose number of elements overflows

Their product wrapped around, so that zeros, ones, eye, randn and reshape
accepted them and gave a tensor whose elements lie outside its storage.
---
 src/INNC/tensorImpl.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index ff39383..6253aac 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -10,6 +10,7 @@
 #include "INNC/utils/rand.hpp"
 #include "INNC/utils/traits.hpp"
 #include "INNC/utils/utils.hpp"
+#include <cstdint>
 #include <cstring>
 #include <queue>
 
@@ -105,12 +106,27 @@ TensorImpl::create(types dtype, const std::shared_ptr<Layout> &view,
   return std::make_shared<TensorImpl>(dtype, dlayout, view, data_, Private{});
 }
 
+// Sizes with more elements than memory could ever hold are refused, because
+// their product would wrap around.
+static size_t checked_numel(const SizeVec &sizes) {
+  constexpr size_t limit = PTRDIFF_MAX / sizeof(double);
+  for (auto s : sizes)
+    if (s == 0)
+      return 0;
+  size_t numel = 1;
+  for (auto s : sizes) {
+    run_expect(s <= limit / numel, "The sizes ", sizes, " are too large.");
+    numel *= s;
+  }
+  return numel;
+}
+
 std::shared_ptr<TensorImpl>
 TensorImpl::create(types dtype, const std::shared_ptr<Layout> &view,
                    bool prealloc, layouts dlayout) {
   auto ptr = create(dtype, view,
                     std::make_unique<UntypedStorage>(
-                        size_of(dtype) * view->numel(), prealloc),
+                        size_of(dtype) * checked_numel(view->sizes), prealloc),
                     dlayout);
   if (prealloc)
     ptr->data_->alloc();
@@ -643,9 +659,7 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
 std::shared_ptr<TensorImpl>
 TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
                     const SizeVec &sizes) {
-  size_t numel = 1;
-  for (auto i : sizes)
-    numel *= i;
+  size_t numel = checked_numel(sizes);
   if (input->dlayout != layouts::strided)
     throw std::logic_error(
         sformat("This layout %s has not been implemented", layouts::sparse));
-- 
2.43.0


From 789dddc655a8855ee4433114042529acc22e1182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:51 +0000
Subject: [PATCH 19/19] fix: integer division by zero is refused instead of
 killing the program

The quotient of integer tensors with a zero divisor (or of the most negative
number and -1) raised SIGFPE.
---
 include/INNC/ops.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 73b703d..d368d74 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -1,9 +1,11 @@
 #pragma once
 #include "INNC/dispatcher.hpp"
+#include "INNC/exceptions.hpp"
 #include "INNC/tensorImpl.hpp"
 #include "INNC/types.hpp"
 #include "INNC/utils/utils.hpp"
 #include <iostream>
+#include <limits>
 
 namespace INNC {
 namespace native {
@@ -54,9 +56,16 @@ void tensor_div(TensorImpl *dst, const TensorImpl *l, const TensorImpl *r) {
   auto l_ptr = reinterpret_cast<L *>(l->data_->get_blob());
   auto r_ptr = reinterpret_cast<R *>(r->data_->get_blob());
   for_each_sizevec(dst->view->sizes, [=](const SizeVec &sv) {
-    *(dst_ptr + dst->cnt_from_aug_index(sv)) =
-        *(l_ptr + l->cnt_from_aug_index(sv)) /
-        *(r_ptr + r->cnt_from_aug_index(sv));
+    auto num = *(l_ptr + l->cnt_from_aug_index(sv));
+    auto den = *(r_ptr + r->cnt_from_aug_index(sv));
+    if constexpr (std::is_integral_v<L> && std::is_integral_v<R>) {
+      using Quotient = decltype(num / den);
+      run_expect(den != 0 && (den != -1 ||
+                              num != std::numeric_limits<Quotient>::min()),
+                 "The integer quotient ", +num, " / ", +den,
+                 " does not exist.");
+    }
+    *(dst_ptr + dst->cnt_from_aug_index(sv)) = num / den;
   });
 }
 
-- 
2.43.0

