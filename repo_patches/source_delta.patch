From ee785a6aea05cdde11fab45a445f23809ef8cebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 01/34] fix: Variable::conjugate resets the memoized hash

---
 SeQuant/core/expressions/expr.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index a8ce238..17ee51a 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -201,7 +201,10 @@ void Variable::set_label(std::wstring label) {
   reset_hash_value();
 }
 
-void Variable::conjugate() { conjugated_ = !conjugated_; }
+void Variable::conjugate() {
+  conjugated_ = !conjugated_;
+  reset_hash_value();
+}
 
 bool Variable::conjugated() const { return conjugated_; }
 
-- 
2.43.0


From 2e2919999344410e2227fa63f5c3986c5b6689e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 02/34] fix: Constant compound assignments reset the memoized
 hash

---
 SeQuant/core/expressions/constant.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeQuant/core/expressions/constant.hpp b/SeQuant/core/expressions/constant.hpp
index 9ae67a9..3b16f56 100644
--- a/SeQuant/core/expressions/constant.hpp
+++ b/SeQuant/core/expressions/constant.hpp
@@ -83,6 +83,7 @@ class Constant : public Expr {
   virtual Expr &operator*=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ *= that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator*=(that): not valid for that");
     }
@@ -92,6 +93,7 @@ class Constant : public Expr {
   virtual Expr &operator+=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ += that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator+=(that): not valid for that");
     }
@@ -101,6 +103,7 @@ class Constant : public Expr {
   virtual Expr &operator-=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ -= that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator-=(that): not valid for that");
     }
-- 
2.43.0


From 1f91e3c052b628841c87e0bb42d17d8dbc82db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 03/34] fix: Product canonicalization resets the memoized hash
 also if not a pure tensor network

---
 SeQuant/core/expressions/expr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index 17ee51a..a15919a 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -265,6 +265,7 @@ ExprPtr Product::canonicalize_impl(CanonicalizeOptions opts) {
   // if there are no factors, insert scalars back and return
   if (factors_.empty()) {
     factors_.insert(factors_.begin(), scalars.begin(), scalars.end());
+    this->reset_hash_value();
     return {};
   }
 
@@ -365,6 +366,7 @@ ExprPtr Product::canonicalize_impl(CanonicalizeOptions opts) {
             return result;
           });
     }
+    this->reset_hash_value();
   }
   // reinsert scalar factors at the front
   factors_.insert(factors_.begin(), scalars.begin(), scalars.end());
-- 
2.43.0


From 15ceb350f5f31c115f4d5bb22e45e6b79dd285f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 04/34] fix: Product::factors() resets the memoized hash when
 handing out mutable factors

---
 SeQuant/core/expressions/product.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/expressions/product.hpp b/SeQuant/core/expressions/product.hpp
index 8d9e1a6..cb19289 100644
--- a/SeQuant/core/expressions/product.hpp
+++ b/SeQuant/core/expressions/product.hpp
@@ -274,7 +274,11 @@ class Product : public Expr {
   bool is_zero() const override { return Constant::is_zero(this->scalar()); }
 
   const auto &factors() const { return factors_; }
-  auto &factors() { return factors_; }
+  auto &factors() {
+    // the factors may be mutated via the returned reference
+    reset_hash_value();
+    return factors_;
+  }
 
   /// @brief View view of factors that are scalars (anything for which
   ///        Expr::is_scalar() returns true).
-- 
2.43.0


From 9f0f2ad899d38f5e9f70e174d35013a45380e4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 05/34] fix: NormalOperator::erase/insert reset the memoized
 hash

---
 SeQuant/core/op.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/op.hpp b/SeQuant/core/op.hpp
index 5225429..baf9a53 100644
--- a/SeQuant/core/op.hpp
+++ b/SeQuant/core/op.hpp
@@ -695,6 +695,7 @@ class NormalOperator : public Operator<S>,
   iterator erase(const_iterator it) {
     if (it->action() == Action::Create) --ncreators_;
     if (hug_) hug_->erase(it - begin(), *it);
+    this->reset_hash_value();
     return Operator<S>::erase(it);
   }
 
@@ -704,6 +705,7 @@ class NormalOperator : public Operator<S>,
     if (value.action() == Action::Create) ++ncreators_;
     auto result = Operator<S>::insert(it, std::forward<T>(value));
     if (hug_) hug_->insert(result - begin(), *result);
+    this->reset_hash_value();
     return result;
   }
 
-- 
2.43.0


From 622f584e3f91e016440c0cd4801e3d90bdb185d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 06/34] fix: Index label memo always agrees with the space and
 ordinal

---
 SeQuant/core/index.hpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index 7b88856..a0f7a89 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -340,9 +340,6 @@ class Index : public Taggable {
                                IndexSpace::QuantumNumbers::reserved},
               to_ordinal(label), {}) {
     check_nonreserved();
-    if constexpr (std::is_same_v<String, std::wstring>) {
-      label_ = std::move(label);
-    }
   }
 
   /// @brief constructs an Index using an existing Index's label and space and a
@@ -369,8 +366,6 @@ class Index : public Taggable {
                                                  // ref to avoid scavenging it
       space_ = index.space();
       ordinal_ = index.ordinal_;
-      if constexpr (!std::is_reference_v<IndexOrIndexLabel>)
-        label_ = std::move(index_or_index_label);
     } else {
       space_ = index_or_index_label.space();
       ordinal_ = index_or_index_label.ordinal_;
@@ -412,8 +407,6 @@ class Index : public Taggable {
                                                  // ref to avoid scavenging it
       space_ = index.space();
       ordinal_ = index.ordinal_;
-      if constexpr (!std::is_reference_v<IndexOrIndexLabel>)
-        label_ = std::move(index_or_index_label);
     } else {
       space_ = index_or_index_label.space();
       ordinal_ = index_or_index_label.ordinal_;
-- 
2.43.0


From 57dcaff4a3e3ea25265899b2d9c4a04c2bb3069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 07/34] fix: IndexSpaceRegistry assignment drops memoized base
 spaces

---
 SeQuant/core/index_space_registry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index a55593e..164e8da 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -135,7 +135,7 @@ class IndexSpaceRegistry {
     complete_ = other.complete_;
     hole_space_ = other.hole_space_;
     particle_space_ = other.particle_space_;
-    return *this;
+    return clear_memoized_data_and_return_this();
   }
 
   /// move assignment operator
@@ -148,7 +148,7 @@ class IndexSpaceRegistry {
     complete_ = std::move(other.complete_);
     hole_space_ = std::move(other.hole_space_);
     particle_space_ = std::move(other.particle_space_);
-    return *this;
+    return clear_memoized_data_and_return_this();
   }
 
   /// deep copy of this object, creates a copy of its spaces
-- 
2.43.0


From 73f6aecae0e84ca555f7a46d1280064a8c8198fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 08/34] fix: NormalOperator drops its Hugenholtz vertex when
 its indices change

---
 SeQuant/core/op.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/op.hpp b/SeQuant/core/op.hpp
index baf9a53..def7469 100644
--- a/SeQuant/core/op.hpp
+++ b/SeQuant/core/op.hpp
@@ -737,7 +737,10 @@ class NormalOperator : public Operator<S>,
     ranges::for_each(*this, [&](auto &&op) {
       if (op.index().transform(index_map)) mutated = true;
     });
-    if (mutated) this->reset_hash_value();
+    if (mutated) {
+      this->reset_hash_value();
+      hug_.reset();
+    }
     return mutated;
   }
 
@@ -937,12 +940,14 @@ class NormalOperator : public Operator<S>,
 
   AbstractTensor::any_view_randsz _bra_mutable() override final {
     this->reset_hash_value();
+    hug_.reset();
     return ranges::views::counted(this->rbegin(), nannihilators()) |
            ranges::views::transform(
                [](auto &&op) -> Index & { return op.index(); });
   }
   AbstractTensor::any_view_randsz _ket_mutable() override final {
     this->reset_hash_value();
+    hug_.reset();
     return ranges::views::counted(this->begin(), ncreators()) |
            ranges::views::transform(
                [](auto &&op) -> Index & { return op.index(); });
-- 
2.43.0


From 4b49a0a01146d6ff1fa8576e6e6acc438ba41a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 09/34] fix: TensorNetworkV1 edges can be regenerated after
 canonicalize

---
 SeQuant/core/tensor_network/v1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SeQuant/core/tensor_network/v1.cpp b/SeQuant/core/tensor_network/v1.cpp
index cee3abc..ca8623a 100644
--- a/SeQuant/core/tensor_network/v1.cpp
+++ b/SeQuant/core/tensor_network/v1.cpp
@@ -462,6 +462,7 @@ ExprPtr TensorNetworkV1::canonicalize(
     }
   }
   edges_.clear();
+  have_edges_ = false;
   ext_indices_.clear();
 
   SEQUANT_ASSERT(canon_byproduct->is<Constant>());
-- 
2.43.0


From a592de527c2a2e3c9bdd6d5223c93079d9a12e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 10/34] fix: Tensor::set_bra/set_ket keep the net ranks in sync
 with the slots

---
 SeQuant/core/expressions/tensor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SeQuant/core/expressions/tensor.hpp b/SeQuant/core/expressions/tensor.hpp
index 07b3b7d..0a96cc9 100644
--- a/SeQuant/core/expressions/tensor.hpp
+++ b/SeQuant/core/expressions/tensor.hpp
@@ -552,12 +552,16 @@ class Tensor : public Expr, public AbstractTensor, public MutatableLabeled {
   const auto &bra() const { return bra_; }
   void set_bra(index_container_type indices) {
     bra_ = sequant::bra(std::move(indices));
+    bra_net_rank_ = ranges::count_if(
+        bra_, [](const Index &idx) { return static_cast<bool>(idx); });
     reset_hash_value();
   }
   /// @return the ket slot range (empty slots are occupied by null indices)
   const auto &ket() const { return ket_; }
   void set_ket(index_container_type indices) {
     ket_ = sequant::ket(std::move(indices));
+    ket_net_rank_ = ranges::count_if(
+        ket_, [](const Index &idx) { return static_cast<bool>(idx); });
     reset_hash_value();
   }
   /// @return the aux slot range (empty slots are occupied by null indices)
-- 
2.43.0


From 6f7c297bb84d81dc3cd7a43f32a77e05966300b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 11/34] fix: changing the physical particle attribute mask
 drops memoized base spaces

---
 SeQuant/core/index_space_registry.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/index_space_registry.cpp b/SeQuant/core/index_space_registry.cpp
index 8cac06b..2d7b81e 100644
--- a/SeQuant/core/index_space_registry.cpp
+++ b/SeQuant/core/index_space_registry.cpp
@@ -8,6 +8,8 @@ namespace sequant {
 
 void IndexSpaceRegistry::physical_particle_attribute_mask(bitset_t m) {
   physical_particle_attribute_mask_ = m;
+  // base spaces depend on the mask
+  clear_memoized_data_and_return_this();
 }
 
 bitset_t IndexSpaceRegistry::physical_particle_attribute_mask() const {
-- 
2.43.0


From b307690605d6bae67a341b81746f74b07236d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:29 +0000
Subject: [PATCH 12/34] fix: copies of TensorNetworkV1 and V2 own their tensors

---
 SeQuant/core/tensor_network/v1.hpp | 22 ++++++++++++++++++++++
 SeQuant/core/tensor_network/v2.hpp | 20 ++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/SeQuant/core/tensor_network/v1.hpp b/SeQuant/core/tensor_network/v1.hpp
index ab67f02..2f2dcf7 100644
--- a/SeQuant/core/tensor_network/v1.hpp
+++ b/SeQuant/core/tensor_network/v1.hpp
@@ -206,6 +206,7 @@ class TensorNetworkV1 {
   /// @throw Exception if exprptr_range contains a non-tensor
   /// @note uses RTTI
   template <typename ExprPtrRange>
+    requires(!std::is_same_v<std::remove_cv_t<ExprPtrRange>, TensorNetworkV1>)
   TensorNetworkV1(ExprPtrRange &exprptr_range) {
     if (exprptr_range.size() > 0) {
       for (auto &&ex : exprptr_range) {
@@ -236,6 +237,27 @@ class TensorNetworkV1 {
         "range");
   }
 
+  TensorNetworkV1(TensorNetworkV1 &&) noexcept = default;
+  TensorNetworkV1 &operator=(TensorNetworkV1 &&) noexcept = default;
+
+  /// copy constructor; clones the tensors, hence canonicalizing the copy does
+  /// not affect @p other
+  /// @note edges refer to the indices of the tensors, hence not copied
+  TensorNetworkV1(const TensorNetworkV1 &other)
+      : tensor_input_ordinals_(other.tensor_input_ordinals_),
+        idxrepl_(other.idxrepl_) {
+    tensors_.reserve(other.tensors_.size());
+    for (const auto &t : other.tensors_) {
+      tensors_.emplace_back(t->_clone_shared());
+    }
+  }
+
+  /// copy assignment
+  TensorNetworkV1 &operator=(const TensorNetworkV1 &other) {
+    *this = TensorNetworkV1(other);
+    return *this;
+  }
+
   /// @return const reference to the sequence of tensors
   /// @note after invoking TensorNetworkV1::canonicalize() the order of
   /// tensors may be different from that provided as input; use
diff --git a/SeQuant/core/tensor_network/v2.hpp b/SeQuant/core/tensor_network/v2.hpp
index 97a4fc9..0bc4b77 100644
--- a/SeQuant/core/tensor_network/v2.hpp
+++ b/SeQuant/core/tensor_network/v2.hpp
@@ -231,6 +231,26 @@ class TensorNetworkV2 {
     init_edges();
   }
 
+  TensorNetworkV2(TensorNetworkV2 &&) noexcept = default;
+  TensorNetworkV2 &operator=(TensorNetworkV2 &&) noexcept = default;
+
+  /// copy constructor; clones the tensors, hence canonicalizing the copy does
+  /// not affect @p other
+  TensorNetworkV2(const TensorNetworkV2 &other)
+      : tensor_input_ordinals_(other.tensor_input_ordinals_) {
+    tensors_.reserve(other.tensors_.size());
+    for (const auto &t : other.tensors_) {
+      tensors_.emplace_back(t->_clone_shared());
+    }
+    init_edges();  // edges refer to the indices of the tensors
+  }
+
+  /// copy assignment
+  TensorNetworkV2 &operator=(const TensorNetworkV2 &other) {
+    *this = TensorNetworkV2(other);
+    return *this;
+  }
+
   /// @return const reference to the sequence of tensors
   /// @note after invoking TensorNetworkV2::canonicalize() the order of
   /// tensors may be different from that provided as input; use
-- 
2.43.0


From f30981ebeee46b007e2d20c3b2d8468f01c05fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:29 +0000
Subject: [PATCH 13/34] fix: Context::clone handles a Context without an index
 space registry

---
 SeQuant/core/context.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/context.cpp b/SeQuant/core/context.cpp
index c7f63c6..b87306b 100644
--- a/SeQuant/core/context.cpp
+++ b/SeQuant/core/context.cpp
@@ -136,8 +136,10 @@ Context::Context(Options options)
 
 Context Context::clone() const {
   Context ctx(*this);
-  ctx.idx_space_reg_ =
-      std::make_shared<IndexSpaceRegistry>(idx_space_reg_->clone());
+  if (idx_space_reg_) {
+    ctx.idx_space_reg_ =
+        std::make_shared<IndexSpaceRegistry>(idx_space_reg_->clone());
+  }
   return ctx;
 }
 
-- 
2.43.0


From 5e45f53dd340541dbb0c00790517d83d9cbb21e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 14/34] fix: mbpt::Operator::adjoint toggles the adjoint flag
 also when applied repeatedly

---
 SeQuant/domain/mbpt/op.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.ipp b/SeQuant/domain/mbpt/op.ipp
index 8f28062..08e720d 100644
--- a/SeQuant/domain/mbpt/op.ipp
+++ b/SeQuant/domain/mbpt/op.ipp
@@ -156,7 +156,8 @@ void Operator<QuantumNumbers, S>::adjoint() {
     lbl.push_back(sequant::adjoint_label);
   }
 
-  // get order and batch_ordinals to restore later
+  // get adjoint flag, order and batch_ordinals to restore later
+  const auto saved_is_adjoint = this->is_adjoint_;
   const auto saved_order = this->order_;
   const auto saved_batch_ordinals = this->batch_ordinals_;
 
@@ -173,7 +174,7 @@ void Operator<QuantumNumbers, S>::adjoint() {
         qn += sequant::adjoint(dN);
         return qn;  // qn_action
       }};
-  this->is_adjoint_ = !this->is_adjoint_;  // toggle adjoint flag
+  this->is_adjoint_ = !saved_is_adjoint;  // toggle adjoint flag
 
   // restore original order and batch_ordinals
   this->order_ = saved_order;
-- 
2.43.0


From 4c1a929b918533b18e15af892ceb5055d4f16c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 15/34] fix: clones of CProduct, NCProduct and
 NormalOperatorSequence keep their kind

---
 SeQuant/core/expressions/product.hpp | 8 ++++++++
 SeQuant/core/op.hpp                  | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/SeQuant/core/expressions/product.hpp b/SeQuant/core/expressions/product.hpp
index cb19289..824ed35 100644
--- a/SeQuant/core/expressions/product.hpp
+++ b/SeQuant/core/expressions/product.hpp
@@ -481,6 +481,10 @@ class CProduct : public Product {
   CProduct(const Product &other) : Product(other) {}
   CProduct(Product &&other) : Product(other) {}
 
+  /// @return an identical clone of this CProduct (a deep copy allocated on the
+  ///         heap)
+  ExprPtr clone() const override { return ex<CProduct>(this->deep_copy()); }
+
   bool is_commutative() const override { return true; }
 
   /// @brief adjoint of a CProduct is a product of adjoints of its factors, with
@@ -498,6 +502,10 @@ class NCProduct : public Product {
   NCProduct(const Product &other) : Product(other) {}
   NCProduct(Product &&other) : Product(other) {}
 
+  /// @return an identical clone of this NCProduct (a deep copy allocated on the
+  ///         heap)
+  ExprPtr clone() const override { return ex<NCProduct>(this->deep_copy()); }
+
   bool is_commutative() const override { return false; }
 
   /// @brief adjoint of a NCProduct is a reserved product of adjoints of its
diff --git a/SeQuant/core/op.hpp b/SeQuant/core/op.hpp
index def7469..148b5ef 100644
--- a/SeQuant/core/op.hpp
+++ b/SeQuant/core/op.hpp
@@ -1068,6 +1068,8 @@ class NormalOperatorSequence : public container::svector<NormalOperator<S>>,
     return Expr::get_type_id<NormalOperatorSequence>();
   };
 
+  ExprPtr clone() const override { return ex<NormalOperatorSequence>(*this); }
+
   friend bool operator==(const NormalOperatorSequence &nopseq1,
                          const NormalOperatorSequence &nopseq2) {
     return nopseq1.vacuum() == nopseq2.vacuum() &&
-- 
2.43.0


From edddea864c2475574304269d7f4dbf03e22ed94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 16/34] fix: phase of a common subexpression is relative to its
 defining occurrence

---
 .../core/optimize/common_subexpression_elimination.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/optimize/common_subexpression_elimination.hpp b/SeQuant/core/optimize/common_subexpression_elimination.hpp
index ef009a2..3a62f55 100644
--- a/SeQuant/core/optimize/common_subexpression_elimination.hpp
+++ b/SeQuant/core/optimize/common_subexpression_elimination.hpp
@@ -154,6 +154,12 @@ class SubexpressionReplacer {
 
     ExprPtr original = tree->expr();
 
+    // The CSE is defined by the (sub)tree encountered first, hence the phase of
+    // any other occurrence has to be taken relative to that one
+    const int phase = label_it == end(cse_names)
+                          ? 1
+                          : tree->canon_phase() * label_it->first->canon_phase();
+
     std::optional<TreeNode> intermediate_definition;
     if (label_it == end(cse_names)) {
       cse_names.emplace(tree, label);
@@ -173,8 +179,8 @@ class SubexpressionReplacer {
       intermediate_definition = expr_to_tree(intermediate);
     }
 
-    if (tree->canon_phase() != 1) {
-      expr *= ex<Constant>(tree->canon_phase());
+    if (phase != 1) {
+      expr *= ex<Constant>(phase);
     }
 
     if (tree.root()) {
-- 
2.43.0


From b1e5133a56f2a9fff64658a8204b77d45d60eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 17/34] fix: options passed to rapid_canonicalize, binarize and
 rapid simplification are honored

---
 SeQuant/core/eval/eval_expr.hpp              | 7 ++++---
 SeQuant/core/expressions/expr.hpp            | 8 +++++---
 SeQuant/core/expressions/expr_algorithms.cpp | 2 +-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.hpp b/SeQuant/core/eval/eval_expr.hpp
index 779bb0b..73c67ac 100644
--- a/SeQuant/core/eval/eval_expr.hpp
+++ b/SeQuant/core/eval/eval_expr.hpp
@@ -465,14 +465,15 @@ FullBinaryNode<ExprT> binarize(ResultExpr const& res,
     // that terminal multiplied by 1.
     ExprT result = [&]() {
       if (is_scalar) {
-        return *binarize<ExprT>(ex<Variable>(res.result_as_variable()));
+        return *binarize<ExprT>(ex<Variable>(res.result_as_variable()), {},
+                                opts);
       }
-      return *binarize<ExprT>(ex<Tensor>(res.result_as_tensor()));
+      return *binarize<ExprT>(ex<Tensor>(res.result_as_tensor()), {}, opts);
     }();
     EvalOpSetter{}.set(result, EvalOp::Product);
 
     tree = FullBinaryNode<ExprT>(std::move(result), std::move(tree),
-                                 binarize<ExprT>(ex<Constant>(1)));
+                                 binarize<ExprT>(ex<Constant>(1), {}, opts));
   }
   SEQUANT_PRAGMA_IGNORE_DEPRECATED_END
   SEQUANT_ASSERT(tree.size() > 1);
diff --git a/SeQuant/core/expressions/expr.hpp b/SeQuant/core/expressions/expr.hpp
index 7bee7e8..c5059cc 100644
--- a/SeQuant/core/expressions/expr.hpp
+++ b/SeQuant/core/expressions/expr.hpp
@@ -117,9 +117,11 @@ class Expr : public std::enable_shared_from_this<Expr> {
   /// @return the byproduct of canonicalization, or @c nullptr if no byproduct
   /// generated
   virtual ExprPtr rapid_canonicalize(
-      CanonicalizeOptions = CanonicalizeOptions::default_options().copy_and_set(
-          CanonicalizationMethod::Rapid)) {
-    return this->canonicalize({.method = CanonicalizationMethod::Rapid});
+      CanonicalizeOptions opts =
+          CanonicalizeOptions::default_options().copy_and_set(
+              CanonicalizationMethod::Rapid)) {
+    opts.method = CanonicalizationMethod::Rapid;
+    return this->canonicalize(std::move(opts));
   }
 
   // clang-format off
diff --git a/SeQuant/core/expressions/expr_algorithms.cpp b/SeQuant/core/expressions/expr_algorithms.cpp
index 982f2f0..254c454 100644
--- a/SeQuant/core/expressions/expr_algorithms.cpp
+++ b/SeQuant/core/expressions/expr_algorithms.cpp
@@ -312,7 +312,7 @@ struct RapidSimplifyVisitor {
   SimplifyOptions opts;
 
   RapidSimplifyVisitor(SimplifyOptions opts) : opts(std::move(opts)) {
-    opts.method = CanonicalizationMethod::Rapid;
+    this->opts.method = CanonicalizationMethod::Rapid;
   }
 
   void operator()(ExprPtr& expr) {
-- 
2.43.0


From 7f9b1f14ec61c0c470fe34f6bd2ce11ab21830b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 18/34] fix: NullNormalOperatorCanonicalizerDeregister removes
 only what it registered, also on exception

---
 SeQuant/core/wick.impl.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/wick.impl.hpp b/SeQuant/core/wick.impl.hpp
index 89042c6..08052f4 100644
--- a/SeQuant/core/wick.impl.hpp
+++ b/SeQuant/core/wick.impl.hpp
@@ -25,6 +25,8 @@
 #include <range/v3/view/filter.hpp>
 #include <range/v3/view/transform.hpp>
 
+#include <array>
+
 #ifdef SEQUANT_HAS_EXECUTION_HEADER
 #include <execution>
 #endif
@@ -650,10 +652,14 @@ bool reduce_wick_impl(std::shared_ptr<Product> &expr,
 
 template <Statistics S>
 struct NullNormalOperatorCanonicalizerDeregister {
+  /// whether the canonicalizer of label `i` was registered by the owner of this
+  /// (only then should it be deregistered)
+  std::array<bool, 2> registered = {{false, false}};
+
   void operator()(void *) {
     const auto nop_labels = NormalOperator<S>::labels();
-    TensorCanonicalizer::deregister_instance(nop_labels[0]);
-    TensorCanonicalizer::deregister_instance(nop_labels[1]);
+    if (registered[0]) TensorCanonicalizer::deregister_instance(nop_labels[0]);
+    if (registered[1]) TensorCanonicalizer::deregister_instance(nop_labels[1]);
   }
 };
 
@@ -717,12 +723,12 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
     if (!raii_null_nop_canonicalizer) {
       const auto nop_labels = NormalOperator<S>::labels();
       SEQUANT_ASSERT(nop_labels.size() == 2);
-      TensorCanonicalizer::try_register_instance(
-          std::make_shared<NullTensorCanonicalizer>(), nop_labels[0]);
-      TensorCanonicalizer::try_register_instance(
-          std::make_shared<NullTensorCanonicalizer>(), nop_labels[1]);
       raii_null_nop_canonicalizer = decltype(raii_null_nop_canonicalizer)(
           (void *)&raii_null_nop_canonicalizer, {});
+      auto &registered = raii_null_nop_canonicalizer.get_deleter().registered;
+      for (std::size_t i = 0; i != 2; ++i)
+        registered[i] = TensorCanonicalizer::try_register_instance(
+            std::make_shared<NullTensorCanonicalizer>(), nop_labels[i]);
     }
   };
 
-- 
2.43.0


From cd83e08842a003b3630d714edb16a502ca782b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 19/34] fix: CanonicalizeOptions::operator== compares all
 options

---
 SeQuant/core/options.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/options.hpp b/SeQuant/core/options.hpp
index c0e2d44..e9362a8 100644
--- a/SeQuant/core/options.hpp
+++ b/SeQuant/core/options.hpp
@@ -74,7 +74,8 @@ struct CanonicalizeOptions {
 
   friend constexpr bool operator==(const CanonicalizeOptions& a,
                                    const CanonicalizeOptions& b) {
-    return a.method == b.method;
+    return a.method == b.method && a.named_indices == b.named_indices &&
+           a.ignore_named_index_labels == b.ignore_named_index_labels;
   }
 };
 
-- 
2.43.0


From 9caed92eb69d3ce53a6140cab08e1c1c33721d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 20/34] fix: failures in parallel loops reach the caller after
 joining all threads

---
 SeQuant/core/runtime.hpp | 78 ++++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 31 deletions(-)

diff --git a/SeQuant/core/runtime.hpp b/SeQuant/core/runtime.hpp
index f3d62e1..2cc5233 100644
--- a/SeQuant/core/runtime.hpp
+++ b/SeQuant/core/runtime.hpp
@@ -6,7 +6,9 @@
 #define SEQUANT_RUNTIME_HPP
 
 #include <cstdlib>
+#include <exception>
 #include <memory>
+#include <mutex>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -19,7 +21,6 @@
 #include <execution>
 #else
 #include <atomic>
-#include <mutex>
 #endif
 
 namespace sequant {
@@ -51,6 +52,44 @@ inline void set_num_threads(int nt) {
 /// @sa set_num_threads()
 inline int num_threads() { return detail::nthreads_accessor(); }
 
+namespace detail {
+
+/// runs `task(thread_id)` for every `thread_id` in `[0,num_threads())`, the
+/// last one in this thread and each of the others in a thread of its own.
+/// If any of them throws, (one of) the exception(s) is rethrown here after all
+/// threads have been joined.
+template <typename Task>
+void run_concurrently(const Task& task) {
+  std::exception_ptr failure;
+  std::mutex failure_mtx;
+  auto record_failure = [&failure, &failure_mtx]() noexcept {
+    std::scoped_lock<std::mutex> lock(failure_mtx);
+    if (!failure) failure = std::current_exception();
+  };
+  auto guarded_task = [&task, &record_failure](int thread_id) noexcept {
+    try {
+      task(thread_id);
+    } catch (...) {
+      record_failure();
+    }
+  };
+
+  const auto nthreads = num_threads();
+  std::vector<std::thread> threads;
+  try {
+    for (int thread_id = 0; thread_id != nthreads - 1; ++thread_id)
+      threads.emplace_back(guarded_task, thread_id);
+  } catch (...) {  // could not start a thread
+    record_failure();
+  }
+  guarded_task(nthreads - 1);
+  for (auto& thread : threads) thread.join();
+
+  if (failure) std::rethrow_exception(failure);
+}
+
+}  // namespace detail
+
 /// Fires off @c nthreads instances of lambda in parallel, each in its own
 /// thread (thus @c nthreads-1 std::thread objects are created), where @c
 /// nthreads is the value returned by get_num_threads() .
@@ -61,16 +100,11 @@ inline int num_threads() { return detail::nthreads_accessor(); }
 /// @sa get_num_threads()
 template <typename Lambda>
 void parallel_do(Lambda&& lambda) {
-  std::vector<std::thread> threads;
-  const auto nthreads = num_threads();
-  for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
-    if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(std::forward<Lambda>(lambda), thread_id));
-    else
-      std::forward<Lambda>(lambda)(thread_id);
-  }  // threads_id
-  for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
-    threads[thread_id].join();
+  // each thread works with its own copy of lambda
+  detail::run_concurrently([&lambda](int thread_id) {
+    auto thread_lambda = lambda;
+    thread_lambda(thread_id);
+  });
 }
 
 /// Parallel version of std::for_each , using either parallel C++ algorithms
@@ -106,16 +140,7 @@ void for_each(SizedRange& rng, const UnaryOp& op) {
     }
   };
 
-  const auto nthreads = num_threads();
-  std::vector<std::thread> threads;
-  for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
-    if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(task));
-    else
-      task();
-  }  // threads_id
-  for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
-    threads[thread_id].join();
+  detail::run_concurrently([&task](int) { task(); });
 #endif
 }
 
@@ -160,16 +185,7 @@ T transform_reduce(SizedRange&& rng, T init, const BinaryReductionOp& reduce,
     }
   };
 
-  const auto nthreads = num_threads();
-  std::vector<std::thread> threads;
-  for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
-    if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(task));
-    else
-      task();
-  }  // threads_id
-  for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
-    threads[thread_id].join();
+  detail::run_concurrently([&task](int) { task(); });
 
   return result;
 #endif
-- 
2.43.0


From 764e1e186ae0d2cef6d473ade9f34a2f064a1b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 21/34] fix: memoize survives failed computations and
 concurrent insertions

---
 SeQuant/core/utility/memoize.hpp            | 53 +++++++++++++--------
 SeQuant/domain/mbpt/biorthogonalization.cpp |  5 +-
 SeQuant/domain/mbpt/biorthogonalization.hpp |  3 +-
 3 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/SeQuant/core/utility/memoize.hpp b/SeQuant/core/utility/memoize.hpp
index 38a80d0..d3dac24 100644
--- a/SeQuant/core/utility/memoize.hpp
+++ b/SeQuant/core/utility/memoize.hpp
@@ -1,9 +1,8 @@
 #ifndef SEQUANT_CORE_UTILITY_MEMOIZE_HPP
 #define SEQUANT_CORE_UTILITY_MEMOIZE_HPP
 
-#include <SeQuant/core/container.hpp>
-
 #include <condition_variable>
+#include <map>
 #include <mutex>
 #include <optional>
 #include <utility>
@@ -21,33 +20,49 @@ namespace sequant::detail {
 /// @param cv The condition variable for waiting
 /// @param key The key to look up/store
 /// @param compute_fn A callable that computes the value if not cached
-/// @return Reference to the cached value
+/// @return Reference to the cached value; stays valid for as long as the cache
+///         (hence the cache must be a node-based container)
 template <typename Key, typename Value, typename ComputeFn>
-const Value& memoize(container::map<Key, std::optional<Value>>& cache,
+const Value& memoize(std::map<Key, std::optional<Value>>& cache,
                      std::mutex& mutex, std::condition_variable& cv,
                      const Key& key, ComputeFn&& compute_fn) {
+  using cache_t = std::map<Key, std::optional<Value>>;
   {
     std::unique_lock<std::mutex> lock(mutex);
-    using cache_t = container::map<Key, std::optional<Value>>;
-    typename cache_t::iterator it;
-    bool inserted;
-    // N.B. Use std::tie instead of structured binding to allow lambda capture
-    // (C++17 does not support capturing structured bindings in lambdas)
-    std::tie(it, inserted) = cache.try_emplace(key, std::nullopt);
-    if (!inserted) {
-      cv.wait(lock, [&it] { return it->second.has_value(); });
-      return it->second.value();
+    // N.B. must look the key up after every wait: other threads insert and
+    // erase entries while this one waits, which invalidates iterators
+    for (;;) {
+      auto it = cache.find(key);
+      if (it == cache.end()) break;
+      if (it->second.has_value()) return it->second.value();
+      cv.wait(lock);
     }
+    cache.try_emplace(key, std::nullopt);
   }
 
+  // if compute_fn() fails, withdraw the placeholder and let the waiters retry
+  struct Withdraw {
+    cache_t& cache;
+    std::mutex& mutex;
+    std::condition_variable& cv;
+    const Key& key;
+    bool active = true;
+    ~Withdraw() {
+      if (!active) return;
+      std::lock_guard<std::mutex> lock(mutex);
+      cache.erase(key);
+      cv.notify_all();
+    }
+  } withdraw{cache, mutex, cv, key};
+
   Value result = compute_fn();
 
-  {
-    std::lock_guard<std::mutex> lock(mutex);
-    cache[key] = std::move(result);
-    cv.notify_all();
-    return cache[key].value();
-  }
+  std::lock_guard<std::mutex> lock(mutex);
+  auto& value = cache[key];
+  value = std::move(result);
+  withdraw.active = false;
+  cv.notify_all();
+  return value.value();
 }
 
 }  // namespace sequant::detail
diff --git a/SeQuant/domain/mbpt/biorthogonalization.cpp b/SeQuant/domain/mbpt/biorthogonalization.cpp
index e68850e..d777916 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.cpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.cpp
@@ -488,9 +488,8 @@ void biorthogonal_transform(container::svector<ResultExpr>& result_exprs,
 
   static std::mutex cache_mutex;
   static std::condition_variable cache_cv;
-  static container::map<CacheKey, std::optional<HardcodedMatrix>>
-      hardcoded_cache;
-  static container::map<CacheKey, std::optional<ComputedMatrix>> computed_cache;
+  static std::map<CacheKey, std::optional<HardcodedMatrix>> hardcoded_cache;
+  static std::map<CacheKey, std::optional<ComputedMatrix>> computed_cache;
 
   constexpr std::size_t max_rank_hardcoded_biorthogonalizer_matrix = 5;
   CacheKey key{n_particles, threshold};
diff --git a/SeQuant/domain/mbpt/biorthogonalization.hpp b/SeQuant/domain/mbpt/biorthogonalization.hpp
index c5d0c5f..57cd192 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.hpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.hpp
@@ -26,6 +26,7 @@
 #include <concepts>
 #include <condition_variable>
 #include <cstddef>
+#include <map>
 #include <mutex>
 #include <optional>
 #include <vector>
@@ -231,7 +232,7 @@ template <typename T>
 
   static std::mutex cache_mutex;
   static std::condition_variable cache_cv;
-  static container::map<CacheKey, std::optional<std::vector<T>>> cache;
+  static std::map<CacheKey, std::optional<std::vector<T>>> cache;
 
   CacheKey key{n_particles, pseudoinverse_threshold};
 
-- 
2.43.0


From 9ea5352702ee9b9243841bf2eda3e338c2fd51f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 22/34] fix: restore the index comparer also if simplify throws

---
 SeQuant/domain/mbpt/op.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index 50f7b29..f4f3881 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -3,6 +3,7 @@
 #include <SeQuant/core/math.hpp>
 #include <SeQuant/core/op.hpp>
 #include <SeQuant/core/utility/macros.hpp>
+#include <SeQuant/core/utility/scope.hpp>
 #include <SeQuant/core/wick.hpp>
 #include <SeQuant/domain/mbpt/context.hpp>
 #include <SeQuant/domain/mbpt/op.hpp>
@@ -1543,7 +1544,7 @@ ExprPtr expectation_value_impl(ExprPtr expr, OpConnections<int> connect,
 
     // TensorCanonicalizer is given a custom comparer that moves active
     // indices to the front external-vs-internal trait still takes precedence
-    auto current_index_comparer =
+    const auto current_index_comparer =
         TensorCanonicalizer::instance()->index_comparer();
     TensorCanonicalizer::instance()->index_comparer(
         [&](const Index& idx1, const Index& idx2) -> bool {
@@ -1563,9 +1564,14 @@ ExprPtr expectation_value_impl(ExprPtr expr, OpConnections<int> connect,
               return current_index_comparer(idx1, idx2);
           }
         });
-    simplify(result);
-    TensorCanonicalizer::instance()->index_comparer(
-        std::move(current_index_comparer));
+    {
+      // the custom comparer refers to local state, so must not outlive this
+      // scope, even if simplify throws
+      auto restore_index_comparer = sequant::detail::make_scope_exit([&]() {
+        TensorCanonicalizer::instance()->index_comparer(current_index_comparer);
+      });
+      simplify(result);
+    }
 
     if (Logger::instance().wick_stats) {
       std::wcout << "WickTheorem stats: # of contractions attempted = "
-- 
2.43.0


From 8dff90a8785add156d7b243c92ed492489418d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:16 +0000
Subject: [PATCH 23/34] fix: spintrace clears index tags also when the input is
 a sum

---
 SeQuant/domain/mbpt/spin.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index a182e40..5398ee7 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -1847,9 +1847,8 @@ ExprPtr spintrace_impl(const ExprPtr& expression, IdxGroups&& ext_index_groups,
             trace_product(term_as_product.as_shared_ptr<Product>()));
       } else
         result_sum->append(term);
-      result = result_sum;
     }
-    return result;
+    result = result_sum;
   } else {
     throw Exception("Invalid Expr type in spintrace: " + expr->type_name());
   }
-- 
2.43.0


From e7e916dea7de54f239fdb68235da5354f7dea607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:58 +0000
Subject: [PATCH 24/34] fix: give the net ranks of a default-constructed Tensor
 a value

---
 SeQuant/core/expressions/tensor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/expressions/tensor.hpp b/SeQuant/core/expressions/tensor.hpp
index 0a96cc9..c5887fc 100644
--- a/SeQuant/core/expressions/tensor.hpp
+++ b/SeQuant/core/expressions/tensor.hpp
@@ -799,8 +799,8 @@ class Tensor : public Expr, public AbstractTensor, public MutatableLabeled {
   ColumnSymmetry column_symmetry_ = ColumnSymmetry::Nonsymm;
   mutable std::optional<hash_type>
       bra_hash_value_;  // memoized byproduct of memoizing_hash()
-  std::size_t bra_net_rank_;
-  std::size_t ket_net_rank_;
+  std::size_t bra_net_rank_ = 0;
+  std::size_t ket_net_rank_ = 0;
 
   void validate_symmetries() {
     // (anti)symmetric bra or ket makes sense only for particle-symmetric
-- 
2.43.0


From 86557eb39df3a7a37ed19c08b27c072299776a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:58 +0000
Subject: [PATCH 25/34] fix: give the slot type of a default-constructed
 TensorNetworkV1 terminal a value

---
 SeQuant/core/tensor_network/v1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/tensor_network/v1.hpp b/SeQuant/core/tensor_network/v1.hpp
index 2f2dcf7..41c26e3 100644
--- a/SeQuant/core/tensor_network/v1.hpp
+++ b/SeQuant/core/tensor_network/v1.hpp
@@ -63,7 +63,7 @@ class TensorNetworkV1 {
    public:
     struct Terminal {
       int tensor_ord = -1;
-      TensorIndexSlotType slot_type;
+      TensorIndexSlotType slot_type = TensorIndexSlotType::Bra;
       // index slots are grouped according to degrees of freedom and/or
       // symmetry. E.g. bra/ket slots for same particle of a nonsymmetric tensor
       // are grouped together. Bra and ket slots of a symmetric/antisymmetric
-- 
2.43.0


From 619fdc9b36aa142263766201b527ded3e496bce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:58 +0000
Subject: [PATCH 26/34] fix: S_expand does not use an unset rank when no direct
 factor is an S operator

---
 SeQuant/domain/mbpt/spin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index 5398ee7..969f1dd 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -875,7 +875,7 @@ ExprPtr S_maps(const ExprPtr& expr) {
 
     container::svector<container::map<Index, Index>> maps;
     // supports arbitrary sequence and variables
-    std::size_t S_tensor_rank;
+    std::size_t S_tensor_rank = 0;
     for (auto&& factor : product->factors()) {
       if (factor->is<Tensor>() &&
           factor->as<Tensor>().label() == reserved::symm_label()) {
-- 
2.43.0


From 1eb74f684bf1e5ee52c68f1c623703a71155ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:18 +0000
Subject: [PATCH 27/34] fix: IndexFactory::make reads its counters only while
 holding its mutex

---
 SeQuant/core/index.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index a0f7a89..166b411 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -1121,7 +1121,7 @@ class IndexFactory {
     Index result;
     bool valid = false;
     do {
-      auto counter_it = counters_.begin();
+      decltype(counters_)::iterator counter_it;
       {  // if don't have a counter for this space
 #if SEQUANT_INDEX_THREADSAFE
         std::scoped_lock lock(mutex_);
@@ -1151,7 +1151,7 @@ class IndexFactory {
     Index result;
     bool valid = false;
     do {
-      auto counter_it = counters_.begin();
+      decltype(counters_)::iterator counter_it;
       {  // if don't have a counter for this space
 #if SEQUANT_INDEX_THREADSAFE
         std::scoped_lock lock(mutex_);
-- 
2.43.0


From 032e6fff541af92d22f6e354be9b40e0dcd96d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:18 +0000
Subject: [PATCH 28/34] fix: IndexSpaceRegistry reads its memoized lists only
 while holding their mutex

---
 SeQuant/core/index_space_registry.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 164e8da..17f8298 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -826,17 +826,15 @@ class IndexSpaceRegistry {
   /// @return (memoized) set of base IndexSpace::Type objects, sorted in
   /// increasing order
   const std::vector<IndexSpace::Type>& base_space_types() const {
+    std::scoped_lock guard{mtx_memoized_};
     if (!base_space_types_) {
       auto types = *spaces_ | ranges::views::transform([](const auto& s) {
         return s.type();
       }) | ranges::views::filter([](const auto& t) { return is_base(t); }) |
                    ranges::views::unique | ranges::to_vector;
       ranges::sort(types, [](auto t1, auto t2) { return t1 < t2; });
-      std::scoped_lock guard{mtx_memoized_};
-      if (!base_space_types_) {
-        base_space_types_ =
-            std::make_shared<std::vector<IndexSpace::Type>>(std::move(types));
-      }
+      base_space_types_ =
+          std::make_shared<std::vector<IndexSpace::Type>>(std::move(types));
     }
     return *base_space_types_;
   }
@@ -848,6 +846,7 @@ class IndexSpaceRegistry {
   /// @return (memoized) set of base IndexSpace objects, sorted in the order of
   /// increasing type()
   const std::vector<IndexSpace>& base_spaces() const {
+    std::scoped_lock guard{mtx_memoized_};
     if (!base_spaces_) {
       auto spaces = *spaces_ | ranges::views::filter([this](const auto& s) {
         return this->is_base(s);
@@ -855,11 +854,8 @@ class IndexSpaceRegistry {
                     ranges::to_vector;
       ranges::sort(spaces,
                    [](auto s1, auto s2) { return s1.type() < s2.type(); });
-      std::scoped_lock guard{mtx_memoized_};
-      if (!base_spaces_) {
-        base_spaces_ =
-            std::make_shared<std::vector<IndexSpace>>(std::move(spaces));
-      }
+      base_spaces_ =
+          std::make_shared<std::vector<IndexSpace>>(std::move(spaces));
     }
     return *base_spaces_;
   }
-- 
2.43.0


From 952478850ba9e27341eb873cb14f5322b4cec3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:18 +0000
Subject: [PATCH 29/34] fix: Singleton::instance does not race with the
 construction of the instance

---
 SeQuant/core/utility/singleton.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/utility/singleton.hpp b/SeQuant/core/utility/singleton.hpp
index 306641e..006ec84 100644
--- a/SeQuant/core/utility/singleton.hpp
+++ b/SeQuant/core/utility/singleton.hpp
@@ -6,6 +6,7 @@
 #define SEQUANT_CORE_UTILITY_SINGLETON_HPP
 
 #include <SeQuant/core/utility/exception.hpp>
+#include <atomic>
 #include <cassert>
 #include <memory>
 #include <mutex>
@@ -56,8 +57,7 @@ class Singleton {
   /// Derived is not default-constructible and set_instance() had not been
   /// called)
   static Derived& instance() {
-    const auto& result_ptr = instance_accessor();
-    if (result_ptr != nullptr) return *result_ptr;
+    if (Derived* result_ptr = published_instance().load()) return *result_ptr;
     if constexpr (derived_is_default_constructible) {
       return set_default_instance();
     } else
@@ -71,8 +71,7 @@ class Singleton {
   /// @return pointer to the instance, or nullptr if it has not yet been
   /// constructed
   static Derived* instance_ptr() {
-    const auto& result_ptr = instance_accessor();
-    if (result_ptr != nullptr) return result_ptr.get();
+    if (Derived* result_ptr = published_instance().load()) return result_ptr;
     if constexpr (derived_is_default_constructible) {
       return set_default_instance();
     } else
@@ -98,6 +97,7 @@ class Singleton {
           "constructed");
     instance_accessor() = std::move(
         std::unique_ptr<Derived>(new Derived(std::forward<Args>(args)...)));
+    published_instance().store(instance_accessor().get());
     return *instance_accessor();
   }
 
@@ -109,6 +109,12 @@ class Singleton {
     static std::unique_ptr<Derived> instance;
     return instance;
   }
+  // points to instance_accessor()'s object once it has been constructed, can be
+  // read without holding instance_mutex()
+  static auto& published_instance() {
+    static std::atomic<Derived*> instance = nullptr;
+    return instance;
+  }
   // provides mutex that controls access to instance_accessor()'s object
   static auto& instance_mutex() {
     static std::mutex mtx;
@@ -122,6 +128,7 @@ class Singleton {
     std::scoped_lock lock(instance_mutex());
     if (!instance_accessor()) {
       instance_accessor() = std::move(std::unique_ptr<Derived>(new Derived));
+      published_instance().store(instance_accessor().get());
     }
     return *instance_accessor();
   }
-- 
2.43.0


From 29d4568def762eb28fb1a29b7863ab1bf0afe4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:18 +0000
Subject: [PATCH 30/34] fix: WickTheorem does not leave the result mutex locked
 if appending throws

---
 SeQuant/core/wick.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/wick.hpp b/SeQuant/core/wick.hpp
index cb4ab42..9a328b3 100644
--- a/SeQuant/core/wick.hpp
+++ b/SeQuant/core/wick.hpp
@@ -1554,7 +1554,7 @@ class WickTheorem {
                         auto bp = prefactor->canonicalize();
                         prefactor *= bp;
 
-                        result.second->lock();
+                        std::scoped_lock lock(*result.second);
                         //              std::wcout << "got " <<
                         //              io::latex::to_string(state.sp)
                         //              << std::endl;
@@ -1562,7 +1562,6 @@ class WickTheorem {
                         //              std::wcout << "now up to " <<
                         //              result.first->size()
                         //              << " terms" << std::endl;
-                        result.second->unlock();
                       } else {
                         auto [target_partner_indices, ncycles] =
                             state.make_target_partner_indices();
@@ -1596,9 +1595,8 @@ class WickTheorem {
                           summand = ex<Product>(summand);
                         }
 
-                        result.second->lock();
+                        std::scoped_lock lock(*result.second);
                         result.first->append(std::move(summand));
-                        result.second->unlock();
                       }
                     } else
                       ++state.count;
-- 
2.43.0


From c047fe980125c597828533fe28fd87247a42cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:18 +0000
Subject: [PATCH 31/34] fix: all changes of the default contexts, including
 their restoration, hold the context lock

---
 SeQuant/core/context.cpp         | 19 ++++++++++++++-----
 SeQuant/core/utility/context.hpp | 13 ++++++++++++-
 SeQuant/domain/mbpt/context.cpp  | 13 ++++++++-----
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/SeQuant/core/context.cpp b/SeQuant/core/context.cpp
index b87306b..f706236 100644
--- a/SeQuant/core/context.cpp
+++ b/SeQuant/core/context.cpp
@@ -39,12 +39,15 @@ bool operator!=(const Context& ctx1, const Context& ctx2) {
 }
 
 #ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
-static std::recursive_mutex ctx_mtx;  // used to protect the context
+// used to protect the context
+static std::recursive_mutex& ctx_mtx() {
+  return detail::implicit_context_mutex<container::map<Statistics, Context>>();
+}
 #endif
 
 const Context& get_default_context(Statistics s) {
 #ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
-  std::scoped_lock lock(ctx_mtx);
+  std::scoped_lock lock(ctx_mtx());
 #endif
   auto& contexts =
       detail::get_implicit_context<container::map<Statistics, Context>>();
@@ -63,7 +66,7 @@ const Context& get_default_context(Statistics s) {
 
 void set_default_context(Context ctx, Statistics s) {
 #ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
-  std::scoped_lock lock(ctx_mtx);
+  std::scoped_lock lock(ctx_mtx());
 #endif
   auto& contexts =
       detail::implicit_context_instance<container::map<Statistics, Context>>();
@@ -87,7 +90,7 @@ void set_default_context(const container::map<Statistics, Context>& ctxs) {
 
 void reset_default_context() {
 #ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
-  std::scoped_lock lock(ctx_mtx);
+  std::scoped_lock lock(ctx_mtx());
 #endif
   detail::reset_implicit_context<container::map<Statistics, Context>>();
 }
@@ -96,7 +99,7 @@ void reset_default_context() {
     container::map<Statistics, Context>>
 set_scoped_default_context(const container::map<Statistics, Context>& ctx) {
 #ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
-  std::scoped_lock lock(ctx_mtx);
+  std::scoped_lock lock(ctx_mtx());
 #endif
   return detail::set_scoped_implicit_context(ctx);
 }
@@ -104,6 +107,9 @@ set_scoped_default_context(const container::map<Statistics, Context>& ctx) {
 [[nodiscard]] detail::ImplicitContextResetter<
     container::map<Statistics, Context>>
 set_scoped_default_context(Context ctx) {
+#ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
+  std::scoped_lock lock(ctx_mtx());
+#endif
   return detail::set_scoped_implicit_context(
       container::map<Statistics, Context>{
           {Statistics::Arbitrary, std::move(ctx)}});
@@ -112,6 +118,9 @@ set_scoped_default_context(Context ctx) {
 [[nodiscard]] detail::ImplicitContextResetter<
     container::map<Statistics, Context>>
 set_scoped_default_context(Context::Options ctx_options) {
+#ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
+  std::scoped_lock lock(ctx_mtx());
+#endif
   return detail::set_scoped_implicit_context(
       container::map<Statistics, Context>{
           {Statistics::Arbitrary, Context(std::move(ctx_options))}});
diff --git a/SeQuant/core/utility/context.hpp b/SeQuant/core/utility/context.hpp
index 23f2ea4..6ea1a84 100644
--- a/SeQuant/core/utility/context.hpp
+++ b/SeQuant/core/utility/context.hpp
@@ -1,6 +1,7 @@
 #ifndef SEQUANT_CORE_UTILITY_CONTEXT_HPP
 #define SEQUANT_CORE_UTILITY_CONTEXT_HPP
 
+#include <mutex>
 #include <optional>
 
 /// \name reusable components for manipulation of global contexts
@@ -15,6 +16,13 @@ inline Ctx& implicit_context_instance() {
   return instance_;
 }
 
+/// protects the object returned by implicit_context_instance()
+template <typename Ctx>
+inline std::recursive_mutex& implicit_context_mutex() {
+  static std::recursive_mutex mtx;
+  return mtx;
+}
+
 template <typename Ctx>
 const Ctx& get_implicit_context() {
   return implicit_context_instance<Ctx>();
@@ -37,7 +45,10 @@ struct ImplicitContextResetter {
   ImplicitContextResetter(const Ctx& previous_ctx) noexcept
       : previous_ctx_(previous_ctx) {}
   ~ImplicitContextResetter() noexcept {
-    if (previous_ctx_) set_implicit_context<Ctx>(*previous_ctx_);
+    if (previous_ctx_) {
+      std::scoped_lock lock(implicit_context_mutex<Ctx>());
+      set_implicit_context<Ctx>(*previous_ctx_);
+    }
   }
 
   // ContextResetter is move-only
diff --git a/SeQuant/domain/mbpt/context.cpp b/SeQuant/domain/mbpt/context.cpp
index 8f032db..25d745b 100644
--- a/SeQuant/domain/mbpt/context.cpp
+++ b/SeQuant/domain/mbpt/context.cpp
@@ -10,7 +10,10 @@
 namespace sequant::mbpt {
 
 #ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
-static std::recursive_mutex mbpt_ctx_mtx;  // used to protect the MBPT context
+// used to protect the MBPT context
+static std::recursive_mutex& mbpt_ctx_mtx() {
+  return sequant::detail::implicit_context_mutex<Context>();
+}
 #endif
 
 Context::Context(Options options)
@@ -73,14 +76,14 @@ bool operator!=(Context const& left, Context const& right) {
 
 const Context& get_default_mbpt_context() {
 #ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
-  std::scoped_lock lock(mbpt_ctx_mtx);
+  std::scoped_lock lock(mbpt_ctx_mtx());
 #endif
   return sequant::detail::get_implicit_context<Context>();
 }
 
 void set_default_mbpt_context(const Context& ctx) {
 #ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
-  std::scoped_lock lock(mbpt_ctx_mtx);
+  std::scoped_lock lock(mbpt_ctx_mtx());
 #endif
   sequant::detail::set_implicit_context(ctx);
 }
@@ -91,7 +94,7 @@ void set_default_mbpt_context(const Context::Options& options) {
 
 void reset_default_mbpt_context() {
 #ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
-  std::scoped_lock lock(mbpt_ctx_mtx);
+  std::scoped_lock lock(mbpt_ctx_mtx());
 #endif
   sequant::detail::reset_implicit_context<Context>();
 }
@@ -99,7 +102,7 @@ void reset_default_mbpt_context() {
 [[nodiscard]] sequant::detail::ImplicitContextResetter<Context>
 set_scoped_default_mbpt_context(const Context& f) {
 #ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
-  std::scoped_lock lock(mbpt_ctx_mtx);
+  std::scoped_lock lock(mbpt_ctx_mtx());
 #endif
   return sequant::detail::set_scoped_implicit_context(f);
 }
-- 
2.43.0


From 3e89ee2eacb76cc62ed043803039b6a6fb2551ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 32/34] fix: log the source index before it is moved away in
 wick index replacement

---
 SeQuant/core/wick.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/wick.impl.hpp b/SeQuant/core/wick.impl.hpp
index 08052f4..5aa682e 100644
--- a/SeQuant/core/wick.impl.hpp
+++ b/SeQuant/core/wick.impl.hpp
@@ -50,7 +50,7 @@ class index_repl_dst_t {
   explicit index_repl_dst_t(Index dst, Index src)
       : dst_(std::move(dst)), src_{std::move(src)} {
     if (Logger::instance().wick_reduce) {
-      sequant::wprintf("index_repl_dst_t: ctor, src=", src.to_latex(),
+      sequant::wprintf("index_repl_dst_t: ctor, src=", src_.front().to_latex(),
                        " dst=", dst_.to_latex(), "\n");
     }
   }
-- 
2.43.0


From f221ec5d886863045c7940cd2c68ca91754e550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 33/34] fix: do not compute the spin-free cycle prefactor in a
 32-bit integer

---
 SeQuant/core/wick.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/wick.hpp b/SeQuant/core/wick.hpp
index 9a328b3..1941ee3 100644
--- a/SeQuant/core/wick.hpp
+++ b/SeQuant/core/wick.hpp
@@ -1545,7 +1545,7 @@ class WickTheorem {
                           SEQUANT_ASSERT(
                               target_partner_indices
                                   .empty());  // all ops are contracted out
-                          scalar_prefactor *= 1 << ncycles;
+                          scalar_prefactor *= sequant::intmax_t{1} << ncycles;
                         }
                         auto prefactor = state.sp.clone();
                         prefactor.template as<Product>().scale(
@@ -1571,7 +1571,7 @@ class WickTheorem {
                         if (ncycles > 0 &&
                             ctx.vacuum() == Vacuum::SingleProduct &&
                             ctx.spbasis() == SPBasis::Spinfree) {
-                          scalar_prefactor *= 1 << ncycles;
+                          scalar_prefactor *= sequant::intmax_t{1} << ncycles;
                         }
 
                         // restore the index pairings into as original order
-- 
2.43.0


From e6f92a8436c3b7f021cd3a88386a3c447ca688b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 34/34] fix: convert numbers in serialized expressions exactly

---
 SeQuant/core/io/serialization/v1/ast.hpp      |  12 +-
 .../io/serialization/v1/ast_conversions.hpp   | 103 ++++++++++++++----
 .../core/io/serialization/v1/deserialize.cpp  |   2 +-
 3 files changed, 93 insertions(+), 24 deletions(-)

diff --git a/SeQuant/core/io/serialization/v1/ast.hpp b/SeQuant/core/io/serialization/v1/ast.hpp
index eff36d0..163f138 100644
--- a/SeQuant/core/io/serialization/v1/ast.hpp
+++ b/SeQuant/core/io/serialization/v1/ast.hpp
@@ -13,6 +13,7 @@
 #include <boost/variant.hpp>
 
 #include <string>
+#include <utility>
 #include <variant>
 #include <vector>
 
@@ -34,12 +35,15 @@ struct Index : boost::spirit::x3::position_tagged {
       : label(std::move(label)), protoLabels(std::move(protoLabels)) {}
 };
 
+// N.B. numbers are kept as text so that they can be converted exactly
 struct Number : boost::spirit::x3::position_tagged {
-  double numerator;
-  double denominator;
+  std::wstring numerator;
+  std::wstring denominator;  // empty if there is none
 
-  Number(double numerator = {}, double denominator = 1)
-      : numerator(numerator), denominator(denominator) {}
+  Number(std::wstring numerator = {}, std::wstring denominator = {})
+      : numerator(std::move(numerator)), denominator(std::move(denominator)) {}
+
+  explicit Number(int value) : numerator(std::to_wstring(value)) {}
 };
 
 struct Variable : boost::spirit::x3::position_tagged {
diff --git a/SeQuant/core/io/serialization/v1/ast_conversions.hpp b/SeQuant/core/io/serialization/v1/ast_conversions.hpp
index 22e761c..bc94ee7 100644
--- a/SeQuant/core/io/serialization/v1/ast_conversions.hpp
+++ b/SeQuant/core/io/serialization/v1/ast_conversions.hpp
@@ -20,7 +20,10 @@
 #include <range/v3/algorithm/find.hpp>
 
 #include <algorithm>
+#include <cstdlib>
+#include <optional>
 #include <string>
+#include <string_view>
 #include <tuple>
 #include <variant>
 
@@ -212,19 +215,79 @@ ColumnSymmetry to_column_symmetry(char c, std::size_t offset, const Iterator &,
       std::string("Invalid particle symmetry specifier '") + c + "'");
 }
 
+/// Converts decimal text (e.g. `-12`, `0.25` or `1.5e-3`) to the rational number
+/// it denotes
+/// @return std::nullopt if the text does not denote a finite number
+inline std::optional<::sequant::rational> decimal_to_rational(
+    std::wstring_view text) {
+  // limits the size of the result
+  constexpr int max_exponent = 10000;
+
+  auto it = text.begin();
+  auto eat_sign = [&]() {
+    const bool negative = it != text.end() && *it == L'-';
+    if (it != text.end() && (*it == L'-' || *it == L'+')) ++it;
+    return negative;
+  };
+  auto is_digit = [&]() {
+    return it != text.end() && *it >= L'0' && *it <= L'9';
+  };
+
+  const bool negative = eat_sign();
+  ::sequant::intmax_t digits = 0;
+  int exponent = 0;
+  bool have_digits = false;
+  auto eat_digits = [&](int step) {
+    for (; is_digit(); ++it, exponent += step, have_digits = true) {
+      digits = digits * 10 + static_cast<int>(*it - L'0');
+    }
+  };
+
+  eat_digits(0);
+  if (it != text.end() && *it == L'.') {
+    ++it;
+    eat_digits(-1);
+  }
+  if (!have_digits) return std::nullopt;
+  if (it != text.end() && (*it == L'e' || *it == L'E')) {
+    ++it;
+    const bool exponent_negative = eat_sign();
+    int value = 0;
+    for (; is_digit(); ++it) {
+      value = value * 10 + static_cast<int>(*it - L'0');
+      if (value > max_exponent) return std::nullopt;
+    }
+    exponent += exponent_negative ? -value : value;
+  }
+  if (it != text.end()) return std::nullopt;
+
+  if (negative) digits = -digits;
+  const ::sequant::intmax_t scale = boost::multiprecision::pow(
+      ::sequant::intmax_t{10}, static_cast<unsigned>(std::abs(exponent)));
+  return exponent < 0 ? ::sequant::rational(digits, scale)
+                      : ::sequant::rational(digits * scale);
+}
+
+/// @return the exact value of @p number
 template <typename PositionCache, typename Iterator>
-Constant to_constant(const io::serialization::v1::ast::Number &number,
-                     const PositionCache &, const Iterator &) {
-  if (static_cast<std::int64_t>(number.numerator) == number.numerator &&
-      static_cast<std::int64_t>(number.denominator) == number.denominator) {
-    // Integer fraction
-    return Constant(
-        ::sequant::rational(static_cast<std::int64_t>(number.numerator),
-                            static_cast<std::int64_t>(number.denominator)));
-  } else {
-    // Construct from floating point value
-    return Constant(::sequant::rational(number.numerator / number.denominator));
+::sequant::rational number_to_rational(
+    const io::serialization::v1::ast::Number &number, const PositionCache &cache,
+    const Iterator &begin) {
+  const auto numerator = decimal_to_rational(number.numerator);
+  const auto denominator = number.denominator.empty()
+                               ? std::optional<::sequant::rational>(1)
+                               : decimal_to_rational(number.denominator);
+  if (!numerator || !denominator || *denominator == 0) {
+    auto [offset, length] = get_pos(number, cache, begin);
+    throw SerializationError(offset, length, "Invalid number");
   }
+  return *numerator / *denominator;
+}
+
+template <typename PositionCache, typename Iterator>
+Constant to_constant(const io::serialization::v1::ast::Number &number,
+                     const PositionCache &cache, const Iterator &begin) {
+  return Constant(number_to_rational(number, cache, begin));
 }
 
 template <typename PositionCache, typename Iterator>
@@ -362,20 +425,22 @@ struct Transformer {
     // build base from Number or Variable
     ExprPtr base = boost::apply_visitor(*this, power.base);
 
-    // exponent must be a rational, reject otherwise
-    if (static_cast<std::int64_t>(power.exponent.numerator) !=
-            power.exponent.numerator ||
-        static_cast<std::int64_t>(power.exponent.denominator) !=
-            power.exponent.denominator) {
+    // exponent must be a ratio of integers, reject otherwise
+    auto is_integer = [](const std::wstring &text) {
+      if (text.empty()) return true;
+      const auto value = decimal_to_rational(text);
+      return value && denominator(*value) == 1;
+    };
+    if (!is_integer(power.exponent.numerator) ||
+        !is_integer(power.exponent.denominator)) {
       auto [offset, length] = get_pos(power, position_cache.get(), begin.get());
       throw SerializationError(
           offset, length,
           "Power exponent must be a rational number (integer numerator and "
           "denominator)");
     }
-    sequant::rational exponent(
-        static_cast<std::int64_t>(power.exponent.numerator),
-        static_cast<std::int64_t>(power.exponent.denominator));
+    sequant::rational exponent =
+        number_to_rational(power.exponent, position_cache.get(), begin.get());
 
     auto pw = ex<Power>(std::move(base), std::move(exponent));
     if (power.conjugated) {
diff --git a/SeQuant/core/io/serialization/v1/deserialize.cpp b/SeQuant/core/io/serialization/v1/deserialize.cpp
index f8e8ff7..124df05 100644
--- a/SeQuant/core/io/serialization/v1/deserialize.cpp
+++ b/SeQuant/core/io/serialization/v1/deserialize.cpp
@@ -89,7 +89,7 @@ auto name_def         = x3::lexeme[
                             x3::unicode::alpha >> -( *(word_components >> &word_components) >> (word_components - '_') )
                         ];
 
-auto number_def       = x3::double_ >> -('/' >> x3::double_);
+auto number_def       = x3::raw[x3::double_] >> -('/' >> x3::raw[x3::double_]);
 
 auto variable_def     = x3::lexeme[name >> -(x3::lit('^') >> '*' >> x3::attr(true))];
 
-- 
2.43.0

