From d9c411d58d3da03bbfde7da67c5de9f800d2dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:51 +0000
Subject: [PATCH 01/34] fix: number of interior DOFs of the
 Brezzi-Douglas-Marini basis

The layout reserved dim*(k-1)*3 interior DOFs per element, i.e. 6 for k=2
in 2d.  The local finite elements have k*k-1 (simplex) and k*(k-1) (cube)
interior shape functions, hence the index set of the basis of order 2 had
gaps: some global indices did not belong to any basis function.
---
 dune/functions/functionspacebases/brezzidouglasmarinibasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
index e367797..3fb3954 100644
--- a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
+++ b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
@@ -173,7 +173,7 @@ class BrezziDouglasMariniPreBasis :
   {
     return [](GeometryType gt, size_t gridDim) -> size_t {
       if (gt.dim() == gridDim)
-        return dim*(k-1)*3;
+        return gt.isCube() ? k*(k-1) : k*k-1;
       if (gt.dim() == gridDim-1)
         return dim+(k-1);
       return 0;
-- 
2.43.0


From 055efe8b4c01de16ae0f589f99505917a4490c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:14 +0000
Subject: [PATCH 02/34] fix: allow interpolation into the Argyris basis

The derivative of the component function handed to the local interpolation
was a plain lambda and had no derivative itself.  Hence interpolate() did
not compile for the Argyris basis, whose degrees of freedom include second
derivatives.  Return a component function of the derivative instead.
---
 dune/functions/functionspacebases/interpolate.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dune/functions/functionspacebases/interpolate.hh b/dune/functions/functionspacebases/interpolate.hh
index ede279e..7cefb14 100644
--- a/dune/functions/functionspacebases/interpolate.hh
+++ b/dune/functions/functionspacebases/interpolate.hh
@@ -76,13 +76,14 @@ public:
 
   friend auto derivative(const ComponentFunction& cf)
   {
-    // This provides support for capturing the derivative of the function by reference
-    // using forwardCapture for perfect forwarding capture. If the function caches its
-    // derivative, this saves a potentially costly copy.
+    // This provides support for capturing the derivative of the function by reference.
+    // If the function caches its derivative, this saves a potentially costly copy.
+    // The result is a ComponentFunction again to support higher order derivatives.
     auto&& df = derivative(Dune::resolveRef(cf.f_));
-    return [&, df=forwardCapture(std::forward<decltype(df)>(df))](auto&& x) {
-      return cf.restriction_(df.forward()(x));
-    };
+    if constexpr (std::is_lvalue_reference_v<decltype(df)>)
+      return Imp::ComponentFunction(std::cref(df), std::cref(cf.restriction_));
+    else
+      return Imp::ComponentFunction(std::move(df), std::cref(cf.restriction_));
   }
 
 private:
-- 
2.43.0


From e8fea9c38f4be19a6665350baa6ed5bd8cd365af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:15 +0000
Subject: [PATCH 03/34] fix: allow interpolation of scalar valued functions
 into the 1d Hermite basis

The derivative of a function R^1 -> double is a FieldVector<double,1>, which
squeezeTensor() turns into a scalar that has no operator[].
---
 dune/functions/functionspacebases/cubichermitebasis.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dune/functions/functionspacebases/cubichermitebasis.hh b/dune/functions/functionspacebases/cubichermitebasis.hh
index 79e5da6..c50266d 100644
--- a/dune/functions/functionspacebases/cubichermitebasis.hh
+++ b/dune/functions/functionspacebases/cubichermitebasis.hh
@@ -476,8 +476,11 @@ namespace Dune::Functions
           auto x = refElement.position(i, dim);
           auto&& derivativeValue = df(x);
           out[i * (dim +1)] = f(x);
-          for (int d = 0; d < dim; ++d)
-            out[i * (dim+1) + d + 1] = squeezeTensor(derivativeValue)[d] * (*averageVertexMeshSize_)[i];
+          if constexpr (dim == 1)
+            out[i * (dim+1) + 1] = squeezeTensor(squeezeTensor(derivativeValue)) * (*averageVertexMeshSize_)[i];
+          else
+            for (int d = 0; d < dim; ++d)
+              out[i * (dim+1) + d + 1] = squeezeTensor(derivativeValue)[d] * (*averageVertexMeshSize_)[i];
         }
 
         if constexpr (not reduced)
-- 
2.43.0


From ac420c18d3caf463752962a73f05a7ffa4d5c674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:15 +0000
Subject: [PATCH 04/34] fix: FunctionalDescriptor::isPartialDerivative() did
 not compile

---
 dune/functions/functionspacebases/functionaldescriptor.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/functionaldescriptor.hh b/dune/functions/functionspacebases/functionaldescriptor.hh
index 5e67609..d150427 100644
--- a/dune/functions/functionspacebases/functionaldescriptor.hh
+++ b/dune/functions/functionspacebases/functionaldescriptor.hh
@@ -63,7 +63,7 @@ public:
   {
     for(auto i: Dune::range(dim))
     {
-      if (partialDerivativeOrder(i)>0)
+      if (partialDerivativeOrder_[i]>0)
         return true;
     }
     return false;
-- 
2.43.0


From 06d71a36a8aa77dfaf52d3bc849f9303d8e2c019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:46 +0000
Subject: [PATCH 05/34] fix: container descriptors of flat merged tuples and
 arrays

The flat lexicographic and flat interleaved concatenation of static Array and of
Tuple descriptors did not compile (emplace_back on std::array, function parameter
in constant expression), so power(composite(...), flat...) bases could not be
used with containerDescriptor(). For a run-time exponent a tuple of
heterogeneous children cannot be represented, the descriptor is Unknown then.
---
 .../containerdescriptors.hh                   | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/dune/functions/functionspacebases/containerdescriptors.hh b/dune/functions/functionspacebases/containerdescriptors.hh
index 41019e0..4093f39 100644
--- a/dune/functions/functionspacebases/containerdescriptors.hh
+++ b/dune/functions/functionspacebases/containerdescriptors.hh
@@ -335,11 +335,9 @@ auto flatLexicographicN (N n, Array<GrandChild, m> child)
   }
   else
   {
-    auto result = Array<GrandChild, N::value*m>{};
-    for (auto j : Dune::range(n))
-      for (auto i : Dune::range(child.size()))
-        result.emplace_back(child[i]);
-    return result;
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return Array<GrandChild, N::value*m>{child[i%m]...};
+    }, std::make_index_sequence<N::value*m>{});
   }
 }
 
@@ -348,9 +346,13 @@ template<class N, class... GrandChild>
 auto flatLexicographicN (N n, Tuple<GrandChild...> child)
 {
   constexpr std::size_t m = sizeof...(GrandChild);
-  return Dune::unpackIntegerSequence([&](auto... i) {
-    return makeDescriptor(std::get<i%m>(child)...);
-  }, std::make_index_sequence<n*m>{});
+  // The number of children of a tuple has to be known at compile time
+  if constexpr (std::is_integral_v<N>)
+    return Unknown{};
+  else
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return makeDescriptor(std::get<i%m>(child)...);
+    }, std::make_index_sequence<N::value*m>{});
 }
 
 //! Concatenate descriptor n-times by flat interleaved merging wrt first digit
@@ -404,11 +406,9 @@ auto flatInterleavedN (N n, Array<GrandChild, m> child)
   }
   else
   {
-    auto result = Array<GrandChild, N::value*m>{};
-    for (auto i : Dune::range(child.size()))
-      for (auto j : Dune::range(n))
-        result.emplace_back(child[i]);
-    return result;
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return Array<GrandChild, N::value*m>{child[i/N::value]...};
+    }, std::make_index_sequence<N::value*m>{});
   }
 }
 
@@ -417,9 +417,13 @@ template<class N, class... GrandChild>
 auto flatInterleavedN (N n, Tuple<GrandChild...> child)
 {
   constexpr std::size_t m = sizeof...(GrandChild);
-  return Dune::unpackIntegerSequence([&](auto... i) {
-    return makeDescriptor(std::get<i/n>(child)...);
-  }, std::make_index_sequence<n*m>{});
+  // The number of children of a tuple has to be known at compile time
+  if constexpr (std::is_integral_v<N>)
+    return Unknown{};
+  else
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return makeDescriptor(std::get<i/N::value>(child)...);
+    }, std::make_index_sequence<N::value*m>{});
 }
 
 } // end namespace Impl
-- 
2.43.0


From d3da3cedc3612065390f98bb0fa66d382f1a8d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:14 +0000
Subject: [PATCH 06/34] fix: makeISTLVector for descriptors with a single
 static child

BlockVector{child} with one argument deduces the type of the child itself
(copy deduction candidate), so the blocking level of power<1>(...) and of
composites with one child was lost and multi-index access failed.
---
 dune/functions/backends/istlvectorfactory.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/functions/backends/istlvectorfactory.hh b/dune/functions/backends/istlvectorfactory.hh
index 5df1bb2..6ee188f 100644
--- a/dune/functions/backends/istlvectorfactory.hh
+++ b/dune/functions/backends/istlvectorfactory.hh
@@ -39,8 +39,10 @@ struct ISTLVectorFactory
   template<class V, std::size_t n>
   auto operator() (const Array<V,n>& tree) const
   {
+    // Do not deduce the block type, because this would copy the single child if n==1
+    using W = decltype((*this)(tree[0]));
     return unpackIntegerSequence([&](auto... ii) {
-      return Dune::BlockVector{(*this)(tree[ii])...};
+      return Dune::BlockVector<W>{(*this)(tree[ii])...};
     }, std::make_index_sequence<n>());
   }
 
@@ -58,8 +60,10 @@ struct ISTLVectorFactory
   auto operator() (const UniformArray<V,n>& tree) const
   {
     auto node = (*this)(tree[0]);
+    // Do not deduce the block type, because this would copy the single child if n==1
+    using W = decltype(node);
     return unpackIntegerSequence([&](auto... ii) {
-      return Dune::BlockVector{((void)(ii),node)...};
+      return Dune::BlockVector<W>{((void)(ii),node)...};
     }, std::make_index_sequence<n>());
   }
 
-- 
2.43.0


From 51a09cf062fcecfdd9e0a446b26c07a2ac64a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:59 +0000
Subject: [PATCH 07/34] fix: update the element mapper of the Morley pre-basis
 in update()

---
 dune/functions/functionspacebases/morleybasis.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/functionspacebases/morleybasis.hh b/dune/functions/functionspacebases/morleybasis.hh
index cdb0bea..ea1628c 100644
--- a/dune/functions/functionspacebases/morleybasis.hh
+++ b/dune/functions/functionspacebases/morleybasis.hh
@@ -641,6 +641,7 @@ namespace Dune::Functions
     void update(GridView const &gv)
     {
       Base::update(gv);
+      mapper_.update(this->gridView());
       data_ = Impl::computeEdgeOrientations(mapper_);
     }
 
-- 
2.43.0


From 21a2a8a4c717a6390d03bdac16265ea1d99968ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:39 +0000
Subject: [PATCH 08/34] fix: append the component to hybrid Taylor-Hood
 velocity indices

---
 dune/functions/functionspacebases/taylorhoodbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/taylorhoodbasis.hh b/dune/functions/functionspacebases/taylorhoodbasis.hh
index 80efc8f..2cf6867 100644
--- a/dune/functions/functionspacebases/taylorhoodbasis.hh
+++ b/dune/functions/functionspacebases/taylorhoodbasis.hh
@@ -262,7 +262,7 @@ protected:
       for (std::size_t i = 0; i<subTreeSize; ++i)
       {
         multiIndexPushFront(multiIndices[i], 0);
-        multiIndices[i].push_back(i);
+        multiIndices[i].push_back(child);
       }
       multiIndices += subTreeSize;
     }
-- 
2.43.0


From 09799bca9b121b1ce977a5a7be1143c714bedced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:39 +0000
Subject: [PATCH 09/34] fix: store the new grid view in
 TaylorHoodPreBasis::update

---
 dune/functions/functionspacebases/taylorhoodbasis.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/functionspacebases/taylorhoodbasis.hh b/dune/functions/functionspacebases/taylorhoodbasis.hh
index 2cf6867..54891cf 100644
--- a/dune/functions/functionspacebases/taylorhoodbasis.hh
+++ b/dune/functions/functionspacebases/taylorhoodbasis.hh
@@ -108,6 +108,7 @@ public:
   //! Update the stored grid view, to be called if the grid has changed
   void update (const GridView& gv)
   {
+    gridView_ = gv;
     pq1PreBasis_.update(gv);
     pq2PreBasis_.update(gv);
   }
-- 
2.43.0


From 30592e1b8b9fb422cc7a55e94ae14d3769ff5ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:36 +0000
Subject: [PATCH 10/34] fix: size of the container descriptor of periodic bases

---
 dune/functions/functionspacebases/periodicbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/periodicbasis.hh b/dune/functions/functionspacebases/periodicbasis.hh
index a27029e..5ba425c 100644
--- a/dune/functions/functionspacebases/periodicbasis.hh
+++ b/dune/functions/functionspacebases/periodicbasis.hh
@@ -125,7 +125,7 @@ public:
   template<class PreBasis>
   auto containerDescriptor(const PreBasis& preBasis) const
   {
-    return Dune::Functions::containerDescriptor(preBasis);
+    return Dune::Functions::ContainerDescriptors::FlatVector{numIndices_};
   }
 
 private:
-- 
2.43.0


From b6e58d55bd3be6115c7c0241f903600353f6766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:52 +0000
Subject: [PATCH 11/34] fix: identify transitively connected indices in
 periodic bases

---
 .../functionspacebases/periodicbasis.hh       | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/dune/functions/functionspacebases/periodicbasis.hh b/dune/functions/functionspacebases/periodicbasis.hh
index 5ba425c..ea38688 100644
--- a/dune/functions/functionspacebases/periodicbasis.hh
+++ b/dune/functions/functionspacebases/periodicbasis.hh
@@ -7,9 +7,10 @@
 #ifndef DUNE_FUNCTIONS_FUNCTIONSPACEBASES_PERIODICBASIS_HH
 #define DUNE_FUNCTIONS_FUNCTIONSPACEBASES_PERIODICBASIS_HH
 
+#include <algorithm>
+#include <cstddef>
 #include <utility>
 #include <type_traits>
-#include <limits>
 #include <set>
 #include <vector>
 
@@ -85,20 +86,26 @@ public:
   PeriodicIndexingTransformation(const RawPreBasis& rawPreBasis, const IndexPairSet& indexPairSet)
   {
     static_assert(RawPreBasis::maxMultiIndexSize==1, "PeriodicIndexingTransformation is only implemented for flat multi-indices");
-    std::size_t invalid = {std::numeric_limits<std::size_t>::max()};
-    mappedIdx_.resize(rawPreBasis.size(), invalid);
-    numIndices_ = 0;
-    std::size_t i = 0;
+    // Build a forest where each index points to itself or to a smaller
+    // index it is identified with, such that each tree of the forest is
+    // a class of (directly or indirectly) identified indices.
+    mappedIdx_.resize(rawPreBasis.size());
+    for(std::size_t i=0; i<mappedIdx_.size(); ++i)
+      mappedIdx_[i] = i;
+    auto root = [&](std::size_t i) {
+      while (mappedIdx_[i] != i)
+        i = mappedIdx_[i] = mappedIdx_[mappedIdx_[i]];
+      return i;
+    };
     for(const auto& [a, b] : indexPairSet)
     {
-      for(; i<=a; ++i)
-        if (mappedIdx_[i] == invalid)
-          mappedIdx_[i] = numIndices_++;
-      mappedIdx_[b] = mappedIdx_[a];
+      auto [first, second] = std::minmax({root(a), root(b)});
+      mappedIdx_[second] = first;
     }
-    for(; i<rawPreBasis.size(); ++i)
-      if (mappedIdx_[i] == invalid)
-        mappedIdx_[i] = numIndices_++;
+    // Enumerate the classes by their smallest index
+    numIndices_ = 0;
+    for(std::size_t i=0; i<mappedIdx_.size(); ++i)
+      mappedIdx_[i] = (mappedIdx_[i] == i) ? numIndices_++ : mappedIdx_[mappedIdx_[i]];
   }
 
   template<class MultiIndex, class PreBasis>
-- 
2.43.0


From 65204bf0c9f5dae957c7b2b864ff340c23abbf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:50 +0000
Subject: [PATCH 12/34] fix: do not return a reference to a temporary element
 when iterating over a sub-domain

---
 dune/functions/common/subdomain.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/functions/common/subdomain.hh b/dune/functions/common/subdomain.hh
index 0104252..bf2f428 100644
--- a/dune/functions/common/subdomain.hh
+++ b/dune/functions/common/subdomain.hh
@@ -380,7 +380,6 @@ namespace Dune::Functions::Experimental {
     template<PartitionIteratorType pit>
     class ElementIterator
     {
-      using Element = typename HGV::template Codim<0>::Entity;
     public:
 
       using HostElementIterator = typename HGV::template Codim<0>::template Partition<pit>::Iterator;
@@ -402,7 +401,8 @@ namespace Dune::Functions::Experimental {
         return *this;
       }
 
-      const Element& operator*() const
+      // Depending on the host grid this is a reference or a temporary object
+      decltype(auto) operator*() const
       {
         return *hostIt_;
       }
-- 
2.43.0


From c385eaae85a40da2d68ff49adfe78eacf506e793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:02 +0000
Subject: [PATCH 13/34] fix: BDM basis on grid views that do not contain all
 neighbours

---
 dune/functions/functionspacebases/brezzidouglasmarinibasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
index 3fb3954..7188c65 100644
--- a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
+++ b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
@@ -120,7 +120,7 @@ namespace Impl {
 
         for (const auto& intersection : intersections(gv,cell))
         {
-          if (intersection.neighbor() && (is_->index(intersection.outside()) > myId))
+          if (intersection.neighbor() && gv.contains(intersection.outside()) && (is_->index(intersection.outside()) > myId))
             orient_[myId] |= (1 << intersection.indexInInside());
         }
       }
-- 
2.43.0


From fc793f77a5e009b35a7cfb5881b467a2a5dba242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:24 +0000
Subject: [PATCH 14/34] fix: do not copy the pointer to the enclosing finite
 element on assignment

The implicit copy assignment of TransformedFiniteElementMixin copied the
local basis including its pointer to the other finite element.
---
 .../functionspacebases/transformedfiniteelementmixin.hh    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dune/functions/functionspacebases/transformedfiniteelementmixin.hh b/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
index 84a1f18..2a53e76 100644
--- a/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
+++ b/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
@@ -155,6 +155,13 @@ class TransformedFiniteElementMixin
     : TransformedFiniteElementMixin()
     {}
 
+    // The local basis refers to the finite element it is part of.
+    // Hence it must not be copied from the other finite element.
+    TransformedFiniteElementMixin& operator=(TransformedFiniteElementMixin const& other)
+    {
+      return *this;
+    }
+
     const FEImplementation& asImpl() const
     {
       return *(static_cast<FEImplementation const*>(this));
-- 
2.43.0


From 3a29a2c1a9622463cc1c7cd27b8516d9b91c56ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:24 +0000
Subject: [PATCH 15/34] fix: allow assignment of refined Lagrange nodes

Otherwise the assignment of local functions does not compile.
---
 dune/functions/functionspacebases/refinedlagrangebasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/refinedlagrangebasis.hh b/dune/functions/functionspacebases/refinedlagrangebasis.hh
index c793b5f..13ea104 100644
--- a/dune/functions/functionspacebases/refinedlagrangebasis.hh
+++ b/dune/functions/functionspacebases/refinedlagrangebasis.hh
@@ -183,7 +183,7 @@ public:
   }
 
 protected:
-  const FiniteElement finiteElement_;
+  FiniteElement finiteElement_;
   const Element* element_;
 };
 
-- 
2.43.0


From d21332cc7cd100d8a55d5915255d7c67e76fffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:25 +0000
Subject: [PATCH 16/34] fix: allow assignment of nodes of restricted bases

Otherwise the assignment of local functions does not compile.
---
 dune/functions/functionspacebases/restrictedbasis.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dune/functions/functionspacebases/restrictedbasis.hh b/dune/functions/functionspacebases/restrictedbasis.hh
index b783247..b301b5a 100644
--- a/dune/functions/functionspacebases/restrictedbasis.hh
+++ b/dune/functions/functionspacebases/restrictedbasis.hh
@@ -67,13 +67,13 @@ public:
 
     Node(Base&& base, const SubDomainGridView& subDomainGridView, const SubDomain& subDomain)
       : Base(base)
-      , subDomainGridView_(subDomainGridView)
-      , subDomain_(subDomain)
+      , subDomainGridView_(&subDomainGridView)
+      , subDomain_(&subDomain)
     {}
 
     void bind(const Element& element)
     {
-      if (subDomainGridView_.contains(element))
+      if (subDomainGridView_->contains(element))
         Base::bind(element);
       else
       {
@@ -86,12 +86,12 @@ public:
 
     const SubDomain& subDomain() const
     {
-      return subDomain_;
+      return *subDomain_;
     }
 
   private:
-    const SubDomainGridView& subDomainGridView_;
-    const SubDomain& subDomain_;
+    const SubDomainGridView* subDomainGridView_;
+    const SubDomain* subDomain_;
   };
 
   static constexpr size_type maxMultiIndexSize = SubDomainPreBasis::maxMultiIndexSize;
-- 
2.43.0


From 278f1bb83d60665ce4c2b552a61fa65f80012171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:25 +0000
Subject: [PATCH 17/34] fix: deep copy on assignment of local views

The implicit assignment was a member-wise copy, such that the nodes and
finite elements referred to data of the other local view.
---
 .../functionspacebases/defaultlocalview.hh    | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/dune/functions/functionspacebases/defaultlocalview.hh b/dune/functions/functionspacebases/defaultlocalview.hh
index f3e5d64..4a2398f 100644
--- a/dune/functions/functionspacebases/defaultlocalview.hh
+++ b/dune/functions/functionspacebases/defaultlocalview.hh
@@ -10,6 +10,7 @@
 
 #include <tuple>
 #include <optional>
+#include <type_traits>
 
 #include <dune/common/concept.hh>
 #include <dune/common/hybridutilities.hh>
@@ -87,6 +88,28 @@ public:
       bind(other.element());
   }
 
+  /**
+   * \brief Deep copy of the local view
+   *
+   * As in the copy constructor, the tree is newly created by the pre-basis
+   * and bound to the element of the other local view. A member-wise copy
+   * would refer to data that is owned by the other local view.
+   */
+  DefaultLocalView& operator=(const DefaultLocalView& other)
+    requires(std::is_move_assignable_v<Tree>)
+  {
+    if (this != &other)
+    {
+      unbind();
+      globalBasis_ = other.globalBasis_;
+      tree_ = globalBasis_->preBasis().makeNode();
+      initializeTree(tree_);
+      if (other.bound())
+        bind(other.element());
+    }
+    return *this;
+  }
+
   /** \brief Bind the view to a grid element
    *
    * Having to bind the view to an element before being able to actually access any of its data members
-- 
2.43.0


From 2916c8643684e9315607a57669151ede0b0a214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:25 +0000
Subject: [PATCH 18/34] fix: derivative of unbound CoarseFunctionOnFineGridView
 local functions

---
 .../gridfunctions/coarsefunctiononfinegridview.hh          | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh b/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
index 8a64ebb..03505de 100644
--- a/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
+++ b/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
@@ -129,7 +129,12 @@ private:
     friend auto derivative(const CoarseLocalFunctionOnFineGridView& f)
     {
       if constexpr(requires{ derivative(f.localFunction_); })
-        return Derivative(derivative(f.localFunction_), f.coarseEntitySet_, f.geometryInAncestor_, f.element_);
+      {
+        if (f.bound())
+          return Derivative(derivative(f.localFunction_), f.coarseEntitySet_, f.geometryInAncestor_, f.element_);
+        else
+          return Derivative(derivative(f.localFunction_), f.coarseEntitySet_);
+      }
       else
         return typename Traits::DerivativeInterface{};
     }
-- 
2.43.0


From a24a88331c7ef8a2c341811185c643b8ecd1a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:25 +0000
Subject: [PATCH 19/34] fix: coarse element of copied and temporarily bound
 GeometryInAncestor

---
 dune/functions/common/geometryinancestor.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/functions/common/geometryinancestor.hh b/dune/functions/common/geometryinancestor.hh
index 2334089..f0ffb84 100644
--- a/dune/functions/common/geometryinancestor.hh
+++ b/dune/functions/common/geometryinancestor.hh
@@ -67,7 +67,7 @@ public:
     : storedFineElement_(other.storedFineElement_)
     , storedCoarseElement_(other.storedCoarseElement_)
     , fineElementPtr_(&storedFineElement_)
-    , coarseElementPtr_(&storedFineElement_)
+    , coarseElementPtr_(&storedCoarseElement_)
     , geometryInFathersVector_(other.geometryInFathersVector_)
   {
     // If other points to external fine element,
@@ -90,7 +90,7 @@ public:
     : storedFineElement_(other.storedFineElement_)
     , storedCoarseElement_(other.storedCoarseElement_)
     , fineElementPtr_(&fineElement)
-    , coarseElementPtr_(&storedFineElement_)
+    , coarseElementPtr_(&storedCoarseElement_)
     , geometryInFathersVector_(other.geometryInFathersVector_)
   {
     // If the other coarse element is not the stored one,
@@ -150,7 +150,7 @@ public:
   const Element& bind(Element&& fineElement, F&& includeFather)
   {
     storedFineElement_ = fineElement;
-    bind(storedFineElement_, includeFather);
+    return bind(storedFineElement_, includeFather);
   }
 
   //! Return the fine element
-- 
2.43.0


From 13b8ee91b8146d31ec383c71993451c3ec12c0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:48 +0000
Subject: [PATCH 20/34] fix: derivative dummy of local analytic functions on
 embedded grids

The raw function wrapped by the local function acts on global coordinates,
so type erasure of a function without derivative did not compile for
grids with dimension different from dimensionworld.
---
 dune/functions/gridfunctions/analyticgridviewfunction.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/functions/gridfunctions/analyticgridviewfunction.hh b/dune/functions/gridfunctions/analyticgridviewfunction.hh
index 1008d61..072b8e0 100644
--- a/dune/functions/gridfunctions/analyticgridviewfunction.hh
+++ b/dune/functions/gridfunctions/analyticgridviewfunction.hh
@@ -46,8 +46,9 @@ public:
   // Use the indirection via derivativeIfImplemented to also support
   // function types F that do not implement derivative. In this case
   // the interface type DifferentiableFunction is using a dummy for
-  // the derivative type
-  using DerivativeDummy = DifferentiableFunction<DerivativeSignature>;
+  // the derivative type. Notice that, in contrast to the local function,
+  // the raw function and its derivative act on global coordinates.
+  using DerivativeDummy = DifferentiableFunction<typename DerivativeTraits<RawSignature>::Range(typename EntitySet::GlobalCoordinate)>;
   using GlobalRawDerivative = decltype(Imp::derivativeIfImplemented<DerivativeDummy, F>(std::declval<F>()));
   using LocalDerivative = LocalAnalyticGridViewFunction<DerivativeSignature, GridView, GlobalRawDerivative, DerivativeTraits>;
 
-- 
2.43.0


From 9daf191db371f1aaa3c43d1f356e0de484095778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:40 +0000
Subject: [PATCH 21/34] fix: makePolynomial() for initializer lists of other
 types than the scalar type

---
 dune/functions/analyticfunctions/polynomial.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/analyticfunctions/polynomial.hh b/dune/functions/analyticfunctions/polynomial.hh
index 8d03608..594ba14 100644
--- a/dune/functions/analyticfunctions/polynomial.hh
+++ b/dune/functions/analyticfunctions/polynomial.hh
@@ -280,7 +280,7 @@ auto makePolynomial(Coefficients coefficients)
 template<class K, class C>
 auto makePolynomial(std::initializer_list<C> coefficients)
 {
-  return Polynomial<K>(std::move(coefficients));
+  return Polynomial<K, std::vector<C>>(std::vector<C>(coefficients));
 }
 
 
-- 
2.43.0


From 058a42836e4d5bfe8c21af649d674335384a5027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:01 +0000
Subject: [PATCH 22/34] fix: copy empty polymorphic small objects and survive
 throwing copies

Copying from an empty PolymorphicSmallObject dereferenced a null pointer,
and an exception during copy assignment led to a double destruction of
the old object.
---
 dune/functions/common/polymorphicsmallobject.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index 512df50..b708fd6 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -179,6 +179,11 @@ private:
 
   void copyToWrappedObject(const PolymorphicSmallObject& other)
   {
+    // In case of assignment the old object is already destroyed. Make
+    // sure that we don't do this twice, if copying throws an exception.
+    p_ = nullptr;
+    if (not other)
+      return;
     if (other.bufferUsed())
       p_ = other.p_->clone(&buffer_);
     else
-- 
2.43.0


From 3233ab1cb86c36156e3230448e8008285b19b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:26 +0000
Subject: [PATCH 23/34] fix: store copies of the callables in
 makeDifferentiableFunctionFromCallables()

As documented, the callables are copied. For l-value arguments references
were stored, such that the function referred to possibly dead objects.
---
 .../functions/common/differentiablefunctionfromcallables.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/functions/common/differentiablefunctionfromcallables.hh b/dune/functions/common/differentiablefunctionfromcallables.hh
index b0d9447..6b3164a 100644
--- a/dune/functions/common/differentiablefunctionfromcallables.hh
+++ b/dune/functions/common/differentiablefunctionfromcallables.hh
@@ -7,6 +7,8 @@
 #ifndef DUNE_FUNCTIONS_COMMON_DIFFEREENTIONABEFUNCTIONFROMCALLABLES_HH
 #define DUNE_FUNCTIONS_COMMON_DIFFEREENTIONABEFUNCTIONFROMCALLABLES_HH
 
+#include <type_traits>
+#include <utility>
 
 #include <dune/common/typeutilities.hh>
 #include <dune/common/hybridutilities.hh>
@@ -164,10 +166,10 @@ private:
  * \returns Object modelling DifferentiableFunction interface
  */
 template<class Signature, template<class> class DerivativeTraits, class... F>
-DifferentiableFunctionFromCallables<Signature, DerivativeTraits, F...>
+DifferentiableFunctionFromCallables<Signature, DerivativeTraits, std::decay_t<F>...>
   makeDifferentiableFunctionFromCallables(const SignatureTag<Signature, DerivativeTraits>& signatureTag, F&&... f)
 {
-  return DifferentiableFunctionFromCallables<Signature, DerivativeTraits, F...>(f...);
+  return DifferentiableFunctionFromCallables<Signature, DerivativeTraits, std::decay_t<F>...>(std::forward<F>(f)...);
 }
 
 
-- 
2.43.0


From f11bbd5de45a12ae55f678f1f5d2888decc54dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:26 +0000
Subject: [PATCH 24/34] fix: construct PolymorphicSmallObject from l-values

---
 dune/functions/common/polymorphicsmallobject.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index b708fd6..75fb1a5 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -74,13 +74,14 @@ public:
           std::remove_reference_t<Derived>>>, int> = 0>
   PolymorphicSmallObject(Derived&& derived)
   {
-    constexpr bool useBuffer = (sizeof(Derived) <= bufferSize)
-        && (bufferAlignment % alignof(Derived) == 0);
+    using Wrapped = std::remove_cv_t<std::remove_reference_t<Derived>>;
+    constexpr bool useBuffer = (sizeof(Wrapped) <= bufferSize)
+        && (bufferAlignment % alignof(Wrapped) == 0);
 
     if constexpr (useBuffer) {
-      p_ = new (&buffer_) Derived(std::forward<Derived>(derived));
+      p_ = new (&buffer_) Wrapped(std::forward<Derived>(derived));
     } else {
-      p_ = new Derived(std::forward<Derived>(derived));
+      p_ = new Wrapped(std::forward<Derived>(derived));
     }
   }
 
-- 
2.43.0


From 45a39c036b23f74e97aba2e8eac6419fab12f83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:35 +0000
Subject: [PATCH 25/34] fix: detect use of the buffer if the base is not at the
 beginning of the stored object

---
 dune/functions/common/polymorphicsmallobject.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index 75fb1a5..f52cf27 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -8,6 +8,7 @@
 #define DUNE_FUNCTIONS_COMMON_POLYMORPHICSMALLOBJECT_HH
 
 #include <cstddef>
+#include <functional>
 #include <utility>
 #include <type_traits>
 #include <algorithm>
@@ -131,7 +132,10 @@ public:
   //! Check if object is stored in internal stack buffer
   bool bufferUsed() const
   {
-    return ((void*) (p_) == (void*)(&buffer_));
+    // The Base part of the stored object is not necessarily
+    // located at the beginning of the object.
+    const std::byte* p = reinterpret_cast<const std::byte*>(p_);
+    return (not std::less<>{}(p, &buffer_[0])) and std::less<>{}(p, &buffer_[0] + actualBufferSize);
   }
 
   //! Obtain reference to stored object
-- 
2.43.0


From cb870dc5063a63a80e486372510baa08a8dbba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:12 +0000
Subject: [PATCH 26/34] fix: constrain constructor of
 DifferentiableFunctionFromCallables

The constructor from a single callable accepted any argument, such that
std::optional of an assignable function was ill-formed.
---
 dune/functions/common/differentiablefunctionfromcallables.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/functions/common/differentiablefunctionfromcallables.hh b/dune/functions/common/differentiablefunctionfromcallables.hh
index 6b3164a..10b9c00 100644
--- a/dune/functions/common/differentiablefunctionfromcallables.hh
+++ b/dune/functions/common/differentiablefunctionfromcallables.hh
@@ -63,7 +63,8 @@ public:
   using Derivative = DifferentiableFunction<DerivativeSignature, DerivativeTraits>;
 
   //! Constructor copying the given function
-  template<class FF, disableCopyMove<DifferentiableFunctionFromCallables, FF> = 0>
+  template<class FF, disableCopyMove<DifferentiableFunctionFromCallables, FF> = 0,
+    std::enable_if_t<std::is_constructible_v<F, FF>, int> = 0>
   DifferentiableFunctionFromCallables(FF&& f) :
     f_(std::forward<FF>(f))
   {}
-- 
2.43.0


From 62a4f0b53dae6eb5914d5d396023ae52d39df977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:11 +0000
Subject: [PATCH 27/34] fix: ReservedDeque::push_back() after the front was
 moved

push_back() ignored the position of the first element, and construction
from an initializer list did not set it.
---
 dune/functions/common/reserveddeque.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/functions/common/reserveddeque.hh b/dune/functions/common/reserveddeque.hh
index e7f27fa..fe194a2 100644
--- a/dune/functions/common/reserveddeque.hh
+++ b/dune/functions/common/reserveddeque.hh
@@ -81,6 +81,7 @@ namespace Functions {
     ReservedDeque(std::initializer_list<T> const &l)
     {
       assert(l.size() <= n);// Actually, this is not needed any more!
+      first_ = 0;
       size_ = l.size();
       std::copy_n(l.begin(), size_, data_);
     }
@@ -107,7 +108,7 @@ namespace Functions {
     void push_back(const T& t)
     {
       CHECKSIZE(size_<n);
-      data_[size_++ % n] = t;
+      data_[(first_ + size_++) % n] = t;
     }
 
     //! Prepends an element to the begin of a deque if size<capacity, O(1) time.
-- 
2.43.0


From 49e76b8b0eb14fa3f245c9d6bced263ce720047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:11 +0000
Subject: [PATCH 28/34] fix: OverflowArray::push_front() lost all entries

The entries were shifted in the wrong order and the size did not grow.
---
 dune/functions/common/overflowarray.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dune/functions/common/overflowarray.hh b/dune/functions/common/overflowarray.hh
index fc684c0..28cfb2f 100644
--- a/dune/functions/common/overflowarray.hh
+++ b/dune/functions/common/overflowarray.hh
@@ -125,9 +125,11 @@ public:
    */
   void push_front(const value_type& t) {
     assert(size() < capacity());
-    for (size_type i=0; i<size(); i++)
-      (*this)[i+1] = (*this)[i];
-    (*this)[0] = t;
+    const value_type first = t; // t may be an entry of this array
+    ++size_;
+    for (size_type i=size()-1; i>0; i--)
+      (*this)[i] = (*this)[i-1];
+    (*this)[0] = first;
   }
 
   //! Returns a iterator pointing to the beginning of the OverflowArray.
-- 
2.43.0


From 253181493b25b3351638d1518f856e04a51c4d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:14 +0000
Subject: [PATCH 29/34] fix: assignment between different types of
 DenseVectorView

The assignment operator accessed a private member of the other view.
---
 dune/functions/common/densevectorview.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/functions/common/densevectorview.hh b/dune/functions/common/densevectorview.hh
index 463ae83..164e7c2 100644
--- a/dune/functions/common/densevectorview.hh
+++ b/dune/functions/common/densevectorview.hh
@@ -21,6 +21,9 @@ namespace Dune::Functions::Impl {
   class DenseVectorView
     : public DenseVector<DenseVectorView<R>>
   {
+    template<class RR>
+    friend class DenseVectorView;
+
     R& data_;
 
     using mutable_reference = typename std::decay_t<R>::reference;
-- 
2.43.0


From 66c83743478b26efe5da792a8abdd6cee06b9243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 30/34] fix: unbind() of the Python local view leaked a
 reference to the element

---
 dune/python/functions/globalbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index 21ce47c..6a898bd 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -115,7 +115,7 @@ namespace Dune
       void unbind ( )
       {
         base().unbind();
-        obj_.release();
+        obj_ = pybind11::object();
       }
       pybind11::object obj_;
     };
-- 
2.43.0


From 5a6e96ca25dab068096103944cdfa8d75fb6966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 31/34] fix: gridView property of Python bases did not keep the
 grid view alive

---
 dune/python/functions/globalbasis.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index 6a898bd..88f1270 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -162,12 +162,12 @@ namespace Dune
       if constexpr (hasUpdate)
       {
         cls.def_property( "gridView",
-                          [](const GlobalBasis& basis) { return basis.gridView(); },
-                          [](GlobalBasis& basis, const GridView& gridView) { basis.update(gridView); });
+                          pybind11::cpp_function( [](const GlobalBasis& basis) { return basis.gridView(); }, pybind11::keep_alive< 0, 1 >() ),
+                          pybind11::cpp_function( [](GlobalBasis& basis, const GridView& gridView) { basis.update(gridView); }, pybind11::keep_alive< 1, 2 >() ) );
       }
       else
       {
-        cls.def_property_readonly( "gridView", [](const GlobalBasis& basis) { return basis.gridView(); });
+        cls.def_property_readonly( "gridView", pybind11::cpp_function( [](const GlobalBasis& basis) { return basis.gridView(); }, pybind11::keep_alive< 0, 1 >() ) );
       }
 
       using LocalView = LocalViewWrapper< GlobalBasis >;
-- 
2.43.0


From 2773b217659de5389d262e3ac79477f213d3458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 32/34] fix: Python basis trees outlived the local view they
 belong to

---
 dune/python/functions/globalbasis.hh | 2 +-
 dune/python/functions/tree.hh        | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index 88f1270..94f82e7 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -186,7 +186,7 @@ namespace Dune
       lv.def( "maxSize", [] ( LocalView &self ) -> int { return self.maxSize(); } );
 
       Functions::registerTree<Tree>(lv);
-      lv.def("tree", [](const LocalView& view) { return Dune::stackobject_to_shared_ptr(view.tree()); });
+      lv.def("tree", [](const LocalView& view) { return Dune::stackobject_to_shared_ptr(view.tree()); }, pybind11::keep_alive< 0, 1 >() );
 
       cls.def( "localView", [] ( const GlobalBasis &self ) -> LocalView { return self.localView(); }, pybind11::keep_alive< 0, 1 >() );
       cls.def_property_readonly( "dimension", [] ( const GlobalBasis &self ) -> int { return self.dimension(); } );
diff --git a/dune/python/functions/tree.hh b/dune/python/functions/tree.hh
index ea73f5f..6065860 100644
--- a/dune/python/functions/tree.hh
+++ b/dune/python/functions/tree.hh
@@ -61,7 +61,7 @@ template<typename Tree, std::size_t i>
 auto childAccessor()
 {
   return [](Tree& tree) {
-    return pybind11::cast(tree.template child(index_constant<i>{}));
+    return pybind11::cast(tree.template child(index_constant<i>{}), pybind11::return_value_policy::reference);
   };
 }
 
@@ -80,6 +80,7 @@ void registerTreeChildAccessor(pybind11::class_<Tree, std::shared_ptr<Tree>>& cl
   cls.def(
     "child",
     [accessors](Tree& tree, std::size_t i) { return accessors.at(i)(tree); },
+    pybind11::keep_alive<0,1>(),
     pybind11::arg("i"));
 }
 
-- 
2.43.0


From 3497be5de24d8ef0be56a94cdaf35d2a1615c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 33/34] fix: interpolate() of Python bases silently wrote into
 a converted copy

---
 dune/python/functions/globalbasis.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index 94f82e7..d385b3e 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -197,15 +197,15 @@ namespace Dune
       // composite bases.  Support for them is planned for the future.
       if constexpr (dimRange==1)
       {
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, double> );
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool> );
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, int> );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, double>, pybind11::arg("x").noconvert(), pybind11::arg("f") );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool>, pybind11::arg("x").noconvert(), pybind11::arg("f") );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, int>, pybind11::arg("x").noconvert(), pybind11::arg("f") );
       }
       else if constexpr (LeafTreeNode<RawTree> or UniformInnerTreeNode<RawTree>)
       {
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, double, FieldVector<double,dimRange> > );
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool, std::array<bool,dimRange> > );
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, int, FieldVector<int,dimRange> > );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, double, FieldVector<double,dimRange> >, pybind11::arg("x").noconvert(), pybind11::arg("f") );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool, std::array<bool,dimRange> >, pybind11::arg("x").noconvert(), pybind11::arg("f") );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, int, FieldVector<int,dimRange> >, pybind11::arg("x").noconvert(), pybind11::arg("f") );
       }
 
       // Register various grid function types
-- 
2.43.0


From d6f43ef980752d069ed79834b2c421b58dc88b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 34/34] fix: Python bases with nested power spaces did not
 compile

---
 dune/python/functions/globalbasis.hh | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index d385b3e..fca86ee 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -76,6 +76,23 @@ namespace Dune
           static_assert(Dune::AlwaysFalse<Node>::value, "Dynamic power bases are not supported through the python interface.");
       }
 
+      // Check if a scalar or a FieldVector is a reasonable range type for functions associated to a node.
+      // For a power node this requires that its children are leaf nodes with scalar range.
+      template<class Node>
+      constexpr bool hasFlatRange()
+      {
+        using namespace Dune::TypeTree::Concept;
+        if constexpr (LeafTreeNode<Node>)
+          return true;
+        else if constexpr (UniformInnerTreeNode<Node>)
+        {
+          using Child = Dune::TypeTree::Child<Node, 0>;
+          return LeafTreeNode<Child> and (nodeRangeDim<Child>() == 1);
+        }
+        else
+          return false;
+      }
+
     } // end namespace Impl
 
 
@@ -201,7 +218,7 @@ namespace Dune
         cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool>, pybind11::arg("x").noconvert(), pybind11::arg("f") );
         cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, int>, pybind11::arg("x").noconvert(), pybind11::arg("f") );
       }
-      else if constexpr (LeafTreeNode<RawTree> or UniformInnerTreeNode<RawTree>)
+      else if constexpr (Impl::hasFlatRange<RawTree>())
       {
         cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, double, FieldVector<double,dimRange> >, pybind11::arg("x").noconvert(), pybind11::arg("f") );
         cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool, std::array<bool,dimRange> >, pybind11::arg("x").noconvert(), pybind11::arg("f") );
@@ -212,7 +229,7 @@ namespace Dune
       // TODO: As we do not currently have support for nested range types,
       // we register grid function types only for 'simple' bases.
       // A more general implementation is planned for the future.
-      if constexpr (LeafTreeNode<RawTree> or UniformInnerTreeNode<RawTree>)
+      if constexpr (Impl::hasFlatRange<RawTree>())
       {
         using Range = typename RangeType< double, dimRange >::type;
         RangeType< double, dimRange >::registerRange(module);
-- 
2.43.0

