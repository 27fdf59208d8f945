From 8729dd43ee73b92f40e0c7cf35ef3f6930dd1644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:22 +0000
Subject: [PATCH 01/38] fix: grid assignment deregisters the grid from the data
 it no longer shares

The updater stayed registered with the old data, so resizing a former copy
overwrote the range of the assigned grid (and of a destroyed one).
---
 src/grid/gridstorage/single-array-allocation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index fd0084e..c2906bf 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -296,6 +296,7 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayInstantAllocation<T, rank> &SingleArrayInstantAllocation<T, rank>::operator=(const SingleArrayInstantAllocation<T, rank> &other) 
     {
+        this->data->removeUpdater(this);
         this->data = other.data;
         this->size = other.size;
         this->range = other.range;
@@ -401,6 +402,7 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayLazyAllocation<T, rank> &SingleArrayLazyAllocation<T, rank>::operator=(const SingleArrayLazyAllocation<T, rank> &other) 
     {
+        this->data->removeUpdater(this);
         this->data = other.data;
         this->size = other.size;
         this->range = other.range;
-- 
2.43.0


From c99567ff81f3c3d0ac442d63828662af0ce1b218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:22 +0000
Subject: [PATCH 02/38] fix: lazy allocation uses the grid's index and range
 types

LazyArrayGridStorage could not be instantiated: its size_t index type did not
match the int index type of the storage classes.
---
 src/grid/gridstorage/single-array-allocation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index c2906bf..54eb79a 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -186,10 +186,10 @@ namespace schnek
     {
     public:
         /// The grid index type
-        typedef Array<size_t, rank> IndexType;
+        typedef Array<int, rank> IndexType;
 
         /// The grid range type
-        typedef Range<size_t, rank> RangeType;
+        typedef Range<int, rank> RangeType;
     protected:
         struct SizeInfo {
             IndexType lo;
@@ -471,7 +471,7 @@ namespace schnek
     template <typename T, size_t rank>
     void SingleArrayLazyAllocation<T, rank>::deleteData()
     {
-        SCHNEK_TRACE_LOG(5, "Deleting pointer (" << (void *)data << "): size=" << size << " avgSize=" << avgSize << " avgVar=" << avgVar << " bufSize=" << bufSize);
+        SCHNEK_TRACE_LOG(5, "Deleting pointer (" << (void *)data->ptr << "): size=" << size << " avgSize=" << avgSize << " avgVar=" << avgVar << " bufSize=" << bufSize);
         if (data->ptr)
         {
             delete[] data->ptr;
-- 
2.43.0


From 62fb31d8221359aa42f8e26011523b5f9e1074a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:22 +0000
Subject: [PATCH 03/38] fix: lazy allocation assignment copies the buffer size
 and statistics

A stale bufSize let the next resize keep a buffer that is too small.
---
 src/grid/gridstorage/single-array-allocation.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index 54eb79a..7271193 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -407,6 +407,10 @@ namespace schnek
         this->size = other.size;
         this->range = other.range;
         this->dims = other.dims;
+        this->bufSize = other.bufSize;
+        this->avgSize = other.avgSize;
+        this->avgVar = other.avgVar;
+        this->r = other.r;
         this->data->addUpdater(this, [this](const SizeInfo& sizeInfo) { this->updateSizeInfo(sizeInfo); });
         return *this;
     };
-- 
2.43.0


From 20477d38493772e285dae7e9cfe9b5514808b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 04/38] fix: KokkosGridStorage::getSize returns the size of the
 view

It referred to a member that does not exist and could not be instantiated.
---
 src/grid/gridstorage/kokkos-storage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grid/gridstorage/kokkos-storage.hpp b/src/grid/gridstorage/kokkos-storage.hpp
index 0a1b22a..909cb0b 100644
--- a/src/grid/gridstorage/kokkos-storage.hpp
+++ b/src/grid/gridstorage/kokkos-storage.hpp
@@ -153,7 +153,7 @@ namespace schnek {
         SCHNEK_INLINE int getDims(int k) const { return this->dims[k]; }
 
         /// Get the length of the allocated array
-        SCHNEK_INLINE int getSize() const { return this->size; }
+        SCHNEK_INLINE int getSize() const { return this->view.size(); }
 
         /**
          * @brief resizes to grid with lower indices low[0],...,low[rank-1]
-- 
2.43.0


From b53434f55230f05ec4ddfa317e56de6f2aa2bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 05/38] fix: resizing a Kokkos grid gives every copy the new
 view

Copies adopted the new range but kept the old view, so that indices inside
their range were outside of their memory.
---
 src/grid/gridstorage/kokkos-storage.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/grid/gridstorage/kokkos-storage.hpp b/src/grid/gridstorage/kokkos-storage.hpp
index 909cb0b..f03000c 100644
--- a/src/grid/gridstorage/kokkos-storage.hpp
+++ b/src/grid/gridstorage/kokkos-storage.hpp
@@ -75,7 +75,8 @@ namespace schnek {
         /// The grid range type
         typedef Range<int, rank> RangeType;
     private:
-        typedef std::function<void(const RangeType&)> UpdaterType;
+        typedef Kokkos::View<typename internal::KokkosViewType<T, rank>::type, ViewProperties...> ViewType;
+        typedef std::function<void(const RangeType&, const ViewType&)> UpdaterType;
         typedef std::map<void *, UpdaterType> UpdaterMapType;
 
         /// The lowest and highest coordinates in the grid (inclusive)
@@ -201,14 +202,15 @@ namespace schnek {
             return getFromViewImpl(pos, std::make_index_sequence<rank>{});
         }
 
-        void update(const RangeType& range) {
+        void update(const RangeType& range, const ViewType& view) {
             for (auto& updater: *updaters) {
-                updater.second(range);
+                updater.second(range, view);
             }
         }
 
-        void updateSizeInfo(const RangeType &range) {
+        void updateSizeInfo(const RangeType &range, const ViewType &view) {
             this->range = range;
+            this->view = view;
             for (size_t i = 0; i < rank; ++i)
             {
                 dims[i] = range.getHi(i) - range.getLo(i) + 1;
@@ -229,7 +231,7 @@ namespace schnek {
           dims{0},
           updaters{new UpdaterMapType}
     {
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -238,7 +240,7 @@ namespace schnek {
           dims{other.dims}, view{other.view},
           updaters{other.updaters}
     {
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -248,7 +250,7 @@ namespace schnek {
     {
         dims = hi - lo + 1;
         view = createKokkosView(dims);
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -258,7 +260,7 @@ namespace schnek {
     {
         dims = range.getHi() - range.getLo() + 1;
         view = createKokkosView(dims);
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -293,8 +295,7 @@ namespace schnek {
     void KokkosGridStorage<T, rank, ViewProperties...>::resize(const IndexType &lo, const IndexType &hi)
     {
         IndexType dims = hi - lo + 1;
-        this->view = createKokkosView(dims);
-        update(RangeType{lo, hi});
+        update(RangeType{lo, hi}, createKokkosView(dims));
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
-- 
2.43.0


From c4399ec8be90d03a9ad4f3ed5f264fa2dee8d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 06/38] fix: Kokkos grid assignment registers the grid with the
 data it now shares

The implicit assignment left the grid registered with its old partners only,
so it missed resizes and was written to after a former partner resized.
---
 src/grid/gridstorage/kokkos-storage.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/grid/gridstorage/kokkos-storage.hpp b/src/grid/gridstorage/kokkos-storage.hpp
index f03000c..9290643 100644
--- a/src/grid/gridstorage/kokkos-storage.hpp
+++ b/src/grid/gridstorage/kokkos-storage.hpp
@@ -98,6 +98,11 @@ namespace schnek {
          */
         KokkosGridStorage(const KokkosGridStorage &);
 
+        /**
+         * @brief Assignment operator
+         */
+        KokkosGridStorage &operator=(const KokkosGridStorage &);
+
         /**
          * @brief Construct with a given size
          * 
@@ -243,6 +248,18 @@ namespace schnek {
         (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
+    template <typename T, size_t rank, class ...ViewProperties>
+    KokkosGridStorage<T, rank, ViewProperties...> &KokkosGridStorage<T, rank, ViewProperties...>::operator=(const KokkosGridStorage &other)
+    {
+        updaters->erase(this);
+        range = other.range;
+        dims = other.dims;
+        view = other.view;
+        updaters = other.updaters;
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
+        return *this;
+    }
+
     template <typename T, size_t rank, class ...ViewProperties>
     KokkosGridStorage<T, rank, ViewProperties...>::KokkosGridStorage(const IndexType &lo, const IndexType &hi) 
         : range{lo, hi},
-- 
2.43.0


From fad7de40fe544b36f6cbbdbc247e7ad9eec7ebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:56 +0000
Subject: [PATCH 07/38] fix: grids can be indexed by array expressions

The length parameter of the operator[] overloads was an int while the length
of an ArrayExpression is a size_t, so the overloads were never viable.
---
 src/grid/grid.hpp | 4 ++--
 src/grid/grid.t   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grid/grid.hpp b/src/grid/grid.hpp
index 27f153e..bbb9d67 100644
--- a/src/grid/grid.hpp
+++ b/src/grid/grid.hpp
@@ -96,10 +96,10 @@ namespace schnek {
         SCHNEK_INLINE T  operator[](const Array<int,rank,ArrayCheckingPolicy>& pos) const; // read
 
         /** index operator, writing */
-        template<class Operator, int Length>
+        template<class Operator, size_t Length>
         SCHNEK_INLINE T& operator[](const ArrayExpression<Operator, Length>& pos); // write
         /** index operator, reading */
-        template<class Operator, int Length>
+        template<class Operator, size_t Length>
         SCHNEK_INLINE T  operator[](const ArrayExpression<Operator, Length>& pos) const; // read
 
         /** index operator, for 1D grids, writing */
diff --git a/src/grid/grid.t b/src/grid/grid.t
index 3618f59..91edafd 100644
--- a/src/grid/grid.t
+++ b/src/grid/grid.t
@@ -118,7 +118,7 @@ template<
   class CheckingPolicy,
   class StoragePolicy
 >
-template<class Operator, int Length>
+template<class Operator, size_t Length>
 SCHNEK_INLINE T& GridBase<T, rank, CheckingPolicy, StoragePolicy>
   ::operator[](const ArrayExpression<Operator, Length>& pos)
 {
@@ -131,7 +131,7 @@ template<
   class CheckingPolicy,
   class StoragePolicy
 >
-template<class Operator, int Length>
+template<class Operator, size_t Length>
 SCHNEK_INLINE T GridBase<T, rank, CheckingPolicy, StoragePolicy>
   ::operator[](const ArrayExpression<Operator, Length>& pos) const
 {
-- 
2.43.0


From 9bd7dfd5853d11905ee7a470c6111d0d514e6cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:27 +0000
Subject: [PATCH 08/38] fix: array expressions of mixed element types are
 evaluated in the common type

---
 src/grid/arrayexpression.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/grid/arrayexpression.hpp b/src/grid/arrayexpression.hpp
index 819b1aa..d1faf02 100644
--- a/src/grid/arrayexpression.hpp
+++ b/src/grid/arrayexpression.hpp
@@ -30,6 +30,7 @@
 #include "array.hpp"
 
 #include <iostream>
+#include <type_traits>
 
 namespace schnek {
 
@@ -199,6 +200,11 @@ struct ArrayOpUnaryMinus {
 };
 
 
+/**The element type of a binary expression of elements of two different types
+ */
+template<typename T1, typename T2>
+using ArrayCommonType = typename std::common_type<T1, T2>::type;
+
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wunused-local-typedefs"
 
@@ -216,7 +222,7 @@ struct ArrayOpUnaryMinus {
     ArrayBinaryOp<                                                              \
       ArrayExpression<exp1, length>,                                            \
       ArrayExpression<exp2, length>,                                            \
-      op<typename exp1::value_type>                                             \
+      op<ArrayCommonType<typename exp1::value_type, typename exp2::value_type>> \
     >,                                                                          \
     length                                                                      \
   >                                                                             \
@@ -228,7 +234,7 @@ struct ArrayOpUnaryMinus {
     <                                                                           \
       ArrayExpression<exp1, length>,                                            \
       ArrayExpression<exp2, length>,                                            \
-      op<typename exp1::value_type>                                             \
+      op<ArrayCommonType<typename exp1::value_type, typename exp2::value_type>> \
     >  OperatorType;                                                            \
                                                                                 \
     return ArrayExpression<OperatorType, length>(OperatorType(A,B));            \
@@ -276,7 +282,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayExpression<exp, length>,                                               \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
-    op<T>                                                                       \
+    op<ArrayCommonType<typename exp::value_type, T>>                            \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -288,7 +294,7 @@ SCHNEK_INLINE operator symbol (
   typedef ArrayBinaryOp<                                                        \
     ArrayExpression<exp, length>,                                               \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
-    op<T>                                                                       \
+    op<ArrayCommonType<typename exp::value_type, T>>                            \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
@@ -307,7 +313,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<ArrayCommonType<T, typename exp::value_type>>                            \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -319,7 +325,7 @@ SCHNEK_INLINE operator symbol (
   typedef ArrayBinaryOp<                                                        \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<ArrayCommonType<T, typename exp::value_type>>                            \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
@@ -332,7 +338,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayConstantExp<T>,                                                        \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<ArrayCommonType<T, typename exp::value_type>>                            \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -341,7 +347,7 @@ SCHNEK_INLINE operator symbol (const T &A, const ArrayExpression<exp, length> &B
   typedef ArrayBinaryOp<                                                        \
     ArrayConstantExp<T>,                                                        \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<ArrayCommonType<T, typename exp::value_type>>                            \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
@@ -354,7 +360,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayExpression<exp, length>,                                               \
     ArrayConstantExp<T>,                                                        \
-    op<T>                                                                       \
+    op<ArrayCommonType<typename exp::value_type, T>>                            \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -363,7 +369,7 @@ SCHNEK_INLINE operator symbol (const ArrayExpression<exp, length> &A, const T &B
   typedef ArrayBinaryOp<                                                        \
     ArrayExpression<exp, length>,                                               \
     ArrayConstantExp<T>,                                                        \
-    op<T>                                                                       \
+    op<ArrayCommonType<typename exp::value_type, T>>                            \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
-- 
2.43.0


From 44fbf7ca99634fa1634ea71c5a097ebef0275190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:29 +0000
Subject: [PATCH 09/38] fix: unary operators apply to array expressions

---
 src/grid/arrayexpression.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/grid/arrayexpression.hpp b/src/grid/arrayexpression.hpp
index d1faf02..0272112 100644
--- a/src/grid/arrayexpression.hpp
+++ b/src/grid/arrayexpression.hpp
@@ -449,14 +449,12 @@ SCHNEK_INLINE operator symbol (
 #define UNARY_EXPR(op, symbol)                                                  \
 template<                                                                       \
   class exp,                                                                    \
-  class T,                                                                      \
-  size_t length,                                                                   \
-  template<size_t> class CheckingPolicy                                            \
+  size_t length                                                                 \
 >                                                                               \
 ArrayExpression<                                                                \
   ArrayUnaryOp<                                                                 \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename exp::value_type>                                                \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -466,7 +464,7 @@ SCHNEK_INLINE operator symbol (
 {                                                                               \
   typedef ArrayUnaryOp<                                                         \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename exp::value_type>                                                \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A));               \
-- 
2.43.0


From 472038bdc895fa87eca58b14441df9c4becc835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:32 +0000
Subject: [PATCH 10/38] fix: Field::getInnerRange compiles

---
 src/grid/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grid/field.hpp b/src/grid/field.hpp
index 58de237..2bffa31 100644
--- a/src/grid/field.hpp
+++ b/src/grid/field.hpp
@@ -104,7 +104,7 @@ class Field : public Grid<T, rank, CheckingPolicy, StoragePolicy>
     IndexType getInnerHi() { return this->getHi() - ghostCells; }
 
     /** Get the range the inner grid range */
-    RangeType getInnerRange() { return RangeType{this->getLo() + ghostCells, this->getHi() - ghostCells}; }
+    RangeType getInnerRange() { return RangeType{getInnerLo(), getInnerHi()}; }
 
     /** Calculates index and offset from a position on the field
      *
-- 
2.43.0


From 2503487f9024229f62aed84c6fa1ca31d604dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:37 +0000
Subject: [PATCH 11/38] fix: sub-grids and ghost sub-grids can be instantiated,
 resizing updates their dimensions

---
 src/grid/boundary.hpp | 4 ++--
 src/grid/boundary.t   | 8 ++++----
 src/grid/range.hpp    | 4 ++--
 src/grid/subgrid.hpp  | 8 ++++++--
 src/grid/subgrid.t    | 2 ++
 5 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/grid/boundary.hpp b/src/grid/boundary.hpp
index 0870125..f58a68b 100644
--- a/src/grid/boundary.hpp
+++ b/src/grid/boundary.hpp
@@ -134,7 +134,7 @@ class Boundary
      * @return A sub-grid containing ghost cells
      */
     template<class GridType>
-    SubGrid<GridType, CheckingPolicy> getGhostBoundary(size_t dim, bound b, GridType &grid);
+    SubGrid<GridType> getGhostBoundary(size_t dim, bound b, GridType &grid);
 
     /** Returns sub-grid containing only the boundary domain.
      * The bounadry domain has a thickness determined by the number of ghost cells.
@@ -150,7 +150,7 @@ class Boundary
       template<size_t> class CheckingPolicy2,
       template<typename, size_t> class StoragePolicy
     >
-    SubGrid<Field<T,rank,CheckingPolicy2,StoragePolicy>, CheckingPolicy>
+    SubGrid<Field<T,rank,CheckingPolicy2,StoragePolicy> >
       getGhostBoundary(size_t dim, bound b, Field<T,rank,CheckingPolicy2,StoragePolicy> &field);
 };
 
diff --git a/src/grid/boundary.t b/src/grid/boundary.t
index 96bd12c..3d7ba43 100644
--- a/src/grid/boundary.t
+++ b/src/grid/boundary.t
@@ -141,10 +141,10 @@ template<
   template<size_t> class CheckingPolicy
 >
 template<class GridType>
-SubGrid<GridType, CheckingPolicy> Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, GridType &grid)
+SubGrid<GridType> Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, GridType &grid)
 {
         DomainType bounds = getGhostDomain(dim, b);
-        return SubGrid<GridType, CheckingPolicy>(bounds.getLo(), bounds.getHi(), grid);
+        return SubGrid<GridType>(bounds.getLo(), bounds.getHi(), grid);
 }
 
 template<
@@ -156,11 +156,11 @@ template<
   template<size_t> class CheckingPolicy2,
   template<typename, size_t> class StoragePolicy
 >
-SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy>, CheckingPolicy>
+SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy> >
   Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, Field<T,rank,CheckingPolicy2,StoragePolicy> &field)
 {
         DomainType bounds = getBoundaryDomain(dim, b, field.getStagger()[dim]);
-        return SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy>, CheckingPolicy>(bounds.getLo(), bounds.getHi(), field);
+        return SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy> >(bounds.getLo(), bounds.getHi(), field);
 }
 
 } // namespace schnek
diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index fcf1129..b6fda0b 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -349,12 +349,12 @@ class Range {
     };
 
     /// Creates an iterator pointing to the beginning of the rectangle
-    iterator begin() {
+    iterator begin() const {
       return iterator(*this, this->getLo());
     }
 
     /// Creates an iterator pointing to a position after the end of the rectangle
-    iterator end() {
+    iterator end() const {
       return iterator(*this, this->getLo(), true);
     }
 };
diff --git a/src/grid/subgrid.hpp b/src/grid/subgrid.hpp
index aad8191..8ccde0c 100644
--- a/src/grid/subgrid.hpp
+++ b/src/grid/subgrid.hpp
@@ -42,6 +42,7 @@ class SubGridStorage {
     typedef Array<int,rank> IndexType;
     typedef BaseGrid BaseGridType;
     typedef Range<int, rank> DomainType;
+    typedef DomainType RangeType;
   protected:
     BaseGridType *baseGrid;
     DomainType domain;
@@ -133,8 +134,8 @@ class SubGridStorage {
     storage_iterator begin() { return storage_iterator(domain.begin(), baseGrid); }
     storage_iterator end() { return storage_iterator(domain.end(), baseGrid); }
 
-    const_storage_iterator cbegin() const { return const_storage_iterator(domain.cbegin(), baseGrid); }
-    const_storage_iterator cend() const { return const_storage_iterator(domain.cend(), baseGrid); }
+    const_storage_iterator cbegin() const { return const_storage_iterator(domain.begin(), baseGrid); }
+    const_storage_iterator cend() const { return const_storage_iterator(domain.end(), baseGrid); }
 
     void setBaseGrid(BaseGridType &baseGrid_) { baseGrid = &baseGrid_; }
 
@@ -219,6 +220,9 @@ class SubGrid
      */
     SubGrid(const RangeType &range, BaseGridType &baseGrid_);
 
+    /** assign a value */
+    using ParentType::operator=;
+
 };
 
 
diff --git a/src/grid/subgrid.t b/src/grid/subgrid.t
index c7b2563..3ba8210 100644
--- a/src/grid/subgrid.t
+++ b/src/grid/subgrid.t
@@ -56,6 +56,8 @@ template<
 void SubGridStorage<T, rank, BaseGrid>::resize(const IndexType &low_, const IndexType &high_)
 {
     domain = DomainType(low_, high_);
+    for (size_t d = 0; d < rank; d++)
+      dims[d] = high_[d] - low_[d] + 1;
 }
 
 template<
-- 
2.43.0


From 90461bfc4c71dc094df2730a2048d4353e16a989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:15 +0000
Subject: [PATCH 12/38] fix: the MPI subdivision respects the lower corner of
 the global domain

---
 src/grid/mpisubdivision.t | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grid/mpisubdivision.t b/src/grid/mpisubdivision.t
index 3b87a65..4e640fb 100644
--- a/src/grid/mpisubdivision.t
+++ b/src/grid/mpisubdivision.t
@@ -104,15 +104,15 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
     errorCode = MPI_Cart_shift(comm,i,1,&prevcoord[i],&nextcoord[i]);
     SCHNEK_ASSERT(errorCode == MPI_SUCCESS, "Could not shift Cartesian coordinates ("+boost::lexical_cast<std::string>(errorCode)+")");
 
-    width[i] = (High[i]-1.)/double(dims[i]);
+    width[i] = (High[i]-lo[i]-1.)/double(dims[i]);
 
     if (mycoord[i]>0)
-      Low[i] = int(width[i]*mycoord[i])-delta+1;
+      Low[i] = lo[i]+int(width[i]*mycoord[i])-delta+1;
     else
-      Low[i] = -delta;
+      Low[i] = lo[i]-delta;
 
     if (mycoord[i]<(dims[i]-1))
-      High[i] = int(width[i]*(mycoord[i]+1))+delta;
+      High[i] = lo[i]+int(width[i]*(mycoord[i]+1))+delta;
     else
       High[i] = High[i]+delta;
 
-- 
2.43.0


From b5a4098ad0fa2346672b7cd8e779a5de0996b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:15 +0000
Subject: [PATCH 13/38] fix: getInnerExtent measures from the lower corner of
 the global domain

---
 src/grid/domainsubdivision.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index cbc227d..2cf5ce9 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -141,8 +141,8 @@ class DomainSubdivision {
       {
         const T &lo = globalExtent.getLo()[i];
         T dx = (globalExtent.getHi()[i]-lo) / (T)(globalGridSize.getHi()[i] - globalGridSize.getLo()[i] + 1);
-        localDomainMin[i] = lo + this->getInnerLo()[i]*dx;
-        localDomainMax[i] = lo + (this->getInnerHi()[i] + 1)*dx;
+        localDomainMin[i] = lo + (this->getInnerLo()[i] - globalGridSize.getLo()[i])*dx;
+        localDomainMax[i] = lo + (this->getInnerHi()[i] - globalGridSize.getLo()[i] + 1)*dx;
       }
       return Range<T, Rank, CheckingPolicy>(localDomainMin,localDomainMax);
     }
-- 
2.43.0


From 32f10fb252024a2fdbd2e3119afded51df5cc674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:57 +0000
Subject: [PATCH 14/38] fix: the serial subdivision's global domain excludes
 the ghost cells

---
 src/grid/domainsubdivision.hpp | 5 ++++-
 src/grid/domainsubdivision.t   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index 2cf5ce9..2a77231 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -250,6 +250,9 @@ class SerialSubdivision : public DomainSubdivision<GridType>
 
     /// The positions of the upper corner of the local piece of the grid
     LimitType High;
+
+    /// The global domain, excluding ghost cells
+    DomainType globalDomain;
   public:
     using DomainSubdivision<GridType>::init;
     using DomainSubdivision<GridType>::exchange;
@@ -267,7 +270,7 @@ class SerialSubdivision : public DomainSubdivision<GridType>
     void init(const LimitType &low, const LimitType &high, int delta);
 
     /// Return the global domain size excluding ghost cells
-    const DomainType &getGlobalDomain() const { return this->bounds->getDomain(); }
+    const DomainType &getGlobalDomain() const { return globalDomain; }
 
     /** @brief Exchanges the boundaries in direction specified by dim.
      *
diff --git a/src/grid/domainsubdivision.t b/src/grid/domainsubdivision.t
index cd6206e..c2aa70e 100644
--- a/src/grid/domainsubdivision.t
+++ b/src/grid/domainsubdivision.t
@@ -40,6 +40,7 @@ template<class GridType>
 void SerialSubdivision<GridType>::init(const LimitType &low, const LimitType &high, int delta)
 {
   this->bounds = std::make_shared<BoundaryType>(low, high, delta);
+  globalDomain = this->bounds->getInnerDomain();
 }
 
 template<class GridType>
-- 
2.43.0


From 04ac64bce321137c7f500771e9b57cb0d2fcf263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:31 +0000
Subject: [PATCH 15/38] fix: Block::initAll climbs to the root from blocks of
 any depth

---
 src/variables/block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/block.cpp b/src/variables/block.cpp
index dab2ed1..191e9b3 100644
--- a/src/variables/block.cpp
+++ b/src/variables/block.cpp
@@ -137,7 +137,7 @@ void Block::postInitHierarchy()
 void Block::initAll()
 {
   Block *b = this;
-  while (b->parent) b = &(*parent);
+  while (b->parent) b = &(*b->parent);
 
   b->evaluateParameters();
   b->registerHierarchy();
-- 
2.43.0


From 758bf78a0df97fdf7383325c330b6c65a46cca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:31 +0000
Subject: [PATCH 16/38] fix: BlockVariables::exists searches the parents and
 uses the same path separator as getVariable

---
 src/variables/variables.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variables/variables.cpp b/src/variables/variables.cpp
index ef872e9..52dedab 100644
--- a/src/variables/variables.cpp
+++ b/src/variables/variables.cpp
@@ -146,7 +146,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
   {
     if (vars.count(name)>0) return true;
   }
-  if (upward && (parent.get()==0)) return parent->exists(path, true);
+  if (upward && parent) return parent->exists(path, true);
 
   return false;
 }
@@ -154,7 +154,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
 bool BlockVariables::exists(std::string name)
 {
   std::list<std::string> path;
-  boost::split(path, name, boost::is_any_of("."));
+  boost::split(path, name, boost::is_any_of(":"));
   return exists(path, true);
 }
 
-- 
2.43.0


From 236da77acb8cf059796ec088ed689dd855f0cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:31 +0000
Subject: [PATCH 17/38] fix: ParametersGroup::hasElements erases by value
 instead of by foreign iterators

---
 src/variables/blockparameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/blockparameters.cpp b/src/variables/blockparameters.cpp
index 8f58e99..b551acf 100644
--- a/src/variables/blockparameters.cpp
+++ b/src/variables/blockparameters.cpp
@@ -51,7 +51,7 @@ bool ParametersGroup::isElement(pVariable v)
 
 bool ParametersGroup::hasElements(std::set<long> &ids)
 {
-  ids.erase(parameters.begin(), parameters.end());
+  for (long id: parameters) ids.erase(id);
   return ids.empty();
 }
 
-- 
2.43.0


From 4b088be9ef33d18b038458e77c2023c3192ef391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:58 +0000
Subject: [PATCH 18/38] fix: building an update list no longer adds empty
 entries for constants to the dependency map

---
 src/variables/dependencies.cpp | 687 +++++++++++++++++----------------
 1 file changed, 346 insertions(+), 341 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index e6db25e..33d7462 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -1,341 +1,346 @@
-/*
- * dependencies.cpp
- *
- * Created on: 10 Jul 2012
- * Author: Holger Schmitz
- * Email: holger@notjustphysics.com
- *
- * Copyright 2012 Holger Schmitz
- *
- * This file is part of Schnek.
- *
- * Schnek is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- *
- * Schnek is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- *
- * You should have received a copy of the GNU General Public License
- * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
- *
- */
-
-#include "dependencies.hpp"
-#include "expression.hpp"
-#include "../exception.hpp"
-#include "../util/logger.hpp"
-
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
-
-#include <boost/variant/apply_visitor.hpp>
-
-#pragma GCC diagnostic pop
-
-#include <cassert>
-
-#undef LOGLEVEL
-#define LOGLEVEL 0
-
-using namespace schnek;
-
-DependencyMap::DependencyMap(const pBlockVariables vars)
-{
-
-  static int dummyInt = 0;
-  typedef std::shared_ptr<Expression<int> > ParExpression;
-  ParExpression pexp(new ExternalValue<int>(&dummyInt));
-  pVariable tmp(new Variable(pexp, true, true));
-  dummyVar = tmp;
-
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
-  blockVars = vars;
-  constructMap(vars);
-}
-
-void DependencyMap::constructMapRecursive(const pBlockVariables vars)
-{
-  for(VariableMap::value_type it: vars->getVariables())
-  {
-    pVariable v=it.second;
-    if (!v->isConstant())
-    {
-      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
-      DependenciesGetter depGet;
-      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
-      if (dep.count(-1)>0)
-      {
-        dep.erase(-1);
-        dep.insert(dummyVar->getId());
-      }
-
-      long id = v->getId();
-      if (dependencies.count(id)>0) throw SchnekException();
-      dependencies[id] = VarInfo(v, dep, DependencySet());
-    }
-  }
-
-  for(pBlockVariables ch: vars->getChildren())
-  {
-    constructMapRecursive(ch);
-  }
-}
-void DependencyMap::constructMap(const pBlockVariables vars)
-{
-  SCHNEK_TRACE_ENTER_FUNCTION(3);
-
-
-  constructMapRecursive(vars);
-
-  for(DepMap::value_type entry: dependencies)
-  {
-    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
-    for(long id: entry.second.dependsOn)
-    {
-      if (dependencies.count(id)>0) {
-        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
-        dependencies[id].modifies.insert(entry.first);
-      }
-    }
-  }
-
-  SCHNEK_TRACE_EXIT_FUNCTION(3);
-}
-
-void DependencyMap::resetCounters()
-{
-  for(DepMap::value_type entry: dependencies)
-  {
-    entry.second.counter = entry.second.dependsOn.size();
-  }
-}
-
-void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
-{
-  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
-  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
-  makeUpdateOrder(deps, updateList);
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
-                                                                const VariableSet &dependentVars)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap predecessors_p(new RefDepMap());
-  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
-
-  // first initialise the working set and also add the variables to the predecessors
-  for(pVariable v: dependentVars)
-  {
-    long id=v->getId();
-    VarInfo *vi = &(dependencies[id]);
-    workingSet.push_back(vi);
-    predecessors[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->dependsOn)
-    {
-      // check if we already considered this variable
-      if (predecessors.count(id) > 0) continue;
-
-      // A negative id signals that the expression should be re-evaluated for every change.
-      // To do this we add all independent variables to the predecessors list.
-      if (id<0)
-      {
-        for(pVariable indVar: independentVars)
-        {
-          long indId = indVar->getId();
-          if (predecessors.count(indId) == 0)
-          {
-            // if not, put predecessors in the working set and in the map
-            VarInfo *pred = &(dependencies[indId]);
-            workingSet.push_back(pred);
-            predecessors[indId] = pred;
-          }
-        }
-      }
-      else
-      {
-        // if not, put predecessors in the working set and in the map
-        VarInfo *pred = &(dependencies[id]);
-        workingSet.push_back(pred);
-        predecessors[id] = pred;
-      }
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return predecessors_p;
-
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap followers_p(new RefDepMap());
-  RefDepMap &followers = *followers_p;
-  RefDepMap &predecessors = *predecessors_p;
-
-  // first initialise the working set and also add the variables to the followers
-  for(pVariable v: independentVars)
-  {
-    long id=v->getId();
-    // the variable is not needed if it is not in the predecessors
-    if (predecessors.count(id) == 0) continue;
-    VarInfo *vi = predecessors[id];
-    workingSet.push_back(vi);
-    followers[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->modifies)
-    {
-      // check if we already considered this variable or if we need it at all
-      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
-
-      // if not, put predecessors in the working set and in the map
-      VarInfo *foll = predecessors[id];
-      workingSet.push_back(foll);
-      followers[id] = foll;
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return followers_p;
-
-}
-
-void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
-{
-  typedef std::list<VarInfo*>::iterator WorkIter;
-
-  std::list<VarInfo*> workingSet;
-  RefDepMap &deps = *deps_p;
-
-  updateList.clear();
-
-  // first initialise the counters
-  for(RefDepMap::value_type entry: deps)
-  {
-
-    int count = 0;
-    VarInfo *vi = entry.second;
-    workingSet.push_back(vi);
-    for(long id: vi->dependsOn)
-    {
-      if (deps.count(id) > 0) ++count;
-    }
-    entry.second->counter = count;
-  }
-
-  while (!workingSet.empty())
-  {
-    VarInfo *nextEval = 0;
-    WorkIter it = workingSet.begin();
-    while ((nextEval==0) && (it!=workingSet.end()))
-    {
-      if ((*it)->counter==0) nextEval=*it;
-      else ++it;
-    }
-
-    assert(nextEval != 0);
-
-    workingSet.erase(it);
-    updateList.push_back(nextEval->v);
-
-    for(long id: nextEval->modifies)
-    {
-      if (deps.count(id) == 0) continue;
-      VarInfo *vi = deps[id];
-      --(vi->counter);
-      assert(vi->counter >= 0);
-    }
-  }
-}
-
-pBlockVariables DependencyMap::getBlockVariables()
-{
-  return blockVars;
-}
-
-void DependencyMap::updateAll()
-{
-  pRefDepMap deps(new RefDepMap());
-  for(DepMap::value_type &entry: dependencies)
-  {
-    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
-  }
-
-  VariableList updateList;
-
-  makeUpdateOrder(deps, updateList);
-
-  for(pVariable v: updateList) {
-    try
-    {
-      v->evaluateExpression();
-    }
-    catch(...)
-    {
-      // no-op, bulkhead
-    }
-  }
-}
-
-
-DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
-  : dependencies(dependencies_), isValid(true)
-{
-  assert(dependencies->dummyVar->isReadOnly());
-  independentVars.insert(dependencies->dummyVar);
-}
-
-
-void DependencyUpdater::addIndependent(pParameter p)
-{
-  assert(p->getVariable()->isReadOnly());
-  independentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::addDependent(pParameter p)
-{
-  assert(!!p);
-  // only non-constant variables have to be updated using the DependencyUpdater
-  if (p->getVariable()->isConstant())
-  {
-    p->update();
-    return;
-  }
-  dependentParameters.insert(p);
-  dependentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::clearDependent()
-{
-  dependentParameters.clear();
-  dependentVars.clear();
-  isValid = false;
-}
+/*
+ * dependencies.cpp
+ *
+ * Created on: 10 Jul 2012
+ * Author: Holger Schmitz
+ * Email: holger@notjustphysics.com
+ *
+ * Copyright 2012 Holger Schmitz
+ *
+ * This file is part of Schnek.
+ *
+ * Schnek is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * Schnek is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
+ *
+ */
+
+#include "dependencies.hpp"
+#include "expression.hpp"
+#include "../exception.hpp"
+#include "../util/logger.hpp"
+
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+
+#include <boost/variant/apply_visitor.hpp>
+
+#pragma GCC diagnostic pop
+
+#include <cassert>
+
+#undef LOGLEVEL
+#define LOGLEVEL 0
+
+using namespace schnek;
+
+DependencyMap::DependencyMap(const pBlockVariables vars)
+{
+
+  static int dummyInt = 0;
+  typedef std::shared_ptr<Expression<int> > ParExpression;
+  ParExpression pexp(new ExternalValue<int>(&dummyInt));
+  pVariable tmp(new Variable(pexp, true, true));
+  dummyVar = tmp;
+
+  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
+  //dependencies[-1] = dummyInfo;
+  dependencies[dummyVar->getId()] = dummyInfo;
+//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
+
+  blockVars = vars;
+  constructMap(vars);
+}
+
+void DependencyMap::constructMapRecursive(const pBlockVariables vars)
+{
+  for(VariableMap::value_type it: vars->getVariables())
+  {
+    pVariable v=it.second;
+    if (!v->isConstant())
+    {
+      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
+      DependenciesGetter depGet;
+      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
+      if (dep.count(-1)>0)
+      {
+        dep.erase(-1);
+        dep.insert(dummyVar->getId());
+      }
+
+      long id = v->getId();
+      if (dependencies.count(id)>0) throw SchnekException();
+      dependencies[id] = VarInfo(v, dep, DependencySet());
+    }
+  }
+
+  for(pBlockVariables ch: vars->getChildren())
+  {
+    constructMapRecursive(ch);
+  }
+}
+void DependencyMap::constructMap(const pBlockVariables vars)
+{
+  SCHNEK_TRACE_ENTER_FUNCTION(3);
+
+
+  constructMapRecursive(vars);
+
+  for(DepMap::value_type entry: dependencies)
+  {
+    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
+    for(long id: entry.second.dependsOn)
+    {
+      if (dependencies.count(id)>0) {
+        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
+        dependencies[id].modifies.insert(entry.first);
+      }
+    }
+  }
+
+  SCHNEK_TRACE_EXIT_FUNCTION(3);
+}
+
+void DependencyMap::resetCounters()
+{
+  for(DepMap::value_type entry: dependencies)
+  {
+    entry.second.counter = entry.second.dependsOn.size();
+  }
+}
+
+void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
+{
+  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
+  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
+  makeUpdateOrder(deps, updateList);
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
+                                                                const VariableSet &dependentVars)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap predecessors_p(new RefDepMap());
+  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
+
+  // first initialise the working set and also add the variables to the predecessors
+  for(pVariable v: dependentVars)
+  {
+    long id=v->getId();
+    // constants are not in the map and never need updating
+    if (dependencies.count(id) == 0) continue;
+    VarInfo *vi = &(dependencies[id]);
+    workingSet.push_back(vi);
+    predecessors[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->dependsOn)
+    {
+      // check if we already considered this variable
+      if (predecessors.count(id) > 0) continue;
+
+      // constants are not in the map and never need updating
+      if ((id>=0) && (dependencies.count(id) == 0)) continue;
+
+      // A negative id signals that the expression should be re-evaluated for every change.
+      // To do this we add all independent variables to the predecessors list.
+      if (id<0)
+      {
+        for(pVariable indVar: independentVars)
+        {
+          long indId = indVar->getId();
+          if (predecessors.count(indId) == 0)
+          {
+            // if not, put predecessors in the working set and in the map
+            VarInfo *pred = &(dependencies[indId]);
+            workingSet.push_back(pred);
+            predecessors[indId] = pred;
+          }
+        }
+      }
+      else
+      {
+        // if not, put predecessors in the working set and in the map
+        VarInfo *pred = &(dependencies[id]);
+        workingSet.push_back(pred);
+        predecessors[id] = pred;
+      }
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return predecessors_p;
+
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap followers_p(new RefDepMap());
+  RefDepMap &followers = *followers_p;
+  RefDepMap &predecessors = *predecessors_p;
+
+  // first initialise the working set and also add the variables to the followers
+  for(pVariable v: independentVars)
+  {
+    long id=v->getId();
+    // the variable is not needed if it is not in the predecessors
+    if (predecessors.count(id) == 0) continue;
+    VarInfo *vi = predecessors[id];
+    workingSet.push_back(vi);
+    followers[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->modifies)
+    {
+      // check if we already considered this variable or if we need it at all
+      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
+
+      // if not, put predecessors in the working set and in the map
+      VarInfo *foll = predecessors[id];
+      workingSet.push_back(foll);
+      followers[id] = foll;
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return followers_p;
+
+}
+
+void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
+{
+  typedef std::list<VarInfo*>::iterator WorkIter;
+
+  std::list<VarInfo*> workingSet;
+  RefDepMap &deps = *deps_p;
+
+  updateList.clear();
+
+  // first initialise the counters
+  for(RefDepMap::value_type entry: deps)
+  {
+
+    int count = 0;
+    VarInfo *vi = entry.second;
+    workingSet.push_back(vi);
+    for(long id: vi->dependsOn)
+    {
+      if (deps.count(id) > 0) ++count;
+    }
+    entry.second->counter = count;
+  }
+
+  while (!workingSet.empty())
+  {
+    VarInfo *nextEval = 0;
+    WorkIter it = workingSet.begin();
+    while ((nextEval==0) && (it!=workingSet.end()))
+    {
+      if ((*it)->counter==0) nextEval=*it;
+      else ++it;
+    }
+
+    assert(nextEval != 0);
+
+    workingSet.erase(it);
+    updateList.push_back(nextEval->v);
+
+    for(long id: nextEval->modifies)
+    {
+      if (deps.count(id) == 0) continue;
+      VarInfo *vi = deps[id];
+      --(vi->counter);
+      assert(vi->counter >= 0);
+    }
+  }
+}
+
+pBlockVariables DependencyMap::getBlockVariables()
+{
+  return blockVars;
+}
+
+void DependencyMap::updateAll()
+{
+  pRefDepMap deps(new RefDepMap());
+  for(DepMap::value_type &entry: dependencies)
+  {
+    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
+  }
+
+  VariableList updateList;
+
+  makeUpdateOrder(deps, updateList);
+
+  for(pVariable v: updateList) {
+    try
+    {
+      v->evaluateExpression();
+    }
+    catch(...)
+    {
+      // no-op, bulkhead
+    }
+  }
+}
+
+
+DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
+  : dependencies(dependencies_), isValid(true)
+{
+  assert(dependencies->dummyVar->isReadOnly());
+  independentVars.insert(dependencies->dummyVar);
+}
+
+
+void DependencyUpdater::addIndependent(pParameter p)
+{
+  assert(p->getVariable()->isReadOnly());
+  independentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::addDependent(pParameter p)
+{
+  assert(!!p);
+  // only non-constant variables have to be updated using the DependencyUpdater
+  if (p->getVariable()->isConstant())
+  {
+    p->update();
+    return;
+  }
+  dependentParameters.insert(p);
+  dependentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::clearDependent()
+{
+  dependentParameters.clear();
+  dependentVars.clear();
+  isValid = false;
+}
-- 
2.43.0


From b58bde96f41a903931d4018a9b0345fc2975b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:58 +0000
Subject: [PATCH 19/38] fix: DependencyMap::recreate starts from an empty map

---
 src/variables/dependencies.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index 33d7462..debde64 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -52,11 +52,6 @@ DependencyMap::DependencyMap(const pBlockVariables vars)
   pVariable tmp(new Variable(pexp, true, true));
   dummyVar = tmp;
 
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
   blockVars = vars;
   constructMap(vars);
 }
@@ -92,6 +87,11 @@ void DependencyMap::constructMap(const pBlockVariables vars)
 {
   SCHNEK_TRACE_ENTER_FUNCTION(3);
 
+  dependencies.clear();
+  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
+  //dependencies[-1] = dummyInfo;
+  dependencies[dummyVar->getId()] = dummyInfo;
+//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
 
   constructMapRecursive(vars);
 
-- 
2.43.0


From 8cd194e747bc0b317474ad8c7a8705e8be63124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:58 +0000
Subject: [PATCH 20/38] fix: errors in literals, function calls and constant
 expressions of a setup file are reported as ParserError

---
 src/parser/parsertoken.cpp | 53 +++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/parser/parsertoken.cpp b/src/parser/parsertoken.cpp
index 14db956..e4634af 100644
--- a/src/parser/parsertoken.cpp
+++ b/src/parser/parsertoken.cpp
@@ -96,8 +96,15 @@ void ParserToken::assignInteger(ParserToken &parTok)
   if (parTok.getType() != atom) throw ParserError("Can't convert non-atom token to integer", atomTok);
   if (atomTok.getToken() != INTEGER) throw ParserError("Can't convert non-integer atom to integer", atomTok);
 
-  pIntExpression pI(new Value<int>(boost::lexical_cast<int>(atomTok.getString())));
-  data = pI;
+  try
+  {
+    pIntExpression pI(new Value<int>(boost::lexical_cast<int>(atomTok.getString())));
+    data = pI;
+  }
+  catch (boost::bad_lexical_cast&)
+  {
+    throw ParserError("Integer literal '"+atomTok.getString()+"' out of range", atomTok);
+  }
   type = int_type;
   // std::cerr << "Read Integer " << atomTok.getString() << "\n";
 }
@@ -110,8 +117,15 @@ void ParserToken::assignFloat(ParserToken &parTok)
   if (parTok.getType() != atom) throw ParserError("Can't convert non-atom token to integer", atomTok);
   if (atomTok.getToken() != FLOAT) throw ParserError("Can't convert non-float atom to float", atomTok);
 
-  pFloatExpression pF(new Value<double>(boost::lexical_cast<double>(atomTok.getString())));
-  data = pF;
+  try
+  {
+    pFloatExpression pF(new Value<double>(boost::lexical_cast<double>(atomTok.getString())));
+    data = pF;
+  }
+  catch (boost::bad_lexical_cast&)
+  {
+    throw ParserError("Float literal '"+atomTok.getString()+"' out of range", atomTok);
+  }
   type = float_type;
   // std::cerr << "Read Float " << atomTok.getString() << "\n";
 }
@@ -211,7 +225,14 @@ void ParserToken::assignFunction(ParserToken &parTok1, ParserToken &parTok2)
   }
 
   std::string funcName = parTok1.atomTok.getString();
-  data = context.funcReg->getExpression(funcName, args);
+  try
+  {
+    data = context.funcReg->getExpression(funcName, args);
+  }
+  catch (EvaluationException &e)
+  {
+    throw ParserError(e.getMessage(), parTok1.atomTok);
+  }
   type = expression;
 }
 
@@ -225,7 +246,14 @@ void ParserToken::assignFunction(ParserToken &parTok1)
   ExpressionList args;
 
   std::string funcName = parTok1.atomTok.getString();
-  data = context.funcReg->getExpression(funcName, args);
+  try
+  {
+    data = context.funcReg->getExpression(funcName, args);
+  }
+  catch (EvaluationException &e)
+  {
+    throw ParserError(e.getMessage(), parTok1.atomTok);
+  }
   type = expression;
 }
 
@@ -285,7 +313,14 @@ void ParserToken::storeVariable(ParserToken &parTok)
   SCHNEK_TRACE_ENTER_FUNCTION(4);
   evaluateVisitor visit(atomTok);;
 
-  var = boost::apply_visitor(visit, data);
+  try
+  {
+    var = boost::apply_visitor(visit, data);
+  }
+  catch (EvaluationException &e)
+  {
+    throw ParserError(e.getMessage(), atomTok);
+  }
 
   ensureVariable(parTok);
   std::string varname = atomTok.getString();
@@ -340,6 +375,10 @@ void ParserToken::updateVariable()
   {
     throw ParserError("Variable '"+varname+"' is read only! It can not be assigned a value!", atomTok);
   }
+  catch (EvaluationException &e)
+  {
+    throw ParserError(e.getMessage(), atomTok);
+  }
 }
 
 void ParserToken::ensureVariable(ParserToken &parTok)
-- 
2.43.0


From 0251769ad7c9b37e277d3fba1a9d58f7c9bdb315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:58 +0000
Subject: [PATCH 21/38] fix: a setup file that ends in the middle of a
 statement is reported as ParserError

---
 src/parser/parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index e2fc8df..66fc98c 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -80,8 +80,10 @@ pBlock Parser::parse(std::istream &input, std::string filename)
     context.blockTree->moveDown();
   }
 
+  Token lastTok(filename, 1, 0);
   for(Token tok: tokens)
   {
+    lastTok = tok;
     try{
       Parse(pParser, tok.getToken(), ParserToken(tok, context));
     }
@@ -90,7 +92,12 @@ pBlock Parser::parse(std::istream &input, std::string filename)
     }
   }
 
-  Parse(pParser, 0, ParserToken());
+  try{
+    Parse(pParser, 0, ParserToken());
+  }
+  catch (ParserInternalError & e) {
+    throw ParserError("Syntax Error: unexpected end of file", lastTok);
+  }
 
   ParseFree(pParser);
 
-- 
2.43.0


From bfcdc4e093858100e62c50cf303537997edb48b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:58 +0000
Subject: [PATCH 22/38] fix: text that can not be tokenised is reported as
 ParserError instead of dropping the rest of the setup file

---
 parser/deckscanner.rl               | 4 ++--
 src/parser/internal/deckscanner.cpp | 4 ++--
 src/parser/tokenlist.hpp            | 6 ++++++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index ebacad4..0ec1c84 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -10,6 +10,7 @@
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
+#include "../parsertoken.hpp"
 
 using namespace schnek;
 
@@ -139,8 +140,7 @@ void DeckScanner::do_scan(TokenList &tlist)
     %% write exec;
 
     if ( cs == deck_error ) {
-      std::cerr << "TOKENISER ERROR " << cur_line << "\n";
-      break;
+      throw ParserError("Unexpected character or unterminated string", Token(tlist.getFilename(), cur_line, 0));
     }
 
     if ( ts == 0 )
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index aa6c180..3a3ae67 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -12,6 +12,7 @@
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
+#include "../parsertoken.hpp"
 
 using namespace schnek;
 
@@ -548,8 +549,7 @@ _again:
 
 
     if ( cs == deck_error ) {
-      std::cerr << "TOKENISER ERROR " << cur_line << "\n";
-      break;
+      throw ParserError("Unexpected character or unterminated string", Token(tlist.getFilename(), cur_line, 0));
     }
 
     if ( ts == 0 )
diff --git a/src/parser/tokenlist.hpp b/src/parser/tokenlist.hpp
index 7dfcecd..b963bc1 100644
--- a/src/parser/tokenlist.hpp
+++ b/src/parser/tokenlist.hpp
@@ -137,6 +137,12 @@ class TokenList
       tlist.clear();
     }
 
+    /// Returns the name of the file that the tokens come from
+    const std::string &getFilename() const
+    {
+      return filename;
+    }
+
     /// Insert an individual token onto the list.
     void insert(int line, int token)
     {
-- 
2.43.0


From b6e4a482ab3f28dde62a018a64fff4d70298d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:28 +0000
Subject: [PATCH 23/38] fix: tokens and comments longer than the scanner's
 buffer no longer hang the scanner

---
 parser/deckscanner.rl               | 18 +++++++++++++-----
 src/parser/internal/deckscanner.cpp | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index 0ec1c84..f34ab3b 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -7,6 +7,7 @@
 #include <string>
 #include <cstring>
 #include <cstdio>
+#include <vector>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
@@ -104,7 +105,8 @@ using namespace schnek;
     
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::vector<char> buffer(BUFSIZE);
+  char *buf = buffer.data();
   int cs; 
   int act; 
   int have = 0;
@@ -117,13 +119,19 @@ void DeckScanner::do_scan(TokenList &tlist)
 
   while ( !done ) {
     char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
+    int len, space = buffer.size() - have;
     
     if ( space == 0 ) {
       /* We've used up the entire buffer storing an already-parsed token
-       * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
+       * prefix that must be preserved. Continue in a larger buffer. */
+      long tsOffset = ts - buf;
+      long teOffset = te ? te - buf : 0;
+      buffer.resize(2*buffer.size());
+      buf = buffer.data();
+      ts = buf + tsOffset;
+      te = te ? buf + teOffset : 0;
+      p = buf + have;
+      space = buffer.size() - have;
     }
 
     input->read(p,space);
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index 3a3ae67..38cc0e4 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -9,6 +9,7 @@
 #include <string>
 #include <cstring>
 #include <cstdio>
+#include <vector>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
@@ -217,7 +218,8 @@ static const int deck_en_main = 10;
     
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::vector<char> buffer(BUFSIZE);
+  char *buf = buffer.data();
   int cs; 
   int act; 
   int have = 0;
@@ -239,13 +241,19 @@ void DeckScanner::do_scan(TokenList &tlist)
 
   while ( !done ) {
     char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
+    int len, space = buffer.size() - have;
     
     if ( space == 0 ) {
       /* We've used up the entire buffer storing an already-parsed token
-       * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
+       * prefix that must be preserved. Continue in a larger buffer. */
+      long tsOffset = ts - buf;
+      long teOffset = te ? te - buf : 0;
+      buffer.resize(2*buffer.size());
+      buf = buffer.data();
+      ts = buf + tsOffset;
+      te = te ? buf + teOffset : 0;
+      p = buf + have;
+      space = buffer.size() - have;
     }
 
     input->read(p,space);
-- 
2.43.0


From e8f1f2f0af6a0f836dce4e5866716134a77c4f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:16 +0000
Subject: [PATCH 24/38] fix: DiagnosticManager reports a missing time counter
 or physical time instead of dereferencing null

---
 src/diagnostic/diagnostic.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 106c62c..1bc32bf 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -205,7 +205,8 @@ void DiagnosticManager::execute()
   SCHNEK_TRACE_LOG(2, "DiagnosticManager::execute " << rank << " "
                    << usePhysicalTime?boost::lexical_cast<std::string>(*physicalTime):boost::lexical_cast<std::string>(*timecounter));
 
-  if ((!usePhysicalTime && !timecounter) || (usePhysicalTime && !physicalTime))
+  if ((!usePhysicalTime && !timecounter) || (usePhysicalTime && !physicalTime)
+      || (!timecounter && !intervalDiags.empty()) || (!physicalTime && !deltaTimeDiags.empty()))
     throw schnek::VariableNotInitialisedException("In DiagnosticManager: A time counter or physical time must be specified!");
 
   for(IntervalDiagnostic *diag: intervalDiags)
@@ -224,6 +225,8 @@ double DiagnosticManager::adjustDeltaT(double deltaT)
 {
   double adjustedDt = deltaT;
 
+  if (!physicalTime && !deltaTimeDiags.empty())
+    throw schnek::VariableNotInitialisedException("In DiagnosticManager: A physical time must be specified!");
 
   for(DeltaTimeDiagnostic *diag: deltaTimeDiags)
   {
-- 
2.43.0


From 5874e18b618441d1e8f1458905a47a7c90ba7ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:15 +0000
Subject: [PATCH 25/38] fix: diagnostics deregister from the DiagnosticManager
 when they are destroyed

---
 src/diagnostic/diagnostic.cpp | 20 ++++++++++++++++++++
 src/diagnostic/diagnostic.hpp |  4 ++++
 2 files changed, 24 insertions(+)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 1bc32bf..64f5250 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -99,6 +99,11 @@ IntervalDiagnostic::IntervalDiagnostic() : interval(100)
   DiagnosticManager::instance().addIntervalDiagnostic(this);
 }
 
+IntervalDiagnostic::~IntervalDiagnostic()
+{
+  DiagnosticManager::instance().removeIntervalDiagnostic(this);
+}
+
 void IntervalDiagnostic::execute(bool master, int rank, int timeCounter)
 {
   SCHNEK_TRACE_LOG(2, "IntervalDiagnostic::execute" << fname << " " << rank)
@@ -128,6 +133,11 @@ DeltaTimeDiagnostic::DeltaTimeDiagnostic() : deltaTime(1.0), nextOutput(0.0), co
   DiagnosticManager::instance().addDeltaTimeDiagnostic(this);
 }
 
+DeltaTimeDiagnostic::~DeltaTimeDiagnostic()
+{
+  DiagnosticManager::instance().removeDeltaTimeDiagnostic(this);
+}
+
 void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
 {
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
@@ -199,6 +209,16 @@ void DiagnosticManager::addDeltaTimeDiagnostic(DeltaTimeDiagnostic *diag)
   deltaTimeDiags.push_back(diag);
 }
 
+void DiagnosticManager::removeIntervalDiagnostic(IntervalDiagnostic *diag)
+{
+  intervalDiags.remove(diag);
+}
+
+void DiagnosticManager::removeDeltaTimeDiagnostic(DeltaTimeDiagnostic *diag)
+{
+  deltaTimeDiags.remove(diag);
+}
+
 void DiagnosticManager::execute()
 {
 
diff --git a/src/diagnostic/diagnostic.hpp b/src/diagnostic/diagnostic.hpp
index c5f7457..db5871c 100644
--- a/src/diagnostic/diagnostic.hpp
+++ b/src/diagnostic/diagnostic.hpp
@@ -79,6 +79,7 @@ class IntervalDiagnostic : public DiagnosticInterface
     int interval;
   public:
     IntervalDiagnostic();
+    virtual ~IntervalDiagnostic();
     void execute(bool master, int rank, int timeCounter);
     int getInterval();
   protected:
@@ -94,6 +95,7 @@ class DeltaTimeDiagnostic : public DiagnosticInterface
     int count;
   public:
     DeltaTimeDiagnostic();
+    virtual ~DeltaTimeDiagnostic();
     void execute(bool master, int rank, double physicalTime);
     double getNextOutput();
     double getDeltaTime();
@@ -122,6 +124,8 @@ class DiagnosticManager : public Singleton<DiagnosticManager>
   public:
     void addIntervalDiagnostic(IntervalDiagnostic*);
     void addDeltaTimeDiagnostic(DeltaTimeDiagnostic*);
+    void removeIntervalDiagnostic(IntervalDiagnostic*);
+    void removeDeltaTimeDiagnostic(DeltaTimeDiagnostic*);
     void execute();
 
     void setTimeCounter(int *timecounter);
-- 
2.43.0


From 6d58f6cbe71491489fef5d9247110372424c74dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:37 +0000
Subject: [PATCH 26/38] fix: HdfOStream::open closes the file that was open
 before

---
 src/diagnostic/hdfdiagnostic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 5107595..86179f2 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -268,6 +268,7 @@ HdfOStream::HdfOStream(const char* fname)
 }
 
 int HdfOStream::open(const char* fname) {
+  close();
   sets_count = 0;
 
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-- 
2.43.0


From 89b4f85fe39386775606ecc188a67aa9d741b1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:37 +0000
Subject: [PATCH 27/38] fix: HDFGridReader has a default constructor

---
 src/diagnostic/hdfdiagnostic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 47a4420..b379fb1 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -296,7 +296,7 @@ class HDFGridReader : public Block
     std::string fileName;
   public:
     /// Default constructor
-    HDFGridReader();
+    HDFGridReader() {}
     /// Virtual destructor
     virtual ~HDFGridReader() {}
   protected:
-- 
2.43.0


From 5ece3b97c881117a20470835ae54df925e93d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:57 +0000
Subject: [PATCH 28/38] fix: copies of HDF streams share the open file and keep
 their settings

---
 src/diagnostic/hdfdiagnostic.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 86179f2..5246645 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -59,15 +59,20 @@ HdfStream::HdfStream(const HdfStream& hdf)
     blockname(hdf.blockname),
     attributes(hdf.attributes),
     sets_count(hdf.sets_count),
-    active(true),
-    activeModified(false)
+    active(hdf.active),
+    activeModified(hdf.activeModified)
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-    , commSet(false)
+    , mpiComm(hdf.mpiComm),
+    commSet(hdf.commSet)
 #endif
-{}
+{
+  if (file_id >= 0) H5Iinc_ref(file_id);
+}
 
 HdfStream &HdfStream::operator=(const HdfStream& hdf)
 {
+  if (hdf.file_id >= 0) H5Iinc_ref(hdf.file_id);
+  close();
   file_id = hdf.file_id;
   status = hdf.status;
   sets_count = hdf.sets_count;
@@ -258,7 +263,13 @@ HdfOStream::HdfOStream()
 {}
 
 HdfOStream::HdfOStream(const HdfOStream& hdf)
-  : HdfStream(hdf), initialised(hdf.initialised)
+  : HdfStream(hdf),
+    dxpl_id(hdf.dxpl_id),
+#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
+    mpi_info(hdf.mpi_info),
+#endif
+    plist_id(hdf.plist_id),
+    initialised(hdf.initialised)
 {}
 
 HdfOStream::HdfOStream(const char* fname)
-- 
2.43.0


From 71f9b34ea5f177205e106224814d9a8ae5db9349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:54 +0000
Subject: [PATCH 29/38] fix: HdfOStream releases its property lists; they kept
 MPI communicators alive beyond MPI_Finalize

---
 src/diagnostic/hdfdiagnostic.cpp | 40 ++++++++++++++++++++++++++++----
 src/diagnostic/hdfdiagnostic.hpp | 12 +++++++---
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 5246645..21050c7 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -265,12 +265,14 @@ HdfOStream::HdfOStream()
 HdfOStream::HdfOStream(const HdfOStream& hdf)
   : HdfStream(hdf),
     dxpl_id(hdf.dxpl_id),
-#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-    mpi_info(hdf.mpi_info),
-#endif
     plist_id(hdf.plist_id),
     initialised(hdf.initialised)
-{}
+{
+  if (initialised) {
+    H5Iinc_ref(dxpl_id);
+    H5Iinc_ref(plist_id);
+  }
+}
 
 HdfOStream::HdfOStream(const char* fname)
    : HdfStream(), initialised(false)
@@ -278,6 +280,34 @@ HdfOStream::HdfOStream(const char* fname)
   open(fname);
 }
 
+HdfOStream &HdfOStream::operator=(const HdfOStream& hdf)
+{
+  if (hdf.initialised) {
+    H5Iinc_ref(hdf.dxpl_id);
+    H5Iinc_ref(hdf.plist_id);
+  }
+  releaseProperties();
+  HdfStream::operator=(hdf);
+  dxpl_id = hdf.dxpl_id;
+  plist_id = hdf.plist_id;
+  initialised = hdf.initialised;
+  return *this;
+}
+
+HdfOStream::~HdfOStream()
+{
+  releaseProperties();
+}
+
+void HdfOStream::releaseProperties()
+{
+  if (initialised) {
+    H5Pclose(dxpl_id);
+    H5Pclose(plist_id);
+  }
+  initialised = false;
+}
+
 int HdfOStream::open(const char* fname) {
   close();
   sets_count = 0;
@@ -302,6 +332,7 @@ int HdfOStream::open(const char* fname) {
       H5Pset_sieve_buf_size(plist_id, sieve_buf_size);
       H5Pset_alignment(plist_id, align_threshold, alignment);
 
+      MPI_Info mpi_info;
       MPI_Info_create(&mpi_info);
 
       // MPI
@@ -321,6 +352,7 @@ int HdfOStream::open(const char* fname) {
 
       /* set Parallel access with communicator */
       H5Pset_fapl_mpio(plist_id, mpiComm, mpi_info);
+      MPI_Info_free(&mpi_info);
     }
 
     /* open the file collectively */
diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index b379fb1..aa97c5d 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -205,11 +205,11 @@ class HdfIStream : public HdfStream {
 class HdfOStream : public HdfStream {
   private:
     hid_t dxpl_id;
-#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-    MPI_Info mpi_info;
-#endif
     hid_t plist_id;
     bool initialised;
+
+    /// release the property lists
+    void releaseProperties();
   public:
     /// constructor
     HdfOStream();
@@ -220,6 +220,12 @@ class HdfOStream : public HdfStream {
     /// constructor, opens HDF file "fname"
     HdfOStream(const char* fname);
 
+    /// assign
+    HdfOStream& operator=(const HdfOStream&);
+
+    /// destructor
+    ~HdfOStream();
+
     /// open file
     int open(const char*);
 
-- 
2.43.0


From aaef0473e6f735a78f0994bcc712f63efcdad595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:16 +0000
Subject: [PATCH 30/38] fix: HdfOStream uses the communicator of the active
 processes after the set of active processes changed

---
 src/diagnostic/hdfdiagnostic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 21050c7..906d91e 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -318,7 +318,7 @@ int HdfOStream::open(const char* fname) {
   const int align_threshold = 1; //524288;
   const int alignment = 1; // 262144;
 
-
+  if (activeModified) releaseProperties();
   makeMPIGroup();
   if (active) {
     int rank;
-- 
2.43.0


From a1dc8f76909e40c59193c2bce3cd6d1ff76e9ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:04 +0000
Subject: [PATCH 31/38] fix: a number has to start with a digit or a dot; e+1
 is the variable e plus one

---
 parser/deckscanner.rl               | 2 +-
 src/parser/internal/deckscanner.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index f34ab3b..6b7c463 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -93,7 +93,7 @@ using namespace schnek;
 	# Match a floating point number.
 	float_exp = [eE] [+\-]? digit+;
 	float_dec = '.' digit* float_exp?;
-	digit* (float_dec | float_exp) { tlist.insert(cur_line, FLOAT,ts,te-ts); };
+	( digit* float_dec | digit+ float_exp ) { tlist.insert(cur_line, FLOAT,ts,te-ts); };
 
 	*|;
 }%%
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index 38cc0e4..ebe1988 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -126,7 +126,7 @@ static const char _deck_indicies[] = {
 	32, 20, 18, 43, 43, 27, 42, 10, 
 	42, 45, 12, 44, 27, 43, 43, 29, 
 	46, 47, 32, 32, 32, 32, 8, 47, 
-	47, 47, 47, 48, 9, 9, 47, 32, 
+	47, 47, 47, 48, 49, 49, 47, 32, 
 	50, 32, 32, 49, 47, 32, 50, 32, 
 	32, 49, 47, 32, 51, 32, 32, 32, 
 	49, 47, 32, 52, 32, 32, 32, 49, 
-- 
2.43.0


From 6f873b2e4ba28a6650fcc020f20db51a24f13faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:04 +0000
Subject: [PATCH 32/38] fix: a line comment may end with the file

---
 parser/deckscanner.rl               | 2 +-
 src/parser/internal/deckscanner.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index 6b7c463..9e9bcda 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -83,7 +83,7 @@ using namespace schnek;
 	# Describe both c style comments and c++ style comments. The
 	# priority bump on tne terminator of the comments brings us
 	# out of the extend* which matches everything.
-	'//' [^\n]* newline;
+	'//' [^\n]*;
 
 	'/*' { fgoto c_comment; };
 
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index ebe1988..7184d75 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -31,7 +31,7 @@ static const char _deck_actions[] = {
 	23, 1, 24, 1, 25, 1, 26, 1, 
 	28, 1, 29, 1, 30, 1, 31, 1, 
 	32, 1, 33, 1, 34, 1, 35, 1, 
-	36, 2, 0, 26, 2, 0, 27, 2, 
+	36, 2, 0, 26, 1, 27, 0, 2, 
 	4, 5, 2, 4, 6, 2, 4, 7, 
 	2, 4, 8, 2, 4, 9, 2, 4, 
 	10, 2, 4, 11, 2, 4, 12
@@ -196,7 +196,7 @@ static const char _deck_from_state_actions[] = {
 };
 
 static const short _deck_eof_trans[] = {
-	0, 0, 0, 0, 0, 9, 9, 12, 
+	0, 0, 0, 0, 0, 9, 9, 14, 
 	0, 0, 0, 43, 43, 45, 47, 9, 
 	49, 50, 50, 50, 50, 50, 50, 50, 
 	50, 50, 50, 50, 50, 50, 63, 50, 
@@ -457,7 +457,7 @@ _eof_trans:
 	break;
 	case 27:
 
-	{te = p+1;}
+	{te = p;p--;}
 	break;
 	case 28:
 
-- 
2.43.0


From f648f687be3cd9cfd8111ac44c9ac4e4df550f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:05 +0000
Subject: [PATCH 33/38] fix: a string or comment that is not terminated is
 reported as ParserError

---
 parser/deckscanner.rl               | 4 ++--
 src/parser/internal/deckscanner.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index 9e9bcda..2eff88a 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -147,8 +147,8 @@ void DeckScanner::do_scan(TokenList &tlist)
             
     %% write exec;
 
-    if ( cs == deck_error ) {
-      throw ParserError("Unexpected character or unterminated string", Token(tlist.getFilename(), cur_line, 0));
+    if ( cs == deck_error || ( done && cs != deck_start ) ) {
+      throw ParserError("Unexpected character or unterminated string or comment", Token(tlist.getFilename(), cur_line, 0));
     }
 
     if ( ts == 0 )
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index 7184d75..2d9fbd2 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -556,8 +556,8 @@ _again:
 
 
 
-    if ( cs == deck_error ) {
-      throw ParserError("Unexpected character or unterminated string", Token(tlist.getFilename(), cur_line, 0));
+    if ( cs == deck_error || ( done && cs != deck_start ) ) {
+      throw ParserError("Unexpected character or unterminated string or comment", Token(tlist.getFilename(), cur_line, 0));
     }
 
     if ( ts == 0 )
-- 
2.43.0


From d5f47488c912076af96f759571514442b3daff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:59 +0000
Subject: [PATCH 34/38] fix: FieldFiller::set must not reuse the adder of an
 earlier call

---
 src/tools/fieldtools.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools/fieldtools.hpp b/src/tools/fieldtools.hpp
index f5f429a..42687b2 100644
--- a/src/tools/fieldtools.hpp
+++ b/src/tools/fieldtools.hpp
@@ -142,10 +142,9 @@ class FieldFiller
       size_t rank,
       template<size_t> class ArrayCheckingPolicy
     >
-    fieldAdder<rank,ArrayCheckingPolicy> &set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
+    fieldAdder<rank,ArrayCheckingPolicy> set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
     {
-        static fieldAdder<rank,ArrayCheckingPolicy> adder(coords, updater, implementations);
-        return adder;
+        return fieldAdder<rank,ArrayCheckingPolicy>(coords, updater, implementations);
     }
 
     void clear() { implementations.clear(); }
-- 
2.43.0


From 20c6b3fbe71725fb042d890c45e4e751e9e71051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:31 +0000
Subject: [PATCH 35/38] fix: bibliography entries put school and organization
 into their own fields; the publication type is always set

---
 src/tools/literature.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tools/literature.hpp b/src/tools/literature.hpp
index 4e363ca..033714e 100644
--- a/src/tools/literature.hpp
+++ b/src/tools/literature.hpp
@@ -78,8 +78,8 @@ private:
     std::string bibKey;
     PublicationType publType;
   public:
-    LiteratureReference() {}
-    LiteratureReference(std::string bibKey_) : bibKey(bibKey_) {}
+    LiteratureReference() : publType(misc) {}
+    LiteratureReference(std::string bibKey_) : bibKey(bibKey_), publType(misc) {}
 
     LiteratureReference(const LiteratureReference &ref) :
       address(ref.address),
@@ -597,7 +597,7 @@ class LiteratureInProceedings : public LiteratureReference
       setPages(pages);
       setAddress(address);
       setMonth(month);
-      setEdition(organization);
+      setOrganization(organization);
       setPublisher(publisher);
       setNote(note);
       setKey(key);
@@ -617,7 +617,7 @@ class LiteratureManual : public LiteratureReference
 
       setTitle(title);
       setAuthor(author);
-      setEdition(organization);
+      setOrganization(organization);
       setAddress(address);
       setEdition(edition);
       setYear(year);
@@ -639,7 +639,7 @@ class LiteratureMastersThesis : public LiteratureReference
 
       setAuthor(author);
       setTitle(title);
-      setEdition(school);
+      setSchool(school);
       setYear(year);
       setType(type);
       setAddress(address);
@@ -683,7 +683,7 @@ class LiteraturePhdThesis : public LiteratureReference
 
       setAuthor(author);
       setTitle(title);
-      setEdition(school);
+      setSchool(school);
       setYear(year);
       setType(type);
       setAddress(address);
@@ -713,7 +713,7 @@ class LiteratureProceedings : public LiteratureReference
       setSeries(series);
       setAddress(address);
       setMonth(month);
-      setEdition(organization);
+      setOrganization(organization);
       setPublisher(publisher);
       setNote(note);
       setKey(key);
-- 
2.43.0


From 3b571f85ef91b74c13e5916c698f82d210c4127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:43 +0000
Subject: [PATCH 36/38] fix: restore the original CRLF line endings of
 dependencies.cpp

---
 src/variables/dependencies.cpp | 692 ++++++++++++++++-----------------
 1 file changed, 346 insertions(+), 346 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index debde64..87a74cd 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -1,346 +1,346 @@
-/*
- * dependencies.cpp
- *
- * Created on: 10 Jul 2012
- * Author: Holger Schmitz
- * Email: holger@notjustphysics.com
- *
- * Copyright 2012 Holger Schmitz
- *
- * This file is part of Schnek.
- *
- * Schnek is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- *
- * Schnek is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- *
- * You should have received a copy of the GNU General Public License
- * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
- *
- */
-
-#include "dependencies.hpp"
-#include "expression.hpp"
-#include "../exception.hpp"
-#include "../util/logger.hpp"
-
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
-
-#include <boost/variant/apply_visitor.hpp>
-
-#pragma GCC diagnostic pop
-
-#include <cassert>
-
-#undef LOGLEVEL
-#define LOGLEVEL 0
-
-using namespace schnek;
-
-DependencyMap::DependencyMap(const pBlockVariables vars)
-{
-
-  static int dummyInt = 0;
-  typedef std::shared_ptr<Expression<int> > ParExpression;
-  ParExpression pexp(new ExternalValue<int>(&dummyInt));
-  pVariable tmp(new Variable(pexp, true, true));
-  dummyVar = tmp;
-
-  blockVars = vars;
-  constructMap(vars);
-}
-
-void DependencyMap::constructMapRecursive(const pBlockVariables vars)
-{
-  for(VariableMap::value_type it: vars->getVariables())
-  {
-    pVariable v=it.second;
-    if (!v->isConstant())
-    {
-      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
-      DependenciesGetter depGet;
-      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
-      if (dep.count(-1)>0)
-      {
-        dep.erase(-1);
-        dep.insert(dummyVar->getId());
-      }
-
-      long id = v->getId();
-      if (dependencies.count(id)>0) throw SchnekException();
-      dependencies[id] = VarInfo(v, dep, DependencySet());
-    }
-  }
-
-  for(pBlockVariables ch: vars->getChildren())
-  {
-    constructMapRecursive(ch);
-  }
-}
-void DependencyMap::constructMap(const pBlockVariables vars)
-{
-  SCHNEK_TRACE_ENTER_FUNCTION(3);
-
-  dependencies.clear();
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
-  constructMapRecursive(vars);
-
-  for(DepMap::value_type entry: dependencies)
-  {
-    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
-    for(long id: entry.second.dependsOn)
-    {
-      if (dependencies.count(id)>0) {
-        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
-        dependencies[id].modifies.insert(entry.first);
-      }
-    }
-  }
-
-  SCHNEK_TRACE_EXIT_FUNCTION(3);
-}
-
-void DependencyMap::resetCounters()
-{
-  for(DepMap::value_type entry: dependencies)
-  {
-    entry.second.counter = entry.second.dependsOn.size();
-  }
-}
-
-void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
-{
-  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
-  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
-  makeUpdateOrder(deps, updateList);
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
-                                                                const VariableSet &dependentVars)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap predecessors_p(new RefDepMap());
-  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
-
-  // first initialise the working set and also add the variables to the predecessors
-  for(pVariable v: dependentVars)
-  {
-    long id=v->getId();
-    // constants are not in the map and never need updating
-    if (dependencies.count(id) == 0) continue;
-    VarInfo *vi = &(dependencies[id]);
-    workingSet.push_back(vi);
-    predecessors[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->dependsOn)
-    {
-      // check if we already considered this variable
-      if (predecessors.count(id) > 0) continue;
-
-      // constants are not in the map and never need updating
-      if ((id>=0) && (dependencies.count(id) == 0)) continue;
-
-      // A negative id signals that the expression should be re-evaluated for every change.
-      // To do this we add all independent variables to the predecessors list.
-      if (id<0)
-      {
-        for(pVariable indVar: independentVars)
-        {
-          long indId = indVar->getId();
-          if (predecessors.count(indId) == 0)
-          {
-            // if not, put predecessors in the working set and in the map
-            VarInfo *pred = &(dependencies[indId]);
-            workingSet.push_back(pred);
-            predecessors[indId] = pred;
-          }
-        }
-      }
-      else
-      {
-        // if not, put predecessors in the working set and in the map
-        VarInfo *pred = &(dependencies[id]);
-        workingSet.push_back(pred);
-        predecessors[id] = pred;
-      }
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return predecessors_p;
-
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap followers_p(new RefDepMap());
-  RefDepMap &followers = *followers_p;
-  RefDepMap &predecessors = *predecessors_p;
-
-  // first initialise the working set and also add the variables to the followers
-  for(pVariable v: independentVars)
-  {
-    long id=v->getId();
-    // the variable is not needed if it is not in the predecessors
-    if (predecessors.count(id) == 0) continue;
-    VarInfo *vi = predecessors[id];
-    workingSet.push_back(vi);
-    followers[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->modifies)
-    {
-      // check if we already considered this variable or if we need it at all
-      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
-
-      // if not, put predecessors in the working set and in the map
-      VarInfo *foll = predecessors[id];
-      workingSet.push_back(foll);
-      followers[id] = foll;
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return followers_p;
-
-}
-
-void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
-{
-  typedef std::list<VarInfo*>::iterator WorkIter;
-
-  std::list<VarInfo*> workingSet;
-  RefDepMap &deps = *deps_p;
-
-  updateList.clear();
-
-  // first initialise the counters
-  for(RefDepMap::value_type entry: deps)
-  {
-
-    int count = 0;
-    VarInfo *vi = entry.second;
-    workingSet.push_back(vi);
-    for(long id: vi->dependsOn)
-    {
-      if (deps.count(id) > 0) ++count;
-    }
-    entry.second->counter = count;
-  }
-
-  while (!workingSet.empty())
-  {
-    VarInfo *nextEval = 0;
-    WorkIter it = workingSet.begin();
-    while ((nextEval==0) && (it!=workingSet.end()))
-    {
-      if ((*it)->counter==0) nextEval=*it;
-      else ++it;
-    }
-
-    assert(nextEval != 0);
-
-    workingSet.erase(it);
-    updateList.push_back(nextEval->v);
-
-    for(long id: nextEval->modifies)
-    {
-      if (deps.count(id) == 0) continue;
-      VarInfo *vi = deps[id];
-      --(vi->counter);
-      assert(vi->counter >= 0);
-    }
-  }
-}
-
-pBlockVariables DependencyMap::getBlockVariables()
-{
-  return blockVars;
-}
-
-void DependencyMap::updateAll()
-{
-  pRefDepMap deps(new RefDepMap());
-  for(DepMap::value_type &entry: dependencies)
-  {
-    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
-  }
-
-  VariableList updateList;
-
-  makeUpdateOrder(deps, updateList);
-
-  for(pVariable v: updateList) {
-    try
-    {
-      v->evaluateExpression();
-    }
-    catch(...)
-    {
-      // no-op, bulkhead
-    }
-  }
-}
-
-
-DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
-  : dependencies(dependencies_), isValid(true)
-{
-  assert(dependencies->dummyVar->isReadOnly());
-  independentVars.insert(dependencies->dummyVar);
-}
-
-
-void DependencyUpdater::addIndependent(pParameter p)
-{
-  assert(p->getVariable()->isReadOnly());
-  independentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::addDependent(pParameter p)
-{
-  assert(!!p);
-  // only non-constant variables have to be updated using the DependencyUpdater
-  if (p->getVariable()->isConstant())
-  {
-    p->update();
-    return;
-  }
-  dependentParameters.insert(p);
-  dependentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::clearDependent()
-{
-  dependentParameters.clear();
-  dependentVars.clear();
-  isValid = false;
-}
+/*
+ * dependencies.cpp
+ *
+ * Created on: 10 Jul 2012
+ * Author: Holger Schmitz
+ * Email: holger@notjustphysics.com
+ *
+ * Copyright 2012 Holger Schmitz
+ *
+ * This file is part of Schnek.
+ *
+ * Schnek is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * Schnek is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
+ *
+ */
+
+#include "dependencies.hpp"
+#include "expression.hpp"
+#include "../exception.hpp"
+#include "../util/logger.hpp"
+
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+
+#include <boost/variant/apply_visitor.hpp>
+
+#pragma GCC diagnostic pop
+
+#include <cassert>
+
+#undef LOGLEVEL
+#define LOGLEVEL 0
+
+using namespace schnek;
+
+DependencyMap::DependencyMap(const pBlockVariables vars)
+{
+
+  static int dummyInt = 0;
+  typedef std::shared_ptr<Expression<int> > ParExpression;
+  ParExpression pexp(new ExternalValue<int>(&dummyInt));
+  pVariable tmp(new Variable(pexp, true, true));
+  dummyVar = tmp;
+
+  blockVars = vars;
+  constructMap(vars);
+}
+
+void DependencyMap::constructMapRecursive(const pBlockVariables vars)
+{
+  for(VariableMap::value_type it: vars->getVariables())
+  {
+    pVariable v=it.second;
+    if (!v->isConstant())
+    {
+      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
+      DependenciesGetter depGet;
+      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
+      if (dep.count(-1)>0)
+      {
+        dep.erase(-1);
+        dep.insert(dummyVar->getId());
+      }
+
+      long id = v->getId();
+      if (dependencies.count(id)>0) throw SchnekException();
+      dependencies[id] = VarInfo(v, dep, DependencySet());
+    }
+  }
+
+  for(pBlockVariables ch: vars->getChildren())
+  {
+    constructMapRecursive(ch);
+  }
+}
+void DependencyMap::constructMap(const pBlockVariables vars)
+{
+  SCHNEK_TRACE_ENTER_FUNCTION(3);
+
+  dependencies.clear();
+  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
+  //dependencies[-1] = dummyInfo;
+  dependencies[dummyVar->getId()] = dummyInfo;
+//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
+
+  constructMapRecursive(vars);
+
+  for(DepMap::value_type entry: dependencies)
+  {
+    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
+    for(long id: entry.second.dependsOn)
+    {
+      if (dependencies.count(id)>0) {
+        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
+        dependencies[id].modifies.insert(entry.first);
+      }
+    }
+  }
+
+  SCHNEK_TRACE_EXIT_FUNCTION(3);
+}
+
+void DependencyMap::resetCounters()
+{
+  for(DepMap::value_type entry: dependencies)
+  {
+    entry.second.counter = entry.second.dependsOn.size();
+  }
+}
+
+void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
+{
+  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
+  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
+  makeUpdateOrder(deps, updateList);
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
+                                                                const VariableSet &dependentVars)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap predecessors_p(new RefDepMap());
+  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
+
+  // first initialise the working set and also add the variables to the predecessors
+  for(pVariable v: dependentVars)
+  {
+    long id=v->getId();
+    // constants are not in the map and never need updating
+    if (dependencies.count(id) == 0) continue;
+    VarInfo *vi = &(dependencies[id]);
+    workingSet.push_back(vi);
+    predecessors[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->dependsOn)
+    {
+      // check if we already considered this variable
+      if (predecessors.count(id) > 0) continue;
+
+      // constants are not in the map and never need updating
+      if ((id>=0) && (dependencies.count(id) == 0)) continue;
+
+      // A negative id signals that the expression should be re-evaluated for every change.
+      // To do this we add all independent variables to the predecessors list.
+      if (id<0)
+      {
+        for(pVariable indVar: independentVars)
+        {
+          long indId = indVar->getId();
+          if (predecessors.count(indId) == 0)
+          {
+            // if not, put predecessors in the working set and in the map
+            VarInfo *pred = &(dependencies[indId]);
+            workingSet.push_back(pred);
+            predecessors[indId] = pred;
+          }
+        }
+      }
+      else
+      {
+        // if not, put predecessors in the working set and in the map
+        VarInfo *pred = &(dependencies[id]);
+        workingSet.push_back(pred);
+        predecessors[id] = pred;
+      }
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return predecessors_p;
+
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap followers_p(new RefDepMap());
+  RefDepMap &followers = *followers_p;
+  RefDepMap &predecessors = *predecessors_p;
+
+  // first initialise the working set and also add the variables to the followers
+  for(pVariable v: independentVars)
+  {
+    long id=v->getId();
+    // the variable is not needed if it is not in the predecessors
+    if (predecessors.count(id) == 0) continue;
+    VarInfo *vi = predecessors[id];
+    workingSet.push_back(vi);
+    followers[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->modifies)
+    {
+      // check if we already considered this variable or if we need it at all
+      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
+
+      // if not, put predecessors in the working set and in the map
+      VarInfo *foll = predecessors[id];
+      workingSet.push_back(foll);
+      followers[id] = foll;
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return followers_p;
+
+}
+
+void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
+{
+  typedef std::list<VarInfo*>::iterator WorkIter;
+
+  std::list<VarInfo*> workingSet;
+  RefDepMap &deps = *deps_p;
+
+  updateList.clear();
+
+  // first initialise the counters
+  for(RefDepMap::value_type entry: deps)
+  {
+
+    int count = 0;
+    VarInfo *vi = entry.second;
+    workingSet.push_back(vi);
+    for(long id: vi->dependsOn)
+    {
+      if (deps.count(id) > 0) ++count;
+    }
+    entry.second->counter = count;
+  }
+
+  while (!workingSet.empty())
+  {
+    VarInfo *nextEval = 0;
+    WorkIter it = workingSet.begin();
+    while ((nextEval==0) && (it!=workingSet.end()))
+    {
+      if ((*it)->counter==0) nextEval=*it;
+      else ++it;
+    }
+
+    assert(nextEval != 0);
+
+    workingSet.erase(it);
+    updateList.push_back(nextEval->v);
+
+    for(long id: nextEval->modifies)
+    {
+      if (deps.count(id) == 0) continue;
+      VarInfo *vi = deps[id];
+      --(vi->counter);
+      assert(vi->counter >= 0);
+    }
+  }
+}
+
+pBlockVariables DependencyMap::getBlockVariables()
+{
+  return blockVars;
+}
+
+void DependencyMap::updateAll()
+{
+  pRefDepMap deps(new RefDepMap());
+  for(DepMap::value_type &entry: dependencies)
+  {
+    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
+  }
+
+  VariableList updateList;
+
+  makeUpdateOrder(deps, updateList);
+
+  for(pVariable v: updateList) {
+    try
+    {
+      v->evaluateExpression();
+    }
+    catch(...)
+    {
+      // no-op, bulkhead
+    }
+  }
+}
+
+
+DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
+  : dependencies(dependencies_), isValid(true)
+{
+  assert(dependencies->dummyVar->isReadOnly());
+  independentVars.insert(dependencies->dummyVar);
+}
+
+
+void DependencyUpdater::addIndependent(pParameter p)
+{
+  assert(p->getVariable()->isReadOnly());
+  independentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::addDependent(pParameter p)
+{
+  assert(!!p);
+  // only non-constant variables have to be updated using the DependencyUpdater
+  if (p->getVariable()->isConstant())
+  {
+    p->update();
+    return;
+  }
+  dependentParameters.insert(p);
+  dependentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::clearDependent()
+{
+  dependentParameters.clear();
+  dependentVars.clear();
+  isValid = false;
+}
-- 
2.43.0


From 82d71994ff2aa7f0e3e4798a0ce493e4091611a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:00 +0000
Subject: [PATCH 37/38] fix: chains of sums, differences, products and
 quotients that mix integers and floating point numbers associate to the left

---
 src/parser/parsertoken.t     | 28 +++++++++++++++++++++++++++-
 src/variables/expression.hpp | 19 ++++++++++++++++++-
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/parser/parsertoken.t b/src/parser/parsertoken.t
index 43a07b9..86cffff 100644
--- a/src/parser/parsertoken.t
+++ b/src/parser/parsertoken.t
@@ -190,6 +190,23 @@ void ParserToken::assignUnaryOperator(ParserToken &parTok)
   data = boost::apply_visitor(visit, parTok.data);
 }
 
+/* A chain of integers that continues a chain of floating point numbers is promoted operand by operand.
+ * Promoting its value would keep it together like an expression in brackets.
+ */
+template<template<class> class OpType>
+inline pFloatExpression promoteChain(pIntExpression e)
+{
+  typedef BinaryOp<OpType<int>, int> Chain;
+  typedef BinaryOp<typename OpType<int>::Inverted, int> InvChain;
+  typedef BinaryOp<OpType<double>, double> FloatChain;
+
+  if (std::shared_ptr<Chain> chain = std::dynamic_pointer_cast<Chain>(e))
+    return pFloatExpression(new FloatChain(*chain));
+  if (std::shared_ptr<InvChain> invChain = std::dynamic_pointer_cast<InvChain>(e))
+    return pFloatExpression(new FloatChain(*invChain));
+  return pFloatExpression();
+}
+
 template<template<class> class OpType>
 void ParserToken::assignBinaryOperator(ParserToken &parTok1, ParserToken &parTok2)
 {
@@ -199,6 +216,15 @@ void ParserToken::assignBinaryOperator(ParserToken &parTok1, ParserToken &parTok
   TypePromoter tprom;
   boost::apply_visitor(tprom, parTok1.data, parTok2.data);
 
-  BinaryOperatorVisitor<OpType> visit(tprom.getResultB());
+  ExpressionVariant arg2 = tprom.getResultB();
+
+  pIntExpression *intArg2 = boost::get<pIntExpression>(&parTok2.data);
+  if (intArg2 && boost::get<pFloatExpression>(&parTok1.data))
+  {
+    pFloatExpression chain = promoteChain<OpType>(*intArg2);
+    if (chain) arg2 = chain;
+  }
+
+  BinaryOperatorVisitor<OpType> visit(arg2);
   data = boost::apply_visitor(visit, tprom.getResultA());
 }
diff --git a/src/variables/expression.hpp b/src/variables/expression.hpp
index 282aa37..988a6da 100644
--- a/src/variables/expression.hpp
+++ b/src/variables/expression.hpp
@@ -242,6 +242,12 @@ struct ExpressionInfo {
     : positive(positive_), expression(expression_) {}
 };
 
+template<class vtype>
+struct StaticCast;
+
+template<class vtype, class vtype_orig, template<class> class CastType>
+class TypecastOp;
+
 /** Binary operator expression
  *
  * This expression calculates a value from two arguments according to a
@@ -256,11 +262,22 @@ class BinaryOp : public Expression<vtype>
 
     typedef BinaryOp<typename oper::Inverted, vtype> InvType;
     typedef std::shared_ptr<InvType> pInvType;
-    friend class BinaryOp<typename oper::Inverted, vtype>;
+    template<class otherOper, class otherType> friend class BinaryOp;
 
     /// pointers to the expressions to modify
     std::list<ExpressionInfo<vtype> > expressions;
   public:
+    /// The same operands and operators as another chain, each operand converted on its own
+    template<class otherOper, class otherType>
+    explicit BinaryOp(const BinaryOp<otherOper, otherType> &chain)
+    {
+      for(const ExpressionInfo<otherType> &exp: chain.expressions)
+      {
+        pExpression operand(new TypecastOp<vtype, otherType, StaticCast>(exp.expression));
+        expressions.push_back(ExpressionInfo<vtype>(exp.positive, operand));
+      }
+    }
+
     BinaryOp(pExpression expr1_, pExpression expr2_)
     {
       typedef std::shared_ptr<BinaryOp<oper, vtype> > pBinaryOp;
-- 
2.43.0


From a6aa4426088649ac79c56220cf8ed5bd067b0725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:00 +0000
Subject: [PATCH 38/38] fix: input too deeply nested for the parser's stack is
 reported instead of dropped

---
 parser/deckgrammar.y       | 4 ++++
 src/parser/deckgrammar.inc | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/parser/deckgrammar.y b/parser/deckgrammar.y
index b5bad7b..140eaaf 100644
--- a/parser/deckgrammar.y
+++ b/parser/deckgrammar.y
@@ -18,6 +18,10 @@
   throw ParserInternalError();
 }
 
+%stack_overflow {
+  throw ParserInternalError();
+}
+
 deck ::= statementlist. // --done--
 
 statementlist ::= statementlist statement. // --done--
diff --git a/src/parser/deckgrammar.inc b/src/parser/deckgrammar.inc
index cd5d02f..45eea08 100644
--- a/src/parser/deckgrammar.inc
+++ b/src/parser/deckgrammar.inc
@@ -615,6 +615,8 @@ static void yyStackOverflow(yyParser *yypParser, YYMINORTYPE *yypMinor){
    while( yypParser->yyidx>=0 ) yy_pop_parser_stack(yypParser);
    /* Here code is inserted which will execute if the parser
    ** stack every overflows */
+
+  throw ParserInternalError();
    ParseARG_STORE; /* Suppress warning about unused %extra_argument var */
 }
 
-- 
2.43.0

