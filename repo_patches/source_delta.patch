From 6cfb4711389b4d76581e1479aa7504d31b7d7f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 01/26] fix: linear index stride uses the extents that follow
 each index

---
 include/shiva/common/IndexTypes.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 83cb158..7dab5f1 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -59,11 +59,11 @@ stride( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & index )
   using IndexType = MultiIndexRange< BASE_INDEX_TYPE, RANGES... >;
 
   // call strideHelper on an integer_sequence that ranges from 0...(NUM_INDICES
-  // - 1 - INDEX).
+  // - 1 - INDEX), applied to the ranges that follow INDEX.
   // This will result in a fold expression that multiples entries of the ranges
-  // array for the integer_sequence.
+  // array from INDEX+1 to the end.
   return detail::strideHelper( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
-                               &(index.ranges[0]) );
+                               index.ranges + ( INDEX + 1 ) );
 }
 
 /**
-- 
2.43.0


From e38a03ac7a27d1b1fb3d813cb93c763f2c0384de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 02/26] fix: LinearTransform::setData maps each support point
 to its own coordinate entry

---
 include/shiva/geometry/mapping/LinearTransform.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index 63e78e3..f5c0969 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -112,6 +112,8 @@ public:
   constexpr SHIVA_HOST_DEVICE SHIVA_FORCE_INLINE void setData( T const & coords )
   {
 
+    constexpr int n0 = SupportIndexType::range( 0 );
+    constexpr int n1 = SupportIndexType::range( 1 );
     SupportIndexType index;
     forRange( index = {0, 0, 0}, [&] ( auto const & aa )
     {
@@ -121,7 +123,7 @@ public:
 
       for ( int i = 0; i < numDims; ++i )
       {
-        m_vertexCoords( a, b, c, i ) = coords[a + 2 * b + 4 * c][i];
+        m_vertexCoords( a, b, c, i ) = coords[a + n0 * ( b + n1 * c )][i];
       }
     } );
   }
-- 
2.43.0


From bb241f4158a83074fe3734c78cf88517bc3ae662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 03/26] fix: LinearTransform Jacobian does not depend on prior
 content of its output

---
 include/shiva/geometry/mapping/LinearTransform.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index f5c0969..b37889b 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -170,6 +170,11 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   constexpr int DIMS = Transform::numDims;
 
   auto const & nodeCoords = transform.getData();
+  forNestedSequence< DIMS, DIMS >( [&] ( auto const ici, auto const icj ) constexpr
+  {
+    J( decltype(ici)::value, decltype(icj)::value ) = 0;
+  } );
+
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     CArrayNd< REAL_TYPE, DIMS > const dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( pointCoordsParent );
@@ -217,6 +222,11 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   auto const & nodeCoords = transform.getData();
   constexpr REAL_TYPE qcoords[3] = { ( QUADRATURE::template coordinate< QA >() )... };
 
+  forNestedSequence< DIMS, DIMS >( [&] ( auto const ici, auto const icj ) constexpr
+  {
+    J( decltype(ici)::value, decltype(icj)::value ) = 0;
+  } );
+
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     constexpr CArrayNd< REAL_TYPE, DIMS > dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( qcoords );
-- 
2.43.0


From 098965edb9ac69b1f678f18e6d6f365a21856141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 04/26] fix: run-time Gauss-Lobatto coordinates for 6 to 9
 points

---
 include/shiva/functions/spacing/Spacing.hpp | 25 +++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/shiva/functions/spacing/Spacing.hpp b/include/shiva/functions/spacing/Spacing.hpp
index 8f5ca29..94b5d72 100644
--- a/include/shiva/functions/spacing/Spacing.hpp
+++ b/include/shiva/functions/spacing/Spacing.hpp
@@ -184,6 +184,31 @@ struct GaussLobattoSpacing
       // if ( index == 3 ) return  sqrt3div7;
       // if ( index == 4 ) return  1.0;
     }
+    else if constexpr ( N == 6 )
+    {
+      constexpr REAL_TYPE rval[6] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(),
+                                      coordinate< 3 >(), coordinate< 4 >(), coordinate< 5 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 7 )
+    {
+      constexpr REAL_TYPE rval[7] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(),
+                                      coordinate< 4 >(), coordinate< 5 >(), coordinate< 6 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 8 )
+    {
+      constexpr REAL_TYPE rval[8] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(),
+                                      coordinate< 4 >(), coordinate< 5 >(), coordinate< 6 >(), coordinate< 7 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 9 )
+    {
+      constexpr REAL_TYPE rval[9] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(),
+                                      coordinate< 3 >(), coordinate< 4 >(), coordinate< 5 >(),
+                                      coordinate< 6 >(), coordinate< 7 >(), coordinate< 8 >() };
+      return rval[index];
+    }
     return 0;
   }
 
-- 
2.43.0


From 8471618c796448915caa34acb36d2179b08c70e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 05/26] fix: basis functions compile as C++20

---
 include/shiva/functions/bases/BasisProduct.hpp  | 2 +-
 include/shiva/functions/bases/LagrangeBasis.hpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/shiva/functions/bases/BasisProduct.hpp b/include/shiva/functions/bases/BasisProduct.hpp
index 2e19417..f6119c2 100644
--- a/include/shiva/functions/bases/BasisProduct.hpp
+++ b/include/shiva/functions/bases/BasisProduct.hpp
@@ -94,7 +94,7 @@ struct BasisProduct
     // expand pack over number of dimensions
     return executeSequence< numDims >( [&]< int ... PRODUCT_TERM_INDEX > () constexpr
     {
-      return ( BASIS_TYPE::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
+      return ( BASIS_TYPES::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
     } );
 #else
     return executeSequence< numDims >( [&] ( auto ... PRODUCT_TERM_INDEX ) constexpr
diff --git a/include/shiva/functions/bases/LagrangeBasis.hpp b/include/shiva/functions/bases/LagrangeBasis.hpp
index 9330885..b65b6ae 100644
--- a/include/shiva/functions/bases/LagrangeBasis.hpp
+++ b/include/shiva/functions/bases/LagrangeBasis.hpp
@@ -119,10 +119,11 @@ public:
 #if __cplusplus >= 202002L
     return executeSequence< numSupportPoints >( [&coord]< int ... a > () constexpr
     {
-      auto func = [&coord]< int ... b > ( auto aa ) constexpr
+      REAL_TYPE const values[ numSupportPoints ] = { valueProductTerm< BF_INDEX, a >( coord )... };
+      auto func = [&values]< int ... b > ( auto aa ) constexpr
       {
         constexpr int aVal = decltype(aa)::value;
-        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< BF_INDEX, b, aVal >( coord ) * ... );
+        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< b, aVal >( values ) * ... );
       };
 
       return ( executeSequence< numSupportPoints >( func, std::integral_constant< int, a >{} ) + ... );
-- 
2.43.0


From a9204052b25873c4fbb7f3511f150243871d7871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 06/26] fix: NCube face counts do not overflow for
 representable results

---
 include/shiva/geometry/shapes/NCube.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/geometry/shapes/NCube.hpp b/include/shiva/geometry/shapes/NCube.hpp
index dc1b370..6366e17 100644
--- a/include/shiva/geometry/shapes/NCube.hpp
+++ b/include/shiva/geometry/shapes/NCube.hpp
@@ -76,7 +76,7 @@ public:
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE int numMCubes()
   {
     static_assert( M <= N, "M must be less than or equal to N" );
-    return mathUtilities::pow< int, N - M >( 2 ) * mathUtilities::factorial< int, N >::value / ( mathUtilities::factorial< int, M >::value * mathUtilities::factorial< int, N - M >::value );
+    return mathUtilities::pow< int, N - M >( 2 ) * mathUtilities::binomialCoefficient< int, N, M >::value;
   }
 
   /**
-- 
2.43.0


From 02cbf9c2b61bf22fcc17d9a7955a86d973a4847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 07/26] fix: ScalarView holds a pointer to the viewed scalar

---
 include/shiva/common/CArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/CArray.hpp b/include/shiva/common/CArray.hpp
index d7cb7d5..0d81841 100644
--- a/include/shiva/common/CArray.hpp
+++ b/include/shiva/common/CArray.hpp
@@ -271,7 +271,7 @@ using CArrayNd = CArray< T, T[CArrayHelper::size< DIMS ... >()], DIMS ... >;
  * @tparam T Type held in the scalar
  */
 template< typename T >
-using ScalarView = CArray< T, T, 1 >;
+using ScalarView = CArray< T, T * const, 1 >;
 
 /**
  * @brief Alias for a N-d array view.
-- 
2.43.0


From 95eff21ebb4db68939b5ecb8af78651e028b0ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 08/26] fix: umbrella header includes the geometry headers that
 exist

---
 include/shiva/Shiva.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/shiva/Shiva.hpp b/include/shiva/Shiva.hpp
index 6aa79b3..3714cac 100644
--- a/include/shiva/Shiva.hpp
+++ b/include/shiva/Shiva.hpp
@@ -11,6 +11,9 @@
  * ------------------------------------------------------------------------------------------------------------
  */
 
-#include "geometry/Cube.hpp"
-#include "geometry/Cuboid.hpp"
-#include "geometry/RectangularCuboid.hpp"
+#pragma once
+
+#include "geometry/shapes/NCube.hpp"
+#include "geometry/mapping/UniformScaling.hpp"
+#include "geometry/mapping/Scaling.hpp"
+#include "geometry/mapping/LinearTransform.hpp"
-- 
2.43.0


From 755ca1efff4b41049c0fa89d2783c0a606a27a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 09/26] fix: splitting an aggregate writes below the output
 directory only

---
 scripts/aggregateOrSplit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 251174e..45cca23 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -171,7 +171,10 @@ class HeaderFileManager:
                     if output:
                         output.close()
                     current_file = start_match.group(1)
-                    output = open(os.path.join(output_dir, current_file), 'w')
+                    # headers are recorded by absolute path: recreate it below output_dir
+                    output_path = os.path.join(output_dir, os.path.normpath(os.path.join(os.sep, current_file)).lstrip(os.sep))
+                    os.makedirs(os.path.dirname(output_path), exist_ok=True)
+                    output = open(output_path, 'w')
                 elif end_match:
                     if output:
                         output.close()
-- 
2.43.0


From bb7ce00a5a766e76e3b1c3c537c67b886653a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 10/26] fix: parent element gradients and Jacobians compile for
 float with clang

---
 .../finiteElementMethod/parentElements/ParentElement.hpp      | 2 +-
 include/shiva/geometry/mapping/JacobianTransforms.hpp         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp b/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
index 20c8a99..f2d2ea9 100644
--- a/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
+++ b/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
@@ -128,7 +128,7 @@ public:
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE CArrayNd< RealType, numDims >
   gradient( CoordType const & parentCoord, VAR_TYPE const & var )
   {
-    CArrayNd< RealType, numDims > rval = {0.0};
+    CArrayNd< RealType, numDims > rval = { RealType( 0 ) };
     forNestedSequence< BASIS_TYPE::numSupportPoints... >( [&] ( auto const ... ic_indices ) constexpr
     {
       CArrayNd< RealType, numDims > const grad = gradient< decltype(ic_indices)::value ... >( parentCoord );
diff --git a/include/shiva/geometry/mapping/JacobianTransforms.hpp b/include/shiva/geometry/mapping/JacobianTransforms.hpp
index 2b533f5..772eddf 100644
--- a/include/shiva/geometry/mapping/JacobianTransforms.hpp
+++ b/include/shiva/geometry/mapping/JacobianTransforms.hpp
@@ -48,7 +48,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 jacobian( BASE_GEOMETRY const & cell,
           REAL_TYPE const (&parentCoords)[3] )
 {
-  typename BASE_GEOMETRY::JacobianType J{0.0 };
+  typename BASE_GEOMETRY::JacobianType J{ REAL_TYPE( 0 ) };
   jacobian( cell, parentCoords, J );
   return J;
 }
@@ -58,7 +58,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 inverseJacobian( BASE_GEOMETRY const & cell,
                  REAL_TYPE const (&parentCoords)[3] )
 {
-  typename BASE_GEOMETRY::JacobianType invJ{ 0.0 };
+  typename BASE_GEOMETRY::JacobianType invJ{ REAL_TYPE( 0 ) };
   REAL_TYPE detJ;
   inverseJacobian( cell, parentCoords, invJ, detJ );
   return make_tuple( detJ, invJ );
-- 
2.43.0


From 7e483a7f8f47a7d3111c718661c020aa1188afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:58 +0000
Subject: [PATCH 11/26] fix: executeSequence forwards arguments to functions
 that do not take integral constants first

---
 include/shiva/common/SequenceUtilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/SequenceUtilities.hpp b/include/shiva/common/SequenceUtilities.hpp
index 02eeee4..193ee13 100644
--- a/include/shiva/common/SequenceUtilities.hpp
+++ b/include/shiva/common/SequenceUtilities.hpp
@@ -127,7 +127,7 @@ struct SequenceExpansion< std::integer_sequence< int, DIMENSION_INDICES... > >
     // This checks to see if the function is invocable with the parameter pack
     // provided as a template parameter. In other words, if the FUNC is a
     // function that takes the parameter pack as a function argument.
-    if constexpr ( std::is_invocable_v< FUNC, std::integral_constant< int, DIMENSION_INDICES >..., ARGS ... > )
+    if constexpr ( std::is_invocable_v< FUNC, ARGS ..., std::integral_constant< int, DIMENSION_INDICES >... > )
     {
       // calling func with the parameter packs ( args..., DIMENSION_INDICES...)
       // as arguments.
-- 
2.43.0


From 26094805a5298bb73107a87e4486cff7e642109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 12/26] fix: length of cubes and simplices does not overflow
 for extreme extents

---
 include/shiva/geometry/shapes/NCube.hpp    | 2 +-
 include/shiva/geometry/shapes/NSimplex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/geometry/shapes/NCube.hpp b/include/shiva/geometry/shapes/NCube.hpp
index 6366e17..d83ace9 100644
--- a/include/shiva/geometry/shapes/NCube.hpp
+++ b/include/shiva/geometry/shapes/NCube.hpp
@@ -173,7 +173,7 @@ public:
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE length()
   {
-    return static_cast< RealType >( MAX - MIN ) / DIVISOR;
+    return static_cast< RealType >( static_cast< long long >( MAX ) - MIN ) / DIVISOR;
   }
 
 
diff --git a/include/shiva/geometry/shapes/NSimplex.hpp b/include/shiva/geometry/shapes/NSimplex.hpp
index 5fec076..c899e22 100644
--- a/include/shiva/geometry/shapes/NSimplex.hpp
+++ b/include/shiva/geometry/shapes/NSimplex.hpp
@@ -170,7 +170,7 @@ public:
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE length()
   {
-    return static_cast< RealType >( MAX - MIN ) / DIVISOR;
+    return static_cast< RealType >( static_cast< long long >( MAX ) - MIN ) / DIVISOR;
   }
 
 
-- 
2.43.0


From 4553b9c192e9dd86e428b6ed7a7e8edf6a7db019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:18 +0000
Subject: [PATCH 13/26] fix: linear index strides do not overflow for wide
 index types

---
 include/shiva/common/IndexTypes.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 7dab5f1..e548a3d 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -30,18 +30,20 @@ namespace detail
 
 /**
  * @brief Helper function for calculating a stride.
+ * @tparam BASE_INDEX_TYPE the base type of the index, in which the stride is
+ * calculated.
  * @tparam INDICES variaic pack of the indices.
  * @param ranges The ranges.
  * @return The largest stride for the index pack.
  */
-template< int ... INDICES >
-SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE int
+template< typename BASE_INDEX_TYPE, int ... INDICES >
+SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE BASE_INDEX_TYPE
 strideHelper( std::integer_sequence< int, INDICES... >,
               int const * const ranges )
 {
   // return result of a fold expression that multiples all entries of the ranges
   // array
-  return ( ranges[INDICES] * ... *1);
+  return ( static_cast< BASE_INDEX_TYPE >( ranges[INDICES] ) * ... *1);
 }
 
 /**
@@ -62,8 +64,8 @@ stride( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & index )
   // - 1 - INDEX), applied to the ranges that follow INDEX.
   // This will result in a fold expression that multiples entries of the ranges
   // array from INDEX+1 to the end.
-  return detail::strideHelper( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
-                               index.ranges + ( INDEX + 1 ) );
+  return detail::strideHelper< BASE_INDEX_TYPE >( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
+                                                  index.ranges + ( INDEX + 1 ) );
 }
 
 /**
-- 
2.43.0


From 540c71dcb5cc18bef4188d72d29929aeafc8fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:18 +0000
Subject: [PATCH 14/26] fix: range loops accept every index type

---
 include/shiva/common/IndexTypes.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index e548a3d..15a8b34 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -107,8 +107,8 @@ forRangeHelper( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & start,
   // if we are at the last dimension, then call func on index
   if constexpr ( DIM == (IndexType::NUM_INDICES - 1) )
   {
-    int & a = index.data[DIM];
-    for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
+    BASE_INDEX_TYPE & a = index.data[DIM];
+    for ( a = start.data[DIM]; a < static_cast< BASE_INDEX_TYPE >( index.range( DIM ) ); ++a )
     {
       func( index );
     }
@@ -116,8 +116,8 @@ forRangeHelper( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & start,
   // otherwise, recurse until we get to the last index
   else
   {
-    int & a = index.data[DIM];
-    for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
+    BASE_INDEX_TYPE & a = index.data[DIM];
+    for ( a = start.data[DIM]; a < static_cast< BASE_INDEX_TYPE >( index.range( DIM ) ); ++a )
     {
       forRangeHelper< DIM + 1 >( start, index, func );
     }
-- 
2.43.0


From 3e86ad8d129e1d230f8a7a1fd20aa445149aa667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:01 +0000
Subject: [PATCH 15/26] fix: aggregation keeps the dependencies that follow an
 unresolvable one

---
 scripts/aggregateOrSplit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 45cca23..2a447b1 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -48,8 +48,8 @@ class HeaderFileManager:
                                 else:
                                     raise FileNotFoundError(f"Dependency not found: {resolved_path}")
                             else:
-                                raise FileNotFoundError(
-                                    f"Unable to resolve dependency: {included_file}")
+                                # report it, and go on with the other dependencies
+                                print(f"Error processing {header}: Unable to resolve dependency: {included_file}")
         except Exception as e:
             print(f"Error processing {header}: {e}")
 
-- 
2.43.0


From cf217e74f5e89c8bd067cfef9e7d1275fa57d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:01 +0000
Subject: [PATCH 16/26] fix: aggregation separates headers that do not end with
 a newline

---
 scripts/aggregateOrSplit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 2a447b1..caf79ff 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -136,7 +136,7 @@ class HeaderFileManager:
                         output.write(f"// {line.strip()}\n")
                     else:
                         # Write all other lines as is
-                        output.write(line)
+                        output.write(line if line.endswith("\n") else line + "\n")
                 output.write(f"// ===== End of {header_path} =====\n")
 
         with open(output_file, 'w') as output:
-- 
2.43.0


From bbd9a0f874c49cab7cea90c465927b7fb7c1de22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:01 +0000
Subject: [PATCH 17/26] fix: aggregation recognises indented include directives

---
 scripts/aggregateOrSplit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index caf79ff..237d016 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -31,7 +31,7 @@ class HeaderFileManager:
         try:
             with open(header, 'r') as file:
                 for line in file:
-                    include_match = re.match(r'#include\s+"([^"]+)"', line)
+                    include_match = re.match(r'\s*#\s*include\s*"([^"]+)"', line)
                     if include_match:
                         included_file = include_match.group(1)
 
@@ -126,8 +126,8 @@ class HeaderFileManager:
             with open(header_path, 'r') as file:
                 output.write(f"\n\n// ===== Start of {header_path} =====\n")
                 for line in file:
-                    include_match = re.match(r'#include\s+"([^"]+)"', line)
-                    pragma_once_match = re.match(r'#pragma\s+once', line, re.IGNORECASE)
+                    include_match = re.match(r'\s*#\s*include\s*"([^"]+)"', line)
+                    pragma_once_match = re.match(r'\s*#\s*pragma\s+once', line, re.IGNORECASE)
                     if include_match:
                         # Comment out include statements
                         output.write(f"// {line.strip()}\n")
-- 
2.43.0


From a3edc2063d959c24345cc937e8cd4891d1ad64d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:58 +0000
Subject: [PATCH 18/26] fix: by-value inverse Jacobian is usable in C++17
 constant expressions

---
 include/shiva/geometry/mapping/JacobianTransforms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/geometry/mapping/JacobianTransforms.hpp b/include/shiva/geometry/mapping/JacobianTransforms.hpp
index 772eddf..59be01d 100644
--- a/include/shiva/geometry/mapping/JacobianTransforms.hpp
+++ b/include/shiva/geometry/mapping/JacobianTransforms.hpp
@@ -38,7 +38,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 inverseJacobian( BASE_GEOMETRY const & cell )
 {
   typename BASE_GEOMETRY::JacobianType invJ;
-  REAL_TYPE detJ;
+  REAL_TYPE detJ = 0;
   inverseJacobian( cell, invJ, detJ );
   return make_tuple( detJ, invJ );
 }
@@ -59,7 +59,7 @@ inverseJacobian( BASE_GEOMETRY const & cell,
                  REAL_TYPE const (&parentCoords)[3] )
 {
   typename BASE_GEOMETRY::JacobianType invJ{ REAL_TYPE( 0 ) };
-  REAL_TYPE detJ;
+  REAL_TYPE detJ = 0;
   inverseJacobian( cell, parentCoords, invJ, detJ );
   return make_tuple( detJ, invJ );
 }
-- 
2.43.0


From e9855af3ba265da91383ae733f651242b3a36b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:23 +0000
Subject: [PATCH 19/26] fix: tolerance check does not depend on squares that
 underflow or overflow

---
 include/shiva/common/pmpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index a6f133e..08282bd 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -71,7 +71,7 @@ namespace pmpl
 template< typename REAL_TYPE >
 static constexpr bool check( REAL_TYPE const a, REAL_TYPE const b, REAL_TYPE const tolerance )
 {
-  return ( a - b ) * ( a - b ) < tolerance * tolerance;
+  return ( a - b ) < tolerance && ( b - a ) < tolerance;
 }
 
 
-- 
2.43.0


From e60e2d8d16a2efca38620e879244c20585aae44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 20/26] fix: HIP builds of kernel launches with data use HIP's
 name for the direction of the copy

genericKernelWrapper( N, data, ... ) named cudaMemcpyHostToDevice, which a HIP build does not have.
---
 include/shiva/common/pmpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index 08282bd..1c2a76f 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -36,6 +36,7 @@ namespace shiva
 #define deviceFree( PTR ) cudaFree( PTR );
 #define deviceError_t cudaError_t
 #define deviceGetErrorString    cudaGetErrorString
+#define deviceMemcpyHostToDevice cudaMemcpyHostToDevice
 #define deviceMemcpyDeviceToHost cudaMemcpyDeviceToHost
 constexpr cudaError_t deviceSuccess = cudaSuccess;
 #elif defined(SHIVA_ENABLE_HIP)
@@ -46,6 +47,7 @@ constexpr cudaError_t deviceSuccess = cudaSuccess;
 #define deviceFree( PTR ) hipFree( PTR );
 #define deviceError_t hipError_t
 #define deviceGetErrorString    hipGetErrorString
+#define deviceMemcpyHostToDevice hipMemcpyHostToDevice
 #define deviceMemcpyDeviceToHost hipMemcpyDeviceToHost
 constexpr hipError_t deviceSuccess = hipSuccess;
 #endif
@@ -159,7 +161,7 @@ void genericKernelWrapper( int const N, DATA_TYPE * const hostData, LAMBDA && fu
 #if defined(SHIVA_ENABLE_DEVICE)
   DATA_TYPE * deviceData;
   deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
-  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), cudaMemcpyHostToDevice );
+  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
   // UNCRUSTIFY-OFF
   genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
   // UNCRUSTIFY-ON
-- 
2.43.0


From 53e3beccf34e67b3c9fbd793abfd36005c4d876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 21/26] fix: aggregate include chains deeper than Python's
 recursion limit

---
 scripts/aggregateOrSplit.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 237d016..fe26db8 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -20,10 +20,20 @@ class HeaderFileManager:
         if include_paths is None:
             include_paths = []
 
+        # not by recursion: chains of includes may be longer than the recursion limit
+        pending = [header]
+        while pending:
+            pending.extend(reversed(self.add_dependencies(pending.pop(), include_paths)))
+
+    def add_dependencies(self, header, include_paths):
+        """
+        Adds the given header and its direct dependencies to the graph, and returns these dependencies.
+        """
         header = os.path.abspath(header)  # Normalize here
+        included_headers = []
 
         if header in self.dependencies:
-            return  # Already processed
+            return included_headers  # Already processed
 
         self.dependencies[header] = set()
         base_path = os.path.dirname(header)  # Base directory of the current header
@@ -43,8 +53,8 @@ class HeaderFileManager:
                                 self.dependencies[header].add(resolved_path)
 
                                 if os.path.exists(resolved_path):
-                                    # Recursively process the resolved file
-                                    self.create_dependency_graph(resolved_path, include_paths)
+                                    # Process the resolved file later
+                                    included_headers.append(resolved_path)
                                 else:
                                     raise FileNotFoundError(f"Dependency not found: {resolved_path}")
                             else:
@@ -59,6 +69,8 @@ class HeaderFileManager:
                 self.dependents[dependency] = set()
             self.dependents[dependency].add(header)
 
+        return included_headers
+
     def resolve_path(self, included_file, base_path, include_paths):
         """
         Resolves the path of an included file using the following order:
-- 
2.43.0


From 8fadd65960bf91aaf158ef663b57efab969034a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 22/26] fix: aggregation reports circular includes instead of
 looping forever

---
 scripts/aggregateOrSplit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index fe26db8..6bd9bb8 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -113,6 +113,9 @@ class HeaderFileManager:
                         unique_files.add(abs_key)
                     local_included.append(key)
 
+            if not local_included:
+                raise RuntimeError("Circular includes, or headers that need them: " + ", ".join(sorted(remaining_dependencies)))
+
             for included_key in local_included:
                 del remaining_dependencies[included_key]
 
-- 
2.43.0


From 12bb38dbae6618f89684f9a3403ea9bb52b395db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 23/26] fix: the installed package provides Shiva::shiva, as a
 subdirectory build does

---
 cmake/ShivaConfig.cmake.in | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmake/ShivaConfig.cmake.in b/cmake/ShivaConfig.cmake.in
index 5310614..1fe57b2 100644
--- a/cmake/ShivaConfig.cmake.in
+++ b/cmake/ShivaConfig.cmake.in
@@ -8,5 +8,10 @@ include(CMakeFindDependencyMacro)
 # Import the exported targets for this package
 include("${CMAKE_CURRENT_LIST_DIR}/ShivaTargets.cmake")
 
+# The name of the target in a build that adds Shiva as a subdirectory
+if( NOT TARGET Shiva::shiva )
+  add_library( Shiva::shiva ALIAS Shiva::Shiva )
+endif()
+
 # (Optional) convenience vars
 set(Shiva_INCLUDE_DIRS "${PACKAGE_PREFIX_DIR}/@CMAKE_INSTALL_INCLUDEDIR@")
-- 
2.43.0


From 1f944e08fd66f8e060ec6c42d6a6b2642c608290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:14 +0000
Subject: [PATCH 24/26] fix: config-build passes paths and arguments with
 blanks or special characters on unchanged

---
 scripts/config-build.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index a345ac7..fbaae7b 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -8,6 +8,7 @@ import os
 import subprocess
 import argparse
 import platform
+import shlex
 import shutil
 
 def extract_cmake_location(file_path):
@@ -137,11 +138,11 @@ cmakeline = "cmake"
 assert cmakeline, "Host config file doesn't contain valid cmake location, value was %s" % cmakeline
 
 # Add cache file option
-cmakeline += " -C %s" % cachefile
+cmakeline += " -C %s" % shlex.quote( cachefile )
 # Add build type (opt or debug)
 cmakeline += " -DCMAKE_BUILD_TYPE=" + args.buildtype
 # Set install dir
-cmakeline += " -DCMAKE_INSTALL_PREFIX=%s" % installpath
+cmakeline += " -DCMAKE_INSTALL_PREFIX=%s" % shlex.quote( installpath )
 
 if args.exportcompilercommands:
     cmakeline += " -DCMAKE_EXPORT_COMPILE_COMMANDS=on"
@@ -161,9 +162,9 @@ if args.graphviz:
 
 
 if unknown_args:
-    cmakeline += " " + " ".join( unknown_args )
+    cmakeline += " " + " ".join( shlex.quote( arg ) for arg in unknown_args )
 
-cmakeline += " %s/.. " % scriptsdir
+cmakeline += " %s/.. " % shlex.quote( scriptsdir )
 
 # Dump the cmake command to file for convenience
 cmdfile = open("%s/cmake_cmd" % buildpath, "w")
-- 
2.43.0


From 685b8e923716de87cd237f242bcec63f3ad20336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:14 +0000
Subject: [PATCH 25/26] fix: config-build exits with an error when CMake fails

---
 scripts/config-build.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index fbaae7b..e0c8c33 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -182,10 +182,13 @@ os.chdir(buildpath)
 print("Executing cmake line: '%s'\n" % cmakeline)
 
 try:
-    subprocess.call(cmakeline,shell=True)
+    status = subprocess.call(cmakeline,shell=True)
     if args.graphviz:
         subprocess.call(dot_line, shell=True)
 except:
+    status = 1
+
+if status != 0:
     print("CMake failed.  See above output for details.")
     sys.exit(1)
 
-- 
2.43.0


From 432f060f16effa1e4b02028ab8f72f3a49747030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:24 +0000
Subject: [PATCH 26/26] fix: config-build keeps the new build directory when it
 is inside the install directory

---
 scripts/config-build.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index e0c8c33..9a33dc4 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -106,9 +106,6 @@ if os.path.exists(buildpath):
      print("Build directory '%s' already exists.  Deleting..." % buildpath)
      shutil.rmtree(buildpath)
 
-print("Creating build directory '%s'..." % buildpath)
-os.makedirs(buildpath)
-
 #####################
 # Setup Install Dir
 #####################
@@ -126,8 +123,12 @@ if os.path.exists(installpath):
      print("Install directory '%s' already exists, deleting..." % installpath)
      shutil.rmtree(installpath)
 
+# Only now, as one of the directories may be inside of the other
+print("Creating build directory '%s'..." % buildpath)
+os.makedirs(buildpath)
+
 print("Creating install path '%s'..." % installpath)
-os.makedirs(installpath)
+os.makedirs(installpath, exist_ok=True)
 
 ############################
 # Build CMake command line
-- 
2.43.0

