From e8c4c9aa99f58e065d6206ae9e9411d94372fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 01/30] fix: stride of a multi-index is the product of the
 trailing ranges

The leading ranges were multiplied, so that linearIndex was not a bijection
(and did not match the layout of CArrayNd) unless all ranges were equal.
---
 include/shiva/common/IndexTypes.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 83cb158..b2ecd5e 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -59,11 +59,11 @@ stride( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & index )
   using IndexType = MultiIndexRange< BASE_INDEX_TYPE, RANGES... >;
 
   // call strideHelper on an integer_sequence that ranges from 0...(NUM_INDICES
-  // - 1 - INDEX).
-  // This will result in a fold expression that multiples entries of the ranges
-  // array for the integer_sequence.
+  // - 1 - INDEX), applied to the ranges that trail INDEX.
+  // This will result in a fold expression that multiples the entries of the
+  // ranges array that follow INDEX.
   return detail::strideHelper( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
-                               &(index.ranges[0]) );
+                               index.ranges + INDEX + 1 );
 }
 
 /**
-- 
2.43.0


From e5d764242261fdf9e1923c8be961195874aa3e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 02/30] fix: allow forRange over multi-indices whose base index
 type is not int

---
 include/shiva/common/IndexTypes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index b2ecd5e..9336898 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -105,7 +105,7 @@ forRangeHelper( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & start,
   // if we are at the last dimension, then call func on index
   if constexpr ( DIM == (IndexType::NUM_INDICES - 1) )
   {
-    int & a = index.data[DIM];
+    BASE_INDEX_TYPE & a = index.data[DIM];
     for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
     {
       func( index );
@@ -114,7 +114,7 @@ forRangeHelper( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & start,
   // otherwise, recurse until we get to the last index
   else
   {
-    int & a = index.data[DIM];
+    BASE_INDEX_TYPE & a = index.data[DIM];
     for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
     {
       forRangeHelper< DIM + 1 >( start, index, func );
-- 
2.43.0


From d48bd743861f42d034412911e7d2bfc4372f753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 03/30] fix: executeSequence checks invocability with the
 arguments in call order

The arguments come before the indices in the call, but came after them in the
check, so functions with strongly typed leading arguments were rejected.
---
 include/shiva/common/SequenceUtilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/SequenceUtilities.hpp b/include/shiva/common/SequenceUtilities.hpp
index 02eeee4..193ee13 100644
--- a/include/shiva/common/SequenceUtilities.hpp
+++ b/include/shiva/common/SequenceUtilities.hpp
@@ -127,7 +127,7 @@ struct SequenceExpansion< std::integer_sequence< int, DIMENSION_INDICES... > >
     // This checks to see if the function is invocable with the parameter pack
     // provided as a template parameter. In other words, if the FUNC is a
     // function that takes the parameter pack as a function argument.
-    if constexpr ( std::is_invocable_v< FUNC, std::integral_constant< int, DIMENSION_INDICES >..., ARGS ... > )
+    if constexpr ( std::is_invocable_v< FUNC, ARGS ..., std::integral_constant< int, DIMENSION_INDICES >... > )
     {
       // calling func with the parameter packs ( args..., DIMENSION_INDICES...)
       // as arguments.
-- 
2.43.0


From 61df0ce776abf4e5762b1e4f1e347a03fcf44e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 04/30] fix: ScalarView holds a pointer to its data

With a value as the buffer no accessor of the alias could be compiled.
---
 include/shiva/common/CArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/CArray.hpp b/include/shiva/common/CArray.hpp
index d7cb7d5..0d81841 100644
--- a/include/shiva/common/CArray.hpp
+++ b/include/shiva/common/CArray.hpp
@@ -271,7 +271,7 @@ using CArrayNd = CArray< T, T[CArrayHelper::size< DIMS ... >()], DIMS ... >;
  * @tparam T Type held in the scalar
  */
 template< typename T >
-using ScalarView = CArray< T, T, 1 >;
+using ScalarView = CArray< T, T * const, 1 >;
 
 /**
  * @brief Alias for a N-d array view.
-- 
2.43.0


From 0d4c01bcfb901370c0ba6c414663062852801bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 05/30] fix: calculate the strides of a multi-index in its base
 index type

The product of the ranges was calculated as an int, and overflowed for 64 bit
multi-indices with more than 2^31 entries.
---
 include/shiva/common/IndexTypes.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 9336898..c91ea0b 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -30,18 +30,19 @@ namespace detail
 
 /**
  * @brief Helper function for calculating a stride.
+ * @tparam BASE_INDEX_TYPE the type in which the stride is calculated.
  * @tparam INDICES variaic pack of the indices.
  * @param ranges The ranges.
  * @return The largest stride for the index pack.
  */
-template< int ... INDICES >
-SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE int
+template< typename BASE_INDEX_TYPE, int ... INDICES >
+SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE BASE_INDEX_TYPE
 strideHelper( std::integer_sequence< int, INDICES... >,
               int const * const ranges )
 {
   // return result of a fold expression that multiples all entries of the ranges
   // array
-  return ( ranges[INDICES] * ... *1);
+  return ( static_cast< BASE_INDEX_TYPE >( ranges[INDICES] ) * ... * static_cast< BASE_INDEX_TYPE >( 1 ) );
 }
 
 /**
@@ -62,8 +63,8 @@ stride( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & index )
   // - 1 - INDEX), applied to the ranges that trail INDEX.
   // This will result in a fold expression that multiples the entries of the
   // ranges array that follow INDEX.
-  return detail::strideHelper( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
-                               index.ranges + INDEX + 1 );
+  return detail::strideHelper< BASE_INDEX_TYPE >( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
+                                                  index.ranges + INDEX + 1 );
 }
 
 /**
-- 
2.43.0


From 0ee1395ea2f5cc17428c7ffde94806a164f5377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 06/30] fix: the C++20 branch of LagrangeBasis::gradient did
 not compile

It called valueProductFactor with the signature of an earlier version.
---
 include/shiva/functions/bases/LagrangeBasis.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/shiva/functions/bases/LagrangeBasis.hpp b/include/shiva/functions/bases/LagrangeBasis.hpp
index 9330885..b65b6ae 100644
--- a/include/shiva/functions/bases/LagrangeBasis.hpp
+++ b/include/shiva/functions/bases/LagrangeBasis.hpp
@@ -119,10 +119,11 @@ public:
 #if __cplusplus >= 202002L
     return executeSequence< numSupportPoints >( [&coord]< int ... a > () constexpr
     {
-      auto func = [&coord]< int ... b > ( auto aa ) constexpr
+      REAL_TYPE const values[ numSupportPoints ] = { valueProductTerm< BF_INDEX, a >( coord )... };
+      auto func = [&values]< int ... b > ( auto aa ) constexpr
       {
         constexpr int aVal = decltype(aa)::value;
-        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< BF_INDEX, b, aVal >( coord ) * ... );
+        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< b, aVal >( values ) * ... );
       };
 
       return ( executeSequence< numSupportPoints >( func, std::integral_constant< int, a >{} ) + ... );
-- 
2.43.0


From b153d57fa7d9a7729d642d1e4acf4b852d8ee399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 07/30] fix: the C++20 branches of BasisProduct did not compile

---
 include/shiva/functions/bases/BasisProduct.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/functions/bases/BasisProduct.hpp b/include/shiva/functions/bases/BasisProduct.hpp
index 2e19417..e072e52 100644
--- a/include/shiva/functions/bases/BasisProduct.hpp
+++ b/include/shiva/functions/bases/BasisProduct.hpp
@@ -94,7 +94,7 @@ struct BasisProduct
     // expand pack over number of dimensions
     return executeSequence< numDims >( [&]< int ... PRODUCT_TERM_INDEX > () constexpr
     {
-      return ( BASIS_TYPE::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
+      return ( BASIS_TYPES::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
     } );
 #else
     return executeSequence< numDims >( [&] ( auto ... PRODUCT_TERM_INDEX ) constexpr
@@ -142,7 +142,7 @@ struct BasisProduct
         return ( gradientComponentHelper< BASIS_TYPES,
                                           decltype(iGrad)::value,
                                           BASIS_FUNCTION_INDICES,
-                                          PRODUCT_TERM_INDICES >( parentCoord ) * ... );
+                                          decltype(PRODUCT_TERM_INDICES)::value >( parentCoord ) * ... );
       };
 
       return { (executeSequence< numDims >( gradientComponent, std::integral_constant< int, i >{} ) )...  };
-- 
2.43.0


From 11775145c760312474e977c96fe549c2aab40074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 08/30] fix: Shiva.hpp includes the headers that exist

It included headers that were renamed, so that it could not be compiled.
---
 include/shiva/Shiva.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/shiva/Shiva.hpp b/include/shiva/Shiva.hpp
index 6aa79b3..ceee85a 100644
--- a/include/shiva/Shiva.hpp
+++ b/include/shiva/Shiva.hpp
@@ -11,6 +11,17 @@
  * ------------------------------------------------------------------------------------------------------------
  */
 
-#include "geometry/Cube.hpp"
-#include "geometry/Cuboid.hpp"
-#include "geometry/RectangularCuboid.hpp"
+#pragma once
+
+#include "discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
+#include "functions/bases/BasisProduct.hpp"
+#include "functions/bases/LagrangeBasis.hpp"
+#include "functions/quadrature/Quadrature.hpp"
+#include "functions/spacing/Spacing.hpp"
+#include "geometry/mapping/JacobianTransforms.hpp"
+#include "geometry/mapping/LinearTransform.hpp"
+#include "geometry/mapping/Scaling.hpp"
+#include "geometry/mapping/UniformScaling.hpp"
+#include "geometry/shapes/InterpolatedShape.hpp"
+#include "geometry/shapes/NCube.hpp"
+#include "geometry/shapes/NSimplex.hpp"
-- 
2.43.0


From 44e0daeadda4e3d34bbb01229f1141fb249109e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 09/30] fix: NCube::numMCubes no longer overflows for cubes of
 10 or more dimensions

2^(N-M) * N! does not fit in an int, although the number of m-cubes does.
---
 include/shiva/geometry/shapes/NCube.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/geometry/shapes/NCube.hpp b/include/shiva/geometry/shapes/NCube.hpp
index dc1b370..6366e17 100644
--- a/include/shiva/geometry/shapes/NCube.hpp
+++ b/include/shiva/geometry/shapes/NCube.hpp
@@ -76,7 +76,7 @@ public:
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE int numMCubes()
   {
     static_assert( M <= N, "M must be less than or equal to N" );
-    return mathUtilities::pow< int, N - M >( 2 ) * mathUtilities::factorial< int, N >::value / ( mathUtilities::factorial< int, M >::value * mathUtilities::factorial< int, N - M >::value );
+    return mathUtilities::pow< int, N - M >( 2 ) * mathUtilities::binomialCoefficient< int, N, M >::value;
   }
 
   /**
-- 
2.43.0


From 804a1ef204c102d136f244d04934249459c0ea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 10/30] fix: LinearTransform::setData strides by the number of
 support points

The strides of the 2x2x2 case were used for all orders, so that the vertices of
higher order shapes were given the coordinates of other vertices.
---
 include/shiva/geometry/mapping/LinearTransform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index 63e78e3..77243c4 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -121,7 +121,7 @@ public:
 
       for ( int i = 0; i < numDims; ++i )
       {
-        m_vertexCoords( a, b, c, i ) = coords[a + 2 * b + 4 * c][i];
+        m_vertexCoords( a, b, c, i ) = coords[a + SupportIndexType::range( 0 ) * ( b + SupportIndexType::range( 1 ) * c )][i];
       }
     } );
   }
-- 
2.43.0


From 5cfc25612d02a71553fdd1553d55e56079f8c1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 11/30] fix: the Jacobian of a LinearTransform does not depend
 on the contents of J

J is an output, but was added to, so that an output that was used before gave
the sum of the Jacobians.
---
 include/shiva/geometry/mapping/LinearTransform.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index 77243c4..2ff550b 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -168,6 +168,7 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   constexpr int DIMS = Transform::numDims;
 
   auto const & nodeCoords = transform.getData();
+  J = typename Transform::JacobianType{};
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     CArrayNd< REAL_TYPE, DIMS > const dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( pointCoordsParent );
@@ -215,6 +216,7 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   auto const & nodeCoords = transform.getData();
   constexpr REAL_TYPE qcoords[3] = { ( QUADRATURE::template coordinate< QA >() )... };
 
+  J = typename Transform::JacobianType{};
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     constexpr CArrayNd< REAL_TYPE, DIMS > dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( qcoords );
-- 
2.43.0


From fd76a2155b6af7950a7e3ac11830a55f20a4ccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 12/30] fix: do not initialise single precision arrays with a
 double

The narrowing is an error with clang, so that the Jacobian functions and
ParentElement::gradient could not be used with float.
---
 .../finiteElementMethod/parentElements/ParentElement.hpp      | 2 +-
 include/shiva/geometry/mapping/JacobianTransforms.hpp         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp b/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
index 20c8a99..ba979dd 100644
--- a/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
+++ b/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
@@ -128,7 +128,7 @@ public:
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE CArrayNd< RealType, numDims >
   gradient( CoordType const & parentCoord, VAR_TYPE const & var )
   {
-    CArrayNd< RealType, numDims > rval = {0.0};
+    CArrayNd< RealType, numDims > rval = {};
     forNestedSequence< BASIS_TYPE::numSupportPoints... >( [&] ( auto const ... ic_indices ) constexpr
     {
       CArrayNd< RealType, numDims > const grad = gradient< decltype(ic_indices)::value ... >( parentCoord );
diff --git a/include/shiva/geometry/mapping/JacobianTransforms.hpp b/include/shiva/geometry/mapping/JacobianTransforms.hpp
index 2b533f5..f131fb8 100644
--- a/include/shiva/geometry/mapping/JacobianTransforms.hpp
+++ b/include/shiva/geometry/mapping/JacobianTransforms.hpp
@@ -48,7 +48,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 jacobian( BASE_GEOMETRY const & cell,
           REAL_TYPE const (&parentCoords)[3] )
 {
-  typename BASE_GEOMETRY::JacobianType J{0.0 };
+  typename BASE_GEOMETRY::JacobianType J{};
   jacobian( cell, parentCoords, J );
   return J;
 }
@@ -58,7 +58,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 inverseJacobian( BASE_GEOMETRY const & cell,
                  REAL_TYPE const (&parentCoords)[3] )
 {
-  typename BASE_GEOMETRY::JacobianType invJ{ 0.0 };
+  typename BASE_GEOMETRY::JacobianType invJ{};
   REAL_TYPE detJ;
   inverseJacobian( cell, parentCoords, invJ, detJ );
   return make_tuple( detJ, invJ );
-- 
2.43.0


From 793e6c660b0883719a793de144a7904f116603d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 13/30] fix: run time coordinates of the Gauss-Lobatto spacings
 with 6 to 9 points

coordinate( index ) returned 0 for every point, although coordinate< INDEX >()
provides them.
---
 include/shiva/functions/spacing/Spacing.hpp | 25 +++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/shiva/functions/spacing/Spacing.hpp b/include/shiva/functions/spacing/Spacing.hpp
index 8f5ca29..9d7854a 100644
--- a/include/shiva/functions/spacing/Spacing.hpp
+++ b/include/shiva/functions/spacing/Spacing.hpp
@@ -184,6 +184,31 @@ struct GaussLobattoSpacing
       // if ( index == 3 ) return  sqrt3div7;
       // if ( index == 4 ) return  1.0;
     }
+    else if constexpr ( N == 6 )
+    {
+      constexpr REAL_TYPE rval[6] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(),
+                                      coordinate< 4 >(), coordinate< 5 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 7 )
+    {
+      constexpr REAL_TYPE rval[7] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(),
+                                      coordinate< 4 >(), coordinate< 5 >(), coordinate< 6 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 8 )
+    {
+      constexpr REAL_TYPE rval[8] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(),
+                                      coordinate< 4 >(), coordinate< 5 >(), coordinate< 6 >(), coordinate< 7 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 9 )
+    {
+      constexpr REAL_TYPE rval[9] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(),
+                                      coordinate< 4 >(), coordinate< 5 >(), coordinate< 6 >(), coordinate< 7 >(),
+                                      coordinate< 8 >() };
+      return rval[index];
+    }
     return 0;
   }
 
-- 
2.43.0


From 2cd889cc4919d3613e0035f1ab9fb0f4dc0200b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 14/30] fix: aggregateOrSplit.py split writes to the output
 directory

The absolute paths in the aggregated file replaced the output directory, so that
the headers that had been aggregated were overwritten.
---
 scripts/aggregateOrSplit.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 251174e..32f7b2d 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -162,6 +162,14 @@ class HeaderFileManager:
         current_file = None
         output = None
 
+        # The aggregated file names the headers by their absolute paths. They are
+        # written to output_dir, under their paths relative to the directory that
+        # is common to all of them.
+        with open(aggregated_file, 'r') as agg_file:
+            headers = re.findall(r'^// ===== Start of (.+) =====', agg_file.read(), re.MULTILINE)
+        directories = [os.path.dirname(os.path.abspath(header)) for header in headers]
+        common_directory = os.path.commonpath(directories) if directories else None
+
         with open(aggregated_file, 'r') as agg_file:
             for line in agg_file:
                 start_match = re.match(r'// ===== Start of (.+) =====', line)
@@ -170,8 +178,10 @@ class HeaderFileManager:
                 if start_match:
                     if output:
                         output.close()
-                    current_file = start_match.group(1)
-                    output = open(os.path.join(output_dir, current_file), 'w')
+                    current_file = os.path.relpath(os.path.abspath(start_match.group(1)), common_directory)
+                    current_file = os.path.join(output_dir, current_file)
+                    os.makedirs(os.path.dirname(current_file), exist_ok=True)
+                    output = open(current_file, 'w')
                 elif end_match:
                     if output:
                         output.close()
-- 
2.43.0


From ca7b31d56f26684026fcd4b196da2744968a4f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 15/30] fix: aggregateOrSplit.py marks the end of a header on a
 line of its own

The end marker of a header without a newline at its end was not recognized when
the file was split.
---
 scripts/aggregateOrSplit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 32f7b2d..242a5fa 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -126,6 +126,8 @@ class HeaderFileManager:
             with open(header_path, 'r') as file:
                 output.write(f"\n\n// ===== Start of {header_path} =====\n")
                 for line in file:
+                    if not line.endswith("\n"):
+                        line += "\n"
                     include_match = re.match(r'#include\s+"([^"]+)"', line)
                     pragma_once_match = re.match(r'#pragma\s+once', line, re.IGNORECASE)
                     if include_match:
-- 
2.43.0


From 10ef56bd956a617568ebbb807e58d73836cf495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 16/30] fix: aggregateOrSplit.py split restores the lines that
 aggregate commented out

The headers that were written had neither their includes nor their #pragma once.
---
 scripts/aggregateOrSplit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 242a5fa..4bd771b 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -9,6 +9,7 @@ class HeaderFileManager:
         self.included = set()  # Tracks already processed files
         self.included_list = []
         self.config_file = "ShivaConfig.hpp"
+        self.comment_prefix = "// [aggregated] "  # Comments out a line, to be restored by split
 
     def create_dependency_graph(self, header, include_paths=None):
         """
@@ -132,10 +133,10 @@ class HeaderFileManager:
                     pragma_once_match = re.match(r'#pragma\s+once', line, re.IGNORECASE)
                     if include_match:
                         # Comment out include statements
-                        output.write(f"// {line.strip()}\n")
+                        output.write(f"{self.comment_prefix}{line}")
                     elif pragma_once_match:
                         # Comment out #pragma once
-                        output.write(f"// {line.strip()}\n")
+                        output.write(f"{self.comment_prefix}{line}")
                     else:
                         # Write all other lines as is
                         output.write(line)
@@ -189,6 +190,8 @@ class HeaderFileManager:
                         output.close()
                         output = None
                 elif output:
+                    if line.startswith(self.comment_prefix):
+                        line = line[len(self.comment_prefix):]
                     output.write(line)
 
         if output:
-- 
2.43.0


From 231f258928c517918f493a149b0a4cb5129331ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 17/30] fix: aggregateOrSplit.py reports cyclic includes
 instead of looping forever

---
 scripts/aggregateOrSplit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 4bd771b..ba05717 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -102,6 +102,9 @@ class HeaderFileManager:
                         unique_files.add(abs_key)
                     local_included.append(key)
 
+            if not local_included:
+                raise RuntimeError(f"Cyclic dependency between: {sorted(remaining_dependencies)}")
+
             for included_key in local_included:
                 del remaining_dependencies[included_key]
 
-- 
2.43.0


From ea58ecb16fd9577f7021cd4098cfa6bd8c7ec13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 18/30] fix: config-build.py exits with an error when cmake
 fails

---
 scripts/config-build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index a345ac7..46e34e1 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -181,9 +181,9 @@ os.chdir(buildpath)
 print("Executing cmake line: '%s'\n" % cmakeline)
 
 try:
-    subprocess.call(cmakeline,shell=True)
+    subprocess.check_call(cmakeline,shell=True)
     if args.graphviz:
-        subprocess.call(dot_line, shell=True)
+        subprocess.check_call(dot_line, shell=True)
 except:
     print("CMake failed.  See above output for details.")
     sys.exit(1)
-- 
2.43.0


From 1033277ec25e4fec25aaf9e2c2f9345abb683815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 19/30] fix: length of cubes and simplices whose extent does
 not fit an int

---
 include/shiva/geometry/shapes/NCube.hpp    | 2 +-
 include/shiva/geometry/shapes/NSimplex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/geometry/shapes/NCube.hpp b/include/shiva/geometry/shapes/NCube.hpp
index 6366e17..d83ace9 100644
--- a/include/shiva/geometry/shapes/NCube.hpp
+++ b/include/shiva/geometry/shapes/NCube.hpp
@@ -173,7 +173,7 @@ public:
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE length()
   {
-    return static_cast< RealType >( MAX - MIN ) / DIVISOR;
+    return static_cast< RealType >( static_cast< long long >( MAX ) - MIN ) / DIVISOR;
   }
 
 
diff --git a/include/shiva/geometry/shapes/NSimplex.hpp b/include/shiva/geometry/shapes/NSimplex.hpp
index 5fec076..c899e22 100644
--- a/include/shiva/geometry/shapes/NSimplex.hpp
+++ b/include/shiva/geometry/shapes/NSimplex.hpp
@@ -170,7 +170,7 @@ public:
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE length()
   {
-    return static_cast< RealType >( MAX - MIN ) / DIVISOR;
+    return static_cast< RealType >( static_cast< long long >( MAX ) - MIN ) / DIVISOR;
   }
 
 
-- 
2.43.0


From d43d3a40d464a5bbc65b2a32626d16996aa0499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:12 +0000
Subject: [PATCH 20/30] fix: config-build.py passes arguments and paths with
 spaces to cmake unsplit

---
 scripts/config-build.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scripts/config-build.py b/scripts/config-build.py
index 46e34e1..37dcb6d 100755
--- a/scripts/config-build.py
+++ b/scripts/config-build.py
@@ -8,6 +8,7 @@ import os
 import subprocess
 import argparse
 import platform
+import shlex
 import shutil
 
 def extract_cmake_location(file_path):
@@ -137,11 +138,11 @@ cmakeline = "cmake"
 assert cmakeline, "Host config file doesn't contain valid cmake location, value was %s" % cmakeline
 
 # Add cache file option
-cmakeline += " -C %s" % cachefile
+cmakeline += " -C %s" % shlex.quote(cachefile)
 # Add build type (opt or debug)
 cmakeline += " -DCMAKE_BUILD_TYPE=" + args.buildtype
 # Set install dir
-cmakeline += " -DCMAKE_INSTALL_PREFIX=%s" % installpath
+cmakeline += " -DCMAKE_INSTALL_PREFIX=%s" % shlex.quote(installpath)
 
 if args.exportcompilercommands:
     cmakeline += " -DCMAKE_EXPORT_COMPILE_COMMANDS=on"
@@ -161,9 +162,9 @@ if args.graphviz:
 
 
 if unknown_args:
-    cmakeline += " " + " ".join( unknown_args )
+    cmakeline += " " + " ".join( shlex.quote(arg) for arg in unknown_args )
 
-cmakeline += " %s/.. " % scriptsdir
+cmakeline += " %s " % shlex.quote(scriptsdir + "/..")
 
 # Dump the cmake command to file for convenience
 cmdfile = open("%s/cmake_cmd" % buildpath, "w")
-- 
2.43.0


From c7443f0cf138365cc61b9d360aa1ee5e217c2138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 21/30] fix: the kernel wrapper for data compiles with HIP

---
 include/shiva/common/pmpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index a6f133e..4f84294 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -36,6 +36,7 @@ namespace shiva
 #define deviceFree( PTR ) cudaFree( PTR );
 #define deviceError_t cudaError_t
 #define deviceGetErrorString    cudaGetErrorString
+#define deviceMemcpyHostToDevice cudaMemcpyHostToDevice
 #define deviceMemcpyDeviceToHost cudaMemcpyDeviceToHost
 constexpr cudaError_t deviceSuccess = cudaSuccess;
 #elif defined(SHIVA_ENABLE_HIP)
@@ -46,6 +47,7 @@ constexpr cudaError_t deviceSuccess = cudaSuccess;
 #define deviceFree( PTR ) hipFree( PTR );
 #define deviceError_t hipError_t
 #define deviceGetErrorString    hipGetErrorString
+#define deviceMemcpyHostToDevice hipMemcpyHostToDevice
 #define deviceMemcpyDeviceToHost hipMemcpyDeviceToHost
 constexpr hipError_t deviceSuccess = hipSuccess;
 #endif
@@ -159,7 +161,7 @@ void genericKernelWrapper( int const N, DATA_TYPE * const hostData, LAMBDA && fu
 #if defined(SHIVA_ENABLE_DEVICE)
   DATA_TYPE * deviceData;
   deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
-  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), cudaMemcpyHostToDevice );
+  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
   // UNCRUSTIFY-OFF
   genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
   // UNCRUSTIFY-ON
-- 
2.43.0


From bd2370b1111176350fb65b0034991911edd95fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 22/30] fix: a reported assertion ends a kernel only if that is
 asked for

---
 include/shiva/common/ShivaErrorHandling.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/shiva/common/ShivaErrorHandling.hpp b/include/shiva/common/ShivaErrorHandling.hpp
index b3d885d..67f04cd 100644
--- a/include/shiva/common/ShivaErrorHandling.hpp
+++ b/include/shiva/common/ShivaErrorHandling.hpp
@@ -35,11 +35,14 @@ void shivaAssertionFailed( const char * file, int line, bool const callAbort, co
   printf( "Assertion failed [%s:%d]: ", file, line );
   printf( fmt );
   printf( "\n" );
+  if( callAbort )
+  {
 #if defined(__CUDA_ARCH__)
-  __trap();
+    __trap();
 #elif defined(__HIP_DEVICE_COMPILE__)
-  __builtin_trap();
+    __builtin_trap();
 #endif
+  }
 #else // Host
   fprintf( stderr, "Assertion failed [%s:%d]: ", file, line );
   va_list args;
-- 
2.43.0


From 18c7964676391ce16509fc88b8461b1e40b6cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 23/30] fix: assertions on the device print the arguments of
 their message

---
 include/shiva/common/ShivaErrorHandling.hpp | 47 ++++++++++++++-------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/include/shiva/common/ShivaErrorHandling.hpp b/include/shiva/common/ShivaErrorHandling.hpp
index 67f04cd..fd72255 100644
--- a/include/shiva/common/ShivaErrorHandling.hpp
+++ b/include/shiva/common/ShivaErrorHandling.hpp
@@ -20,20 +20,49 @@
 
 #include "ShivaMacros.hpp"
 
+/**
+ * @brief This function prints an assertion failure message and terminates the
+ * program on the host.
+ * @param file The name of the file where the assertion failed.
+ * @param line The line number where the assertion failed.
+ * @param callAbort If true, the program will abort after printing the message.
+ * @param fmt The format string for the message to print.
+ */
+inline
+void shivaAssertionFailedOnHost( const char * file, int line, bool const callAbort, const char * fmt, ... )
+{
+  fprintf( stderr, "Assertion failed [%s:%d]: ", file, line );
+  va_list args;
+  va_start( args, fmt );
+  vfprintf( stderr, fmt, args );
+  va_end( args );
+  fprintf( stderr, "\n" );
+  if( callAbort )
+  {
+    // LCOV_EXCL_START
+    fprintf( stderr, "Aborting...\n" );
+    std::abort();
+    // LCOV_EXCL_STOP
+  }
+}
+
 /**
  * @brief This function is used to print an assertion failure message and
  * terminate the program.
+ * @tparam ARGS The types of the arguments of the message.
  * @param file The name of the file where the assertion failed.
  * @param line The line number where the assertion failed.
  * @param callAbort If true, the program will abort or trap after printing the message.
  * @param fmt The format string for the message to print.
+ * @param args The arguments of the message.
  */
+template< typename ... ARGS >
 SHIVA_HOST_DEVICE inline
-void shivaAssertionFailed( const char * file, int line, bool const callAbort, const char * fmt, ... )
+void shivaAssertionFailed( const char * file, int line, bool const callAbort, const char * fmt, ARGS ... args )
 {
 #if defined(__CUDA_ARCH__) || defined(__HIP_DEVICE_COMPILE__)
   printf( "Assertion failed [%s:%d]: ", file, line );
-  printf( fmt );
+  printf( fmt, args ... );
   printf( "\n" );
   if( callAbort )
   {
@@ -44,18 +73,6 @@ void shivaAssertionFailed( const char * file, int line, bool const callAbort, co
 #endif
   }
 #else // Host
-  fprintf( stderr, "Assertion failed [%s:%d]: ", file, line );
-  va_list args;
-  va_start( args, fmt );
-  vfprintf( stderr, fmt, args );
-  va_end( args );
-  fprintf( stderr, "\n" );
-  if( callAbort )
-  {
-    // LCOV_EXCL_START
-    fprintf( stderr, "Aborting...\n" );
-    std::abort();
-    // LCOV_EXCL_STOP
-  }
+  shivaAssertionFailedOnHost( file, line, callAbort, fmt, args ... );
 #endif
 }
-- 
2.43.0


From 51664c4909ebc4c42b69f543a537c623aa6dcce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 24/30] fix: the kernel wrapper reports errors of launch,
 allocation and copies

---
 include/shiva/common/pmpl.hpp | 38 ++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index 4f84294..0f5c0cc 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -36,6 +36,7 @@ namespace shiva
 #define deviceFree( PTR ) cudaFree( PTR );
 #define deviceError_t cudaError_t
 #define deviceGetErrorString    cudaGetErrorString
+#define deviceGetLastError    cudaGetLastError
 #define deviceMemcpyHostToDevice cudaMemcpyHostToDevice
 #define deviceMemcpyDeviceToHost cudaMemcpyDeviceToHost
 constexpr cudaError_t deviceSuccess = cudaSuccess;
@@ -47,6 +48,7 @@ constexpr cudaError_t deviceSuccess = cudaSuccess;
 #define deviceFree( PTR ) hipFree( PTR );
 #define deviceError_t hipError_t
 #define deviceGetErrorString    hipGetErrorString
+#define deviceGetLastError    hipGetLastError
 #define deviceMemcpyHostToDevice hipMemcpyHostToDevice
 #define deviceMemcpyDeviceToHost hipMemcpyDeviceToHost
 constexpr hipError_t deviceSuccess = hipSuccess;
@@ -105,7 +107,11 @@ void genericKernelWrapper( LAMBDA && func, bool const abortOnError = true )
   // UNCRUSTIFY-OFF
   genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ) );
   // UNCRUSTIFY-ON
-  deviceError_t err = deviceDeviceSynchronize();
+  deviceError_t err = deviceGetLastError();
+  if ( err == deviceSuccess )
+  {
+    err = deviceDeviceSynchronize();
+  }
   if ( err != deviceSuccess )
   {
     printf( "Kernel failed: %s\n", deviceGetErrorString( err ));
@@ -159,17 +165,31 @@ void genericKernelWrapper( int const N, DATA_TYPE * const hostData, LAMBDA && fu
 {
 
 #if defined(SHIVA_ENABLE_DEVICE)
-  DATA_TYPE * deviceData;
-  deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
-  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
-  // UNCRUSTIFY-OFF
-  genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
-  // UNCRUSTIFY-ON
-  deviceError_t err = deviceDeviceSynchronize();
-  deviceMemCpy( hostData, deviceData, N * sizeof(DATA_TYPE), deviceMemcpyDeviceToHost );
+  DATA_TYPE * deviceData = nullptr;
+  deviceError_t err = deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
+  if ( err == deviceSuccess )
+  {
+    err = deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
+  }
+  if ( err == deviceSuccess )
+  {
+    // UNCRUSTIFY-OFF
+    genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
+    // UNCRUSTIFY-ON
+    err = deviceGetLastError();
+  }
+  if ( err == deviceSuccess )
+  {
+    err = deviceDeviceSynchronize();
+  }
+  if ( err == deviceSuccess )
+  {
+    err = deviceMemCpy( hostData, deviceData, N * sizeof(DATA_TYPE), deviceMemcpyDeviceToHost );
+  }
   deviceFree( deviceData );
   if ( err != deviceSuccess )
   {
+    deviceGetLastError(); // so that later calls do not see this error again
     printf( "Kernel failed: %s\n", deviceGetErrorString( err ));
     if ( abortOnError )
     {
-- 
2.43.0


From 25f644d877dde7ebcefeb4cb77ddb2b52117451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 25/30] fix: ranges beyond int of a multi-index with a wider
 base index type did not compile

---
 include/shiva/common/IndexTypes.hpp | 2 +-
 include/shiva/common/MultiIndex.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index c91ea0b..2f4f550 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -38,7 +38,7 @@ namespace detail
 template< typename BASE_INDEX_TYPE, int ... INDICES >
 SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE BASE_INDEX_TYPE
 strideHelper( std::integer_sequence< int, INDICES... >,
-              int const * const ranges )
+              BASE_INDEX_TYPE const * const ranges )
 {
   // return result of a fold expression that multiples all entries of the ranges
   // array
diff --git a/include/shiva/common/MultiIndex.hpp b/include/shiva/common/MultiIndex.hpp
index 0826173..2439918 100644
--- a/include/shiva/common/MultiIndex.hpp
+++ b/include/shiva/common/MultiIndex.hpp
@@ -61,14 +61,14 @@ struct MultiIndexRange
   static constexpr int NUM_INDICES = sizeof...(RANGES);
 
   /// contains the range for each index
-  static constexpr int ranges[NUM_INDICES] = { RANGES ...};
+  static constexpr BASE_INDEX_TYPE ranges[NUM_INDICES] = { RANGES ...};
 
   /**
    * @brief Returns the range for a given index.
    * @param i The index.
    * @return The range for the given index.
    */
-  SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE int range( int const i )
+  SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE BASE_INDEX_TYPE range( int const i )
   {
     return ranges[i];
   }
-- 
2.43.0


From 6e4c60aec34217bbfd5a57251e3b5e771771fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 26/30] fix: ci_build_and_test.sh passes the number of
 processors it found to the container

---
 scripts/ci_build_and_test.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ci_build_and_test.sh b/scripts/ci_build_and_test.sh
index a02fb61..66a222d 100755
--- a/scripts/ci_build_and_test.sh
+++ b/scripts/ci_build_and_test.sh
@@ -6,7 +6,7 @@ BUILD_DIR_MOUNT_POINT=/tmp/Shiva
 
 
 if [[ -z "${NPROC}" ]]; then
-  NPROC=$(nproc)
+  export NPROC=$(nproc)
 fi
 
 # We need to keep track of the building container (hence the `CONTAINER_NAME`)
-- 
2.43.0


From 399a7c39b5f26a7813bc21db2a1794bdf0bbc09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 27/30] fix: ci_build_and_test_in_container.sh fails when the
 result of the coverage cannot be copied

---
 scripts/ci_build_and_test_in_container.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ci_build_and_test_in_container.sh b/scripts/ci_build_and_test_in_container.sh
index d034dcf..6c060b0 100755
--- a/scripts/ci_build_and_test_in_container.sh
+++ b/scripts/ci_build_and_test_in_container.sh
@@ -67,7 +67,7 @@ fi
 if [[ "$*" == *--code-coverage* ]]; then
   or_die make -j ${NPROC} VERBOSE=1
   or_die make shiva_coverage
-  cp -r ${SHIVA_BUILD_DIR}/shiva_coverage.info.cleaned /tmp/Shiva/shiva_coverage.info.cleaned
+  or_die cp -r ${SHIVA_BUILD_DIR}/shiva_coverage.info.cleaned /tmp/Shiva/shiva_coverage.info.cleaned
 fi
 
 
-- 
2.43.0


From 59ff0cddf483ee4f3950f87db9dadc91dec65994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 28/30] Revert "fix: ci_build_and_test.sh passes the number of
 processors it found to the container"

This reverts commit 6e4c60aec34217bbfd5a57251e3b5e771771fccf.
---
 scripts/ci_build_and_test.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ci_build_and_test.sh b/scripts/ci_build_and_test.sh
index 66a222d..a02fb61 100755
--- a/scripts/ci_build_and_test.sh
+++ b/scripts/ci_build_and_test.sh
@@ -6,7 +6,7 @@ BUILD_DIR_MOUNT_POINT=/tmp/Shiva
 
 
 if [[ -z "${NPROC}" ]]; then
-  export NPROC=$(nproc)
+  NPROC=$(nproc)
 fi
 
 # We need to keep track of the building container (hence the `CONTAINER_NAME`)
-- 
2.43.0


From 54589b06b31ef53da821677a0269465e81296cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 29/30] fix: the comparison with a tolerance is right for
 differences whose squares overflow or vanish

---
 include/shiva/common/pmpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index 0f5c0cc..aad4ca7 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -75,7 +75,7 @@ namespace pmpl
 template< typename REAL_TYPE >
 static constexpr bool check( REAL_TYPE const a, REAL_TYPE const b, REAL_TYPE const tolerance )
 {
-  return ( a - b ) * ( a - b ) < tolerance * tolerance;
+  return a - b < tolerance && b - a < tolerance;
 }
 
 
-- 
2.43.0


From 7c689f57b60d37170e05a26034f262c1732c660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 30/30] fix: compute the interval of the equal spacing in its
 own floating point type

---
 include/shiva/functions/spacing/Spacing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/functions/spacing/Spacing.hpp b/include/shiva/functions/spacing/Spacing.hpp
index 9d7854a..0912ea3 100644
--- a/include/shiva/functions/spacing/Spacing.hpp
+++ b/include/shiva/functions/spacing/Spacing.hpp
@@ -39,7 +39,7 @@ struct EqualSpacing
    * @brief Returns the interval distance between points in the spacing.
    * @return The interval length between points in the spacing.
    */
-  SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE interval() { return 2.0 / (numPoints - 1); }
+  SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE interval() { return REAL_TYPE( 2 ) / (numPoints - 1); }
 
   /**
    * @brief Returns the coordinate of a point defined by the spacing.
-- 
2.43.0

