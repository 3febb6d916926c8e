// C07: sites that are evaluated once in a constant expression and once at run time. The generated programs include this.
#pragma once
#include "vh.hpp"
#include "shiva/common/CArray.hpp"
#include "shiva/common/IndexTypes.hpp"
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/MultiIndex.hpp"
#include "shiva/common/NestedSequenceUtilities.hpp"
#include "shiva/common/SequenceUtilities.hpp"
#include "shiva/common/pmpl.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"

#if defined( SHIVA_ENABLE_CUDA )
#define VH_GET cuda::std::get
#else
#define VH_GET std::get
#endif

namespace s = shiva;
using ldouble = long double;
namespace mu = shiva::mathUtilities;
namespace sg = shiva::geometry;
namespace su = shiva::geometry::utilities;
template< typename R, typename ... B > using Cell = sg::NCube< R, static_cast< int >( sizeof...( B ) ), -1, 1, 1 >;
template< typename R, typename ... B > using PE = shiva::discretizations::finiteElementMethod::ParentElement< R, Cell< R, B... >, B... >;
template< typename R, typename ... B > using IS = sg::InterpolatedShape< R, Cell< R, B... >, B... >;
template< typename R, typename ... B > using BP = shiva::functions::BasisProduct< R, B... >;
template< typename R, typename ... B > using LT = sg::LinearTransform< R, IS< R, B... > >;

/// how a site gets its arguments: as they are, or hidden from the compiler
struct Known { template< typename T > constexpr T operator()( T v ) const { return v; } };
struct Hidden { template< typename T > SHIVA_HOST_DEVICE T operator()( T v ) const { T volatile x = v; return x; } };

/// results of a site
template< typename T, int N >
struct Res
{
  T v[N > 0 ? N : 1] = {};
  int n = 0;
  bool rel = false;   ///< each result is accurate in itself, not only in comparison with the others
  constexpr void add( T x ) { v[n++] = x; }
};

template< typename T, int N >
bool same( int id, Res< T, N > const & ct, Res< T, N > const & rt, char const * where1 = "at compile time", char const * where2 = "at run time" )
{
  if ( ct.n != rt.n ) { std::printf( "BAD %d number of results: %d %s, %d %s\n", id, ct.n, where1, rt.n, where2 ); return false; }
  long double scale = 1;
  for ( int k = 0; k < ct.n; ++k )
  {
    long double const a = static_cast< long double >( ct.v[k] < T( 0 ) ? -ct.v[k] : ct.v[k] );
    if ( a > scale ) scale = a;
  }
  for ( int k = 0; k < ct.n; ++k )
  {
    bool good;
    if constexpr ( std::is_floating_point_v< T > )
    {
      long double const d = static_cast< long double >( ct.v[k] ) - static_cast< long double >( rt.v[k] );
      good = ct.v[k] == rt.v[k] || ( d < 0 ? -d : d ) <= 4096 * static_cast< long double >( std::numeric_limits< T >::epsilon() ) * ( ct.rel ? std::fabs( static_cast< long double >( ct.v[k] ) ) : scale );
    }
    else good = ct.v[k] == rt.v[k];
    if ( !good )
    {
      std::printf( "BAD %d result %d: %.20Lg %s, %.20Lg %s\n", id, k, static_cast< long double >( ct.v[k] ), where1, static_cast< long double >( rt.v[k] ), where2 );
      return false;
    }
  }
  return true;
}
template< int DIGIT, int ... N >
constexpr int dg( int flat )
{
  int n[] = { N ... };
  int d = 0;
  for ( int k = static_cast< int >( sizeof...( N ) ) - 1; k >= DIGIT; --k ) { d = flat % n[k]; flat /= n[k]; }
  return d;
}
