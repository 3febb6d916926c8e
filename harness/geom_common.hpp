// Geometry transforms on mixed bases, and exact 3x3 inverses.
#pragma once
#include "product_common.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"

namespace vh
{
namespace geo = shiva::geometry;
namespace gu = shiva::geometry::utilities;

template< typename R, typename SR, typename ... B >
using TransformOf = geo::LinearTransform< R, geo::InterpolatedShape< SR, geo::NCube< SR, static_cast< int >( sizeof...( B ) ), -1, 1, 1 >, B... > >;

using M3 = std::array< std::array< LD, 3 >, 3 >;
using Quad = __float128;

inline bool exactInverse( M3 const & a, M3 & inv, LD & det )
{
  auto cof = [&]( int i, int j )
  {
    int const i1 = ( i + 1 ) % 3, i2 = ( i + 2 ) % 3, j1 = ( j + 1 ) % 3, j2 = ( j + 2 ) % 3;
    return static_cast< Quad >( a[i1][j1] ) * static_cast< Quad >( a[i2][j2] ) - static_cast< Quad >( a[i1][j2] ) * static_cast< Quad >( a[i2][j1] );
  };
  Quad d = 0;
  for ( int j = 0; j < 3; ++j ) d += static_cast< Quad >( a[2][j] ) * cof( 2, j );
  det = static_cast< LD >( d );
  if ( d == 0 ) return false;
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) inv[j][i] = static_cast< LD >( cof( i, j ) / d );
  return true;
}

/// bounds of the error of cofactors over determinant when each entry of the matrix has the error e times its scale s
struct Bound
{
  LD det, inv[3][3];
  bool invertible = false;   ///< the determinant is known to a tenth
};
inline Bound boundOf( M3 const & a, M3 const & s, LD det, LD e )
{
  Bound b;
  auto c = [&]( int i, int j ) { return s[( i + 1 ) % 3][( j + 1 ) % 3] * s[( i + 2 ) % 3][( j + 2 ) % 3] + s[( i + 1 ) % 3][( j + 2 ) % 3] * s[( i + 2 ) % 3][( j + 1 ) % 3]; };
  LD perm = 0;
  for ( int i = 0; i < 3; ++i ) perm += s[i][0] * c( i, 0 );
  b.det = 10 * e * perm;
  b.invertible = absl( det ) > 0 && b.det < 0.1L * absl( det );
  if ( !b.invertible ) return b;
  LD const rel = b.det / absl( det ) + 8 * e;
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) b.inv[i][j] = ( 6 * e + 1.3L * rel ) * c( j, i ) / absl( det );
  (void) a;
  return b;
}
inline M3 absOf( M3 const & a ) { M3 s; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) s[i][j] = absl( a[i][j] ); return s; }
} // namespace vh
