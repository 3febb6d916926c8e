#pragma once
#include "vh.hpp"
#include "gen_nodes.hpp"   // generated: genNodes[genNodeSets][10], asymmetric node sets
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"

// A spacing provided by the user of the library: asymmetric, from the generated node sets.
template< int SET >
struct Custom
{
  template< typename R, int N >
  struct type
  {
    static inline constexpr int numPoints = N;
    static constexpr R coordinate( int const i ) { return static_cast< R >( genNodes[SET][i] ); }
    template< int I >
    static constexpr R coordinate() { return static_cast< R >( genNodes[SET][I] ); }
  };
};
template< typename R, int N > using Custom0 = typename Custom< 0 >::template type< R, N >;
template< typename R, int N > using Custom1 = typename Custom< 1 >::template type< R, N >;
template< typename R, int N > using Custom2 = typename Custom< 2 >::template type< R, N >;

// The aliases above cannot be passed where a class template is expected by some compilers: real templates.
template< typename R, int N > struct CustomA : Custom0< R, N > {};
template< typename R, int N > struct CustomB : Custom1< R, N > {};
template< typename R, int N > struct CustomC : Custom2< R, N > {};

namespace vh
{
/// nodes of a basis, as the basis itself reports them
template< typename BASIS >
std::vector< LD > nodesOf()
{
  std::vector< LD > x;
  staticFor< BASIS::numSupportPoints >( [&]( auto i ) { x.push_back( static_cast< LD >( BASIS::template coordinate< decltype(i)::value >() ) ); } );
  return x;
}

inline LD lagrange( std::vector< LD > const & x, int j, LD t )
{
  LD v = 1;
  for ( int k = 0; k < static_cast< int >( x.size() ); ++k ) if ( k != j ) v *= ( t - x[k] ) / ( x[j] - x[k] );
  return v;
}

inline LD lagrangeDeriv( std::vector< LD > const & x, int j, LD t )
{
  LD s = 0;
  int const n = static_cast< int >( x.size() );
  for ( int i = 0; i < n; ++i )
  {
    if ( i == j ) continue;
    LD v = 1 / ( x[j] - x[i] );
    for ( int k = 0; k < n; ++k ) if ( k != j && k != i ) v *= ( t - x[k] ) / ( x[j] - x[k] );
    s += v;
  }
  return s;
}

/// magnitude of the derivative's terms: the scale of its rounding error
inline LD lagrangeDerivScale( std::vector< LD > const & x, int j, LD t )
{
  LD s = 0;
  int const n = static_cast< int >( x.size() );
  for ( int i = 0; i < n; ++i )
  {
    if ( i == j ) continue;
    LD v = absl( 1 / ( x[j] - x[i] ) );
    for ( int k = 0; k < n; ++k ) if ( k != j && k != i ) v *= absl( ( t - x[k] ) / ( x[j] - x[k] ) );
    s += v;
  }
  return s;
}

/// an upper scale for the values of all basis functions at t
inline LD lebesgue( std::vector< LD > const & x, LD t )
{
  LD s = 0;
  for ( int j = 0; j < static_cast< int >( x.size() ); ++j ) s += absl( lagrange( x, j, t ) );
  return maxl( s, 1 );
}
inline LD lebesgueDeriv( std::vector< LD > const & x, LD t )
{
  LD s = 0;
  for ( int j = 0; j < static_cast< int >( x.size() ); ++j ) s += lagrangeDerivScale( x, j, t );
  return maxl( s, 1 );
}

/// how far outside the reference interval a basis of an order is evaluated: powers up to the order stay in range
inline LD far( int order, std::int64_t sel )
{
  static LD const factor[3][4] = { { 1, 16, 1e4L, 1e12L }, { 1, 16, 1e3L, 1e6L }, { 1, 1, 16, 400 } };
  return order <= 10 ? factor[order <= 2 ? 0 : order <= 5 ? 1 : 2][sel % 4] : 1;
}

/// polynomial with coefficients c (ascending), its derivative, and the magnitude of its terms
inline LD poly( double const * c, int n, LD t ) { LD v = 0; for ( int k = n - 1; k >= 0; --k ) v = v * t + static_cast< LD >( c[k] ); return v; }
inline LD dpoly( double const * c, int n, LD t ) { LD v = 0; for ( int k = n - 1; k >= 1; --k ) v = v * t + static_cast< LD >( c[k] ) * k; return v; }
inline LD polyScale( double const * c, int n, LD t ) { LD v = 0; for ( int k = n - 1; k >= 0; --k ) v = v * absl( t ) + absl( static_cast< LD >( c[k] ) ); return v; }
} // namespace vh
