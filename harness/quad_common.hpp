// Type-erased spacings and quadrature rules, and the Legendre polynomials they are defined by.
#pragma once
#include "vh.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"

namespace vh
{
inline LD legendre( int n, LD x )
{
  LD a = 1, b = x;
  if ( n == 0 ) return 1;
  for ( int k = 2; k <= n; ++k ) { LD const c = ( ( 2 * k - 1 ) * x * b - ( k - 1 ) * a ) / k; a = b; b = c; }
  return b;
}
inline LD dlegendre( int n, LD x )
{
  LD p0 = 1, p1 = x, d0 = 0, d1 = 1;
  if ( n == 0 ) return 0;
  for ( int k = 2; k <= n; ++k )
  {
    LD const p = ( ( 2 * k - 1 ) * x * p1 - ( k - 1 ) * p0 ) / k;
    LD const d = ( ( 2 * k - 1 ) * ( p1 + x * d1 ) - ( k - 1 ) * d0 ) / k;
    p0 = p1; p1 = p; d0 = d1; d1 = d;
  }
  return d1;
}
inline LD legendreLead( int n ) { LD v = 1; for ( int k = 1; k <= n; ++k ) v *= static_cast< LD >( 2 * k - 1 ) / k; return v; }

template< typename F >
LD bisect( F && f, LD a, LD b )
{
  LD fa = f( a );
  for ( int k = 0; k < 200; ++k )
  {
    LD const m = 0.5L * ( a + b ), fm = f( m );
    if ( fm == 0 ) return m;
    if ( ( fm < 0 ) == ( fa < 0 ) ) { a = m; fa = fm; } else b = m;
  }
  return 0.5L * ( a + b );
}

/// all roots in (-1,1) by sign changes on a fine grid
template< typename F >
std::vector< LD > roots( F && f )
{
  std::vector< LD > r;
  int const G = 4001;   // odd: zero is not on the grid
  for ( int k = 0; k < G; ++k )
  {
    LD const a = -1 + 2.0L * k / G, b = -1 + 2.0L * ( k + 1 ) / G;
    LD const fa = k == 0 ? f( -1 + 1e-9L ) : f( a ), fb = k == G - 1 ? f( 1 - 1e-9L ) : f( b );
    if ( ( fa < 0 ) != ( fb < 0 ) ) r.push_back( bisect( f, k == 0 ? -1 + 1e-9L : a, k == G - 1 ? 1 - 1e-9L : b ) );
  }
  return r;
}

enum class Rule { equal, legendre, lobatto };

inline std::vector< LD > exactPoints( Rule rule, int n )
{
  if ( rule == Rule::equal ) { std::vector< LD > x; for ( int k = 0; k < n; ++k ) x.push_back( -1 + 2.0L * k / ( n - 1 ) ); return x; }
  if ( rule == Rule::legendre ) return roots( [n]( LD x ) { return legendre( n, x ); } );
  std::vector< LD > x = n > 2 ? roots( [n]( LD t ) { return dlegendre( n - 1, t ); } ) : std::vector< LD >();
  x.insert( x.begin(), -1 );
  x.push_back( 1 );
  return x;
}
inline LD exactWeight( Rule rule, int n, LD x )
{
  if ( rule == Rule::legendre ) { LD const d = dlegendre( n, x ); return 2 / ( ( 1 - x * x ) * d * d ); }
  LD const p = legendre( n - 1, x );
  return 2 / ( n * ( n - 1 ) * p * p );
}

/// rounding unit of a rule: the constants of the Gauss rules are of type double
template< typename R > constexpr LD ruleEps( Rule rule ) { return rule == Rule::equal ? eps< R >() : maxl( eps< R >(), 0x1p-52L ); }

/// half a unit of the 14 digits of the tables for many points
inline LD tableError( Rule rule, int n, bool weight, LD eps )
{
  LD const t = rule == Rule::lobatto && n >= ( weight ? 6 : 7 ) ? 3e-14L : 0;
  return 4 * eps + t;
}

struct Points
{
  Rule rule;
  int n;
  LD eps;
  std::vector< LD > exact;
  LD ( *coordRT )( int );
  LD ( *coordCT )( int );
  LD ( *weightRT )( int );   ///< null where the library does not provide it
  LD ( *weightCT )( int );
};

template< typename S, int N >
LD coordCT( int k ) { LD v = 0; staticFor< N >( [&]( auto i ) { if ( i == k ) v = S::template coordinate< decltype(i)::value >(); } ); return v; }
template< typename S > LD coordRT( int k ) { return S::coordinate( opaque( k ) ); }
template< typename Q, int N >
LD weightCT( int k ) { LD v = 0; staticFor< N >( [&]( auto i ) { if ( i == k ) v = Q::template weight< decltype(i)::value >(); } ); return v; }
template< typename Q > LD weightRT( int k ) { return Q::weight( opaque( k ) ); }
} // namespace vh
