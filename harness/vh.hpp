// Interface between the harnesses (which include Shiva) and the engines (which generate cases).
#pragma once
#include <cfloat>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <array>

namespace vh
{
/// One generated case: everything a property sees. Written to the replay file as it is.
struct Case
{
  std::vector< std::int64_t > i;     ///< as many as Prop::ints
  std::vector< double > r;           ///< as many as Prop::reals
  std::vector< std::int64_t > tail;  ///< tailMin..tailMax values in Prop::tail
};

struct IDom { std::int64_t lo, hi; };

/// kinds: 'u' uniform in [a,b] with grid points and ends; 's' sign * 10^[a,b]; 'p' 10^[a,b];
/// 'v' values of a field or coefficients: small integers, fractions, or magnitudes up to 10^b
struct RDom { char kind; double a, b; };

struct Fail { std::string msg; };

struct Ctx
{
  bool nontrivial = false;
  std::vector< std::string > labels;
  void nt( bool b = true ) { nontrivial = nontrivial || b; }
  void label( char const * l ) { labels.emplace_back( l ); }
  [[noreturn]] static void fail( std::string m ) { throw Fail{ std::move( m ) }; }
};

struct Prop
{
  std::string name;
  std::vector< IDom > ints;
  std::vector< RDom > reals;
  int tailMin = 0, tailMax = 0;
  IDom tail{ 0, 0 };
  std::function< void( Ctx &, Case const & ) > run;
  double weight = 1;
};

std::vector< Prop > & registry();

inline void add( Prop p ) { registry().push_back( std::move( p ) ); }

inline std::vector< RDom > reals( int n, RDom d ) { return std::vector< RDom >( static_cast< std::size_t >( n ), d ); }
inline std::vector< IDom > ints( int n, IDom d ) { return std::vector< IDom >( static_cast< std::size_t >( n ), d ); }
template< typename T >
std::vector< T > cat( std::vector< T > a, std::vector< T > const & b ) { a.insert( a.end(), b.begin(), b.end() ); return a; }

using LD = long double;

template< typename R > constexpr char const * rname() { return sizeof( R ) == 4 ? "float" : sizeof( R ) == 8 ? "double" : "long double"; }
template< typename R > constexpr LD eps() { return static_cast< LD >( std::numeric_limits< R >::epsilon() ); }

inline std::string fmt( LD x ) { char b[64]; std::snprintf( b, sizeof b, "%.20Lg", x ); return b; }
inline std::string str( std::int64_t x ) { return std::to_string( x ); }

/// fails unless |got - want| <= tol (a NaN fails)
inline void near( char const * what, LD got, LD want, LD tol )
{
  LD const e = got - want;
  if ( !( ( e < 0 ? -e : e ) <= tol ) )
  {
    Ctx::fail( std::string( what ) + ": got " + fmt( got ) + ", expected " + fmt( want ) + ", tolerance " + fmt( tol ) );
  }
}
inline void near( std::string const & what, LD got, LD want, LD tol ) { near( what.c_str(), got, want, tol ); }

inline void eq( char const * what, std::int64_t got, std::int64_t want )
{
  if ( got != want ) Ctx::fail( std::string( what ) + ": got " + str( got ) + ", expected " + str( want ) );
}
inline void ok( bool c, char const * what )
{
  if ( !c ) Ctx::fail( std::string( "does not hold: " ) + what );
}
inline void ok( bool c, std::string const & what ) { ok( c, what.c_str() ); }

inline LD absl( LD x ) { return x < 0 ? -x : x; }
inline LD maxl( LD a, LD b ) { return a > b ? a : b; }

/// compile time loop that is independent of the library under test
template< typename F, std::size_t ... I >
constexpr void staticForImpl( F && f, std::index_sequence< I... > )
{
  ( f( std::integral_constant< int, static_cast< int >( I ) >{} ), ... );
}
template< int N, typename F >
constexpr void staticFor( F && f ) { staticForImpl( f, std::make_index_sequence< static_cast< std::size_t >( N ) >{} ); }

/// keeps the optimizer from seeing through a value
template< typename T >
T opaque( T v ) { T volatile x = v; return x; }
} // namespace vh
