// C17: powers, factorials and binomial coefficients (oracle: 128-bit integers and long double)
#include "vh.hpp"
#include "shiva/common/MathUtilities.hpp"
using namespace vh;
namespace mu = shiva::mathUtilities;
using I128 = __int128;
static std::string str128( I128 v ) { if ( v < 0 ) return "-" + str128( -v ); std::string s; do { s.insert( s.begin(), static_cast< char >( '0' + static_cast< int >( v % 10 ) ) ); v /= 10; } while ( v ); return s; }
static void eq128( char const * what, I128 got, I128 want ) { if ( got != want ) Ctx::fail( std::string( what ) + ": got " + str128( got ) + ", expected " + str128( want ) ); }
template< typename T > constexpr char const * tname()
{
  if constexpr ( std::is_same_v< T, int > ) return "int";
  else if constexpr ( std::is_same_v< T, short > ) return "short";
  else if constexpr ( std::is_same_v< T, signed char > ) return "signed char";
  else if constexpr ( std::is_same_v< T, unsigned char > ) return "unsigned char";
  else if constexpr ( std::is_same_v< T, unsigned > ) return "unsigned";
  else if constexpr ( std::is_same_v< T, long > ) return "long";
  else if constexpr ( std::is_same_v< T, long long > ) return "long long";
  else if constexpr ( std::is_same_v< T, unsigned long > ) return "unsigned long";
  else if constexpr ( std::is_same_v< T, float > ) return "float";
  else if constexpr ( std::is_same_v< T, long double > ) return "long double";
  else return "double";
}

/// exponents for bases zero, one, minus one, and (floating point) close to them
constexpr int large[] = { 99, 126, 127, 128, 129, 254, 255, 256, 257, 300 };
template< typename T > struct Power { int e; T ( *f )( T ); T ( *prev )( T ); };
template< typename T, int MAXEXP >
std::vector< Power< T > > const & powers()
{
  static std::vector< Power< T > > f;
  staticFor< MAXEXP + 1 + 10 >( []( auto k )
  {
    constexpr int K = decltype( k )::value;
    constexpr int e = K <= MAXEXP ? K : large[K <= MAXEXP ? 0 : K - MAXEXP - 1];
    f.push_back( { e, []( T b ) { return mu::pow< T, e >( b ); }, []( T b ) { return mu::pow< T, ( e > 0 ? e - 1 : 0 ) >( b ); } } );
  } );
  return f;
}

template< typename T, int MAXEXP >
void integerPowers()
{
  static auto const & f = powers< T, MAXEXP >();
  Prop p;
  p.name = std::string( "pow<" ) + tname< T >() + ">";
  p.ints = { { 0, MAXEXP + 10 }, { 0, ( std::int64_t( 1 ) << 40 ) - 1 }, { 0, 3 } };
  p.run = []( Ctx & ctx, Case const & c )
  {
    auto const & pw = f[static_cast< std::size_t >( c.i[0] )];
    int const e = pw.e;
    I128 const top = std::numeric_limits< T >::max(), bottom = std::numeric_limits< T >::min();
    auto fits = [&]( I128 b ) { I128 v = 1; for ( int k = 0; k < e; ++k ) { v *= b; if ( v > top || v < bottom ) return false; } return true; };
    // the largest base with a power that fits
    I128 big = 1;
    if ( e == 0 || e == 1 ) big = top;
    else
    {
      I128 lo = 1, hi = I128( 1 ) << 33;
      while ( lo < hi ) { I128 const m = ( lo + hi + 1 ) / 2; if ( fits( m ) ) lo = m; else hi = m - 1; }
      big = lo;
    }
    I128 b;
    switch ( c.i[2] )
    {
      case 0: b = c.i[1] % 4; break;
      case 1: b = big - c.i[1] % 3; break;
      default: b = static_cast< I128 >( c.i[1] ) * ( big + 1 ) / ( I128( 1 ) << 40 ); break;
    }
    if ( b < 0 ) b = 0;
    if ( std::is_signed_v< T > && ( c.i[1] & 1 ) ) b = -b;
    if ( !fits( b ) ) return;
    I128 want = 1;
    for ( int k = 0; k < e; ++k ) want *= b;
    T const got = pw.f( static_cast< T >( b ) );
    eq128( "power", static_cast< I128 >( got ), want );
    if ( e > 0 ) eq128( "recurrence", static_cast< I128 >( pw.prev( static_cast< T >( b ) ) ) * b, want );
    if ( e > MAXEXP ) ctx.label( "exponent of 99 or more" );
    ctx.nt( e >= 2 && b != 0 && b != 1 );
    if ( b < 0 ) ctx.label( "negative base" );
    if ( c.i[2] == 1 ) ctx.label( "at the end of the type" );
  };
  add( p );
}

template< typename T, int MAXEXP >
void floatPowers()
{
  static auto const & f = powers< T, MAXEXP >();
  Prop p;
  p.name = std::string( "pow<" ) + tname< T >() + ">";
  p.ints = { { 0, MAXEXP + 10 } };
  p.reals = { { 's', -1, 1 }, { 'u', -1, 1 } };
  p.run = []( Ctx & ctx, Case const & c )
  {
    auto const & pw = f[static_cast< std::size_t >( c.i[0] )];
    int const e = pw.e;
    // magnitudes up to 10^(30/e) for float
    T const b = static_cast< T >( ( c.r[0] < 0 ? -1 : 1 ) * std::pow( std::fabs( c.r[0] ), std::fmin( 30.0, ( sizeof( T ) == 4 ? 30.0 : 250.0 ) / ( e > 0 ? e : 1 ) ) ) );
    LD want = 1;
    for ( int k = 0; k < e; ++k ) want *= static_cast< LD >( b );
    LD const e1 = static_cast< LD >( std::numeric_limits< T >::epsilon() );
    T const got = pw.f( b );
    near( "power", got, want, ( 2 * e + 1 ) * e1 * absl( want ) );
    if ( e == 0 ) ok( got == T( 1 ), "the power with exponent zero is one" );
    if ( e == 1 ) ok( got == b, "the power with exponent one is the base" );
    T const s = static_cast< T >( c.r[1] );   // sign and symmetry
    T const ps = pw.f( s ), ms = pw.f( -s );
    near( "sign of the power of the negative base", ms, ( e % 2 ? -1 : 1 ) * static_cast< LD >( ps ), ( 2 * e + 1 ) * e1 * absl( ps ) );
    ok( pw.f( T( 0 ) ) == ( e == 0 ? T( 1 ) : T( 0 ) ), "power of zero" );
    ok( pw.f( T( 1 ) ) == T( 1 ), "power of one" );
    ctx.nt( e >= 2 );
  };
  add( p );
}

/// MAXN: the largest argument whose factorial fits
template< typename T, int MAXN >
void combinatorics()
{
  static std::vector< T > fact;
  static std::vector< std::vector< T > > bin;
  staticFor< MAXN + 1 >( []( auto n )
  {
    constexpr int N = decltype( n )::value;
    fact.push_back( mu::factorial< T, static_cast< T >( N ) >::value );
    static_assert( std::is_same_v< std::decay_t< decltype( mu::factorial< T, static_cast< T >( N ) >::value ) >, T > );
    bin.emplace_back();
    staticFor< N + 1 >( []( auto k ) { bin.back().push_back( mu::binomialCoefficient< T, static_cast< T >( N ), static_cast< T >( decltype( k )::value ) >::value ); } );
  } );
  Prop p;
  p.name = std::string( "combinatorics<" ) + tname< T >() + ">";
  p.ints = { { 0, MAXN }, { 0, 999 } };
  p.run = []( Ctx & ctx, Case const & c )
  {
    auto const n = static_cast< std::size_t >( c.i[0] );
    auto const k = static_cast< std::size_t >( c.i[1] * ( c.i[0] + 1 ) / 1000 );
    I128 want = 1;
    for ( std::size_t q = 2; q <= n; ++q ) want *= static_cast< I128 >( q );
    eq128( "factorial", static_cast< I128 >( fact[n] ), want );
    if ( n > 0 ) eq128( "recurrence of the factorial", static_cast< I128 >( fact[n - 1] ) * static_cast< I128 >( n ), static_cast< I128 >( fact[n] ) );
    // Pascal's triangle, independent of factorials
    std::vector< I128 > row{ 1 };
    for ( std::size_t q = 1; q <= n; ++q ) { row.push_back( 0 ); for ( std::size_t j = q; j > 0; --j ) row[j] += row[j - 1]; }
    eq128( "binomial coefficient", static_cast< I128 >( bin[n][k] ), row[k] );
    eq128( "symmetry", static_cast< I128 >( bin[n][n - k] ), static_cast< I128 >( bin[n][k] ) );
    if ( k > 0 && n > 0 ) eq128( "recurrence of the binomial coefficient", static_cast< I128 >( bin[n - 1][k - 1] ) + ( k < n ? static_cast< I128 >( bin[n - 1][k] ) : 0 ), static_cast< I128 >( bin[n][k] ) );
    ctx.nt( n > 2 && k > 0 && k < n );
  };
  add( p );
}

static bool const registered = ( []
{
  integerPowers< int, 40 >();
  integerPowers< short, 20 >();
  integerPowers< signed char, 10 >();
  integerPowers< unsigned char, 10 >();
  integerPowers< unsigned, 40 >();
  integerPowers< long long, 70 >();
  integerPowers< unsigned long, 70 >();
  floatPowers< double, 40 >();
  floatPowers< float, 40 >();
  floatPowers< long double, 12 >();
  combinatorics< int, 12 >();
  combinatorics< long, 20 >();
  combinatorics< unsigned long, 20 >();
  combinatorics< unsigned, 12 >();
  combinatorics< short, 7 >();
  combinatorics< unsigned char, 5 >();
}(), true );
