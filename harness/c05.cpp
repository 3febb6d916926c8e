// C05: spacings place their points where their rule defines them
#include "quad_common.hpp"
using namespace vh;

static void run( Ctx & ctx, Case const & c, Points const & s )
{
  int const n = s.n, k = static_cast< int >( c.i[0] );
  LD const tol = tableError( s.rule, n, false, s.eps );
  std::vector< LD > x;
  for ( int i = 0; i < n; ++i ) x.push_back( c.i[1] ? s.coordRT( i ) : s.coordCT( i ) );
  ctx.label( c.i[1] ? "run time index" : "compile time index" );
  LD const t = static_cast< LD >( c.r[0] );
  ctx.nt( n > 2 );

  near( "coordinate of point " + str( k ) + " of " + str( n ), x[k], s.exact[static_cast< std::size_t >( k )], tol );
  near( "coordinate from a run time index " + str( k ), s.coordRT( k ), s.coordCT( k ), 4 * s.eps );
  near( "mirrored coordinate of point " + str( k ), x[n - 1 - k], -x[k], 4 * s.eps );
  ok( x[k] >= -1 - 2 * s.eps && x[k] <= 1 + 2 * s.eps, "points lie in [-1,1]" );
  if ( k > 0 ) ok( x[k - 1] < x[k], "points are strictly increasing" );
  if ( s.rule != Rule::legendre )
  {
    near( "first point", x[0], -1, 2 * s.eps );
    near( "last point", x[n - 1], 1, 2 * s.eps );
  }
  else ok( x[0] > -1 && x[n - 1] < 1, "the ends are not points" );
  // the polynomial with these roots, at any place
  if ( s.rule != Rule::equal )
  {
    LD prod = 1, slope = 0;
    for ( int i = 0; i < n; ++i ) prod *= t - x[i];
    for ( int i = 0; i < n; ++i ) { LD v = 1; for ( int j = 0; j < n; ++j ) if ( j != i ) v *= absl( t - s.exact[static_cast< std::size_t >( j )] ) + tol; slope += v; }
    LD const want = s.rule == Rule::legendre ? legendre( n, t ) / legendreLead( n )
                                             : ( t * t - 1 ) * dlegendre( n - 1, t ) / ( legendreLead( n - 1 ) * ( n - 1 ) );
    near( "polynomial with the points as roots, at " + fmt( t ), prod, want, tol * slope + 1e-17L * n * n );
  }
  else
  {
    int const j = static_cast< int >( c.i[2] );
    if ( j != k ) near( "distance per interval", ( x[j] - x[k] ) / ( j - k ), 2.0L / ( n - 1 ), 8 * s.eps );
  }
}

template< typename R, int N, template< typename, int > typename S >
void inst( char const * name, Rule rule )
{
  static_assert( S< R, N >::numPoints == N );
  static_assert( std::is_same_v< decltype( S< R, N >::coordinate( 0 ) ), R > );
  static_assert( std::is_same_v< decltype( S< R, N >::template coordinate< 0 >() ), R > );
  using B = shiva::functions::LagrangeBasis< R, N - 1, S >;
  static_assert( B::numSupportPoints == N && B::order == N - 1 );
  // alone, and as the base of a basis
  for ( int viaBasis = 0; viaBasis < 2; ++viaBasis )
  {
    Points s{ rule, N, ruleEps< R >( rule ), exactPoints( rule, N ), viaBasis ? &coordRT< B > : &coordRT< S< R, N > >, viaBasis ? &coordCT< B, N > : &coordCT< S< R, N >, N >, nullptr, nullptr };
    ok( static_cast< int >( s.exact.size() ) == N, "the reference has all points" );
    Prop p;
    p.name = std::string( viaBasis ? "basis with " : "" ) + name + "<" + rname< R >() + "," + std::to_string( N ) + ">";
    p.ints = { { 0, N - 1 }, { 0, 1 }, { 0, N - 1 } };
    p.reals = reals( 1, { 'u', -2, 2 } );
    p.run = [s]( Ctx & ctx, Case const & c ) { run( ctx, c, s ); };
    add( p );
  }
}

template< typename R >
void all()
{
  staticFor< 24 >( []( auto k ) { inst< R, decltype(k)::value + 2, shiva::EqualSpacing >( "EqualSpacing", Rule::equal ); } );
  inst< R, 33, shiva::EqualSpacing >( "EqualSpacing", Rule::equal );
  inst< R, 50, shiva::EqualSpacing >( "EqualSpacing", Rule::equal );
  inst< R, 100, shiva::EqualSpacing >( "EqualSpacing", Rule::equal );
  inst< R, 129, shiva::EqualSpacing >( "EqualSpacing", Rule::equal );
  inst< R, 200, shiva::EqualSpacing >( "EqualSpacing", Rule::equal );
  staticFor< 3 >( []( auto k ) { inst< R, decltype(k)::value + 2, shiva::GaussLegendreSpacing >( "GaussLegendreSpacing", Rule::legendre ); } );
  staticFor< 8 >( []( auto k ) { inst< R, decltype(k)::value + 2, shiva::GaussLobattoSpacing >( "GaussLobattoSpacing", Rule::lobatto ); } );
}
static bool const registered = ( all< VH_REAL >(), true );
