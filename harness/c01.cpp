// C01: Lagrange basis functions interpolate
#include "basis_common.hpp"
using namespace vh;
using shiva::functions::LagrangeBasis;

// What a property needs of one instantiation, without its types.
struct Inst
{
  int order;
  LD eps;
  std::vector< LD > ( *nodes )();
  LD ( *round )( LD );                       // to the floating point type
  LD ( *next )( LD, LD );                    // nextafter in the floating point type
  void ( *values )( LD, LD * );              // all basis functions at a coordinate
};

static void run( Ctx & ctx, Case const & c, Inst const & in )
{
  int const n = in.order + 1;
  std::vector< LD > const x = in.nodes();
  int const where = static_cast< int >( c.i[0] );
  LD const node = x[static_cast< std::size_t >( c.i[1] )];
  // where to evaluate: mostly inside the domain; sometimes at, or one ulp beside, a support point; sometimes outside
  LD t = in.round( where <= 2 ? c.r[0] : where == 3 ? c.r[1] * far( in.order, 2 * c.i[1] + c.i[2] ) : node );
  if ( where == 5 ) t = in.next( t, c.r[0] );
  bool atNode = false;
  for ( auto v : x ) atNode = atNode || t == v;
  ctx.nt( !atNode || in.order > 1 );
  ctx.label( atNode ? "at a support point" : absl( t ) > 1 ? "outside [-1,1]" : "inside" );

  LD v[40], w[40];
  in.values( t, v );
  LD const tol = 32 * n * in.eps * lebesgue( x, t ) + 4 * in.eps * lebesgueDeriv( x, t );   // the points themselves are rounded
  LD sum = 0;
  for ( int i = 0; i < n; ++i )
  {
    near( "value of basis function " + std::to_string( i ) + " at " + fmt( t ), v[i], lagrange( x, i, t ), tol );
    sum += v[i];
    if ( atNode ) near( "cardinality of basis function " + std::to_string( i ), v[i], t == x[i] ? 1 : 0, tol );
  }
  near( "sum of the basis functions at " + fmt( t ), sum, 1, tol * n );
  // reproduction of a polynomial of degree up to the order
  int const deg = static_cast< int >( c.i[2] );
  double const * coef = &c.r[2];
  LD interp = 0, scale = polyScale( coef, deg + 1, t );
  for ( int i = 0; i < n; ++i )
  {
    interp += v[i] * poly( coef, deg + 1, x[i] );
    scale = maxl( scale, polyScale( coef, deg + 1, x[i] ) );
  }
  near( "interpolation of a polynomial of degree " + std::to_string( deg ), interp, poly( coef, deg + 1, t ), n * tol * scale );
  // the same argument gives the same result
  in.values( t, w );
  for ( int i = 0; i < n; ++i ) ok( v[i] == w[i], "same value for the same argument" );
}

template< typename R, int ORDER, template< typename, int > typename SP >
void inst( char const * sp )
{
  using B = LagrangeBasis< R, ORDER, SP >;
  constexpr int n = ORDER + 1;
  static_assert( B::order == ORDER && B::numSupportPoints == n, "order and number of support points" );
  static_assert( std::is_same_v< decltype( B::template value< 0 >( R( 0 ) ) ), R >, "value has the floating point type" );
  Inst in{ ORDER, eps< R >(), &nodesOf< B >,
           []( LD t ) { return static_cast< LD >( static_cast< R >( t ) ); },
           []( LD a, LD b ) { return static_cast< LD >( std::nextafter( static_cast< R >( a ), static_cast< R >( b ) ) ); },
           []( LD t, LD * out )
    {
      R const x = opaque( static_cast< R >( t ) );
      staticFor< n >( [&]( auto i ) { out[i] = B::template value< decltype(i)::value >( x ); } );
    } };
  Prop p;
  p.name = std::string( "Lagrange<" ) + rname< R >() + "," + std::to_string( ORDER ) + "," + sp + ">";
  p.ints = { { 0, 5 }, { 0, n - 1 }, { 0, ORDER } };
  p.reals = cat( reals( 1, { 'u', -1, 1 } ), cat( reals( 1, { 'u', -2.5, 2.5 } ), reals( n, { 'v', -3, 3 } ) ) );
  p.run = [in]( Ctx & ctx, Case const & c ) { run( ctx, c, in ); };
  add( p );
}

template< typename R >
void all()
{
  using namespace shiva;
  if constexpr ( sizeof( R ) > sizeof( double ) )
  {
    staticFor< 5 >( []( auto k ) { inst< R, decltype(k)::value + 1, EqualSpacing >( "EqualSpacing" ); } );
    staticFor< 8 >( []( auto k ) { inst< R, decltype(k)::value + 1, GaussLobattoSpacing >( "GaussLobattoSpacing" ); } );
    inst< R, 3, GaussLegendreSpacing >( "GaussLegendreSpacing" );
    staticFor< 3 >( []( auto k ) { inst< R, 2 * decltype(k)::value + 1, CustomA >( "CustomA" ); } );
    return;
  }
  else
  {
  staticFor< 10 >( []( auto k ) { inst< R, decltype(k)::value + 1, EqualSpacing >( "EqualSpacing" ); } );
  inst< R, 13, EqualSpacing >( "EqualSpacing" ); inst< R, 16, EqualSpacing >( "EqualSpacing" ); inst< R, 21, EqualSpacing >( "EqualSpacing" ); inst< R, 30, EqualSpacing >( "EqualSpacing" );
  staticFor< 8 >( []( auto k ) { inst< R, decltype(k)::value + 1, GaussLobattoSpacing >( "GaussLobattoSpacing" ); } );
  staticFor< 3 >( []( auto k ) { inst< R, decltype(k)::value + 1, GaussLegendreSpacing >( "GaussLegendreSpacing" ); } );
  staticFor< 6 >( []( auto k ) { inst< R, decltype(k)::value + 1, CustomA >( "CustomA" ); } );
  staticFor< 6 >( []( auto k ) { inst< R, decltype(k)::value + 1, CustomB >( "CustomB" ); } );
  }
}
static bool const registered = ( all< VH_REAL >(), true );
