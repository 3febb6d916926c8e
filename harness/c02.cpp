// C02: gradients of Lagrange basis functions are the derivatives of the values
#include "basis_common.hpp"
using namespace vh;
using shiva::functions::LagrangeBasis;

struct Inst
{
  int order;
  LD eps;
  std::vector< LD > ( *nodes )();
  LD ( *round )( LD );
  void ( *values )( LD, LD * );
  void ( *gradients )( LD, LD * );
};

static void run( Ctx & ctx, Case const & c, Inst const & in )
{
  int const n = in.order + 1;
  std::vector< LD > const x = in.nodes();
  int const where = static_cast< int >( c.i[0] );
  LD const node = x[static_cast< std::size_t >( c.i[1] )];
  LD t = in.round( where <= 2 ? c.r[0] : where == 3 ? c.r[1] * far( in.order, 2 * c.i[1] + c.i[2] ) : node );
  bool atNode = false;
  for ( auto v : x ) atNode = atNode || t == v;
  ctx.nt( in.order > 1 );
  ctx.label( atNode ? "at a support point" : absl( t ) > 1 ? "outside [-1,1]" : "inside" );

  LD g[40], h[40];
  in.gradients( t, g );
  LD const D = lebesgueDeriv( x, t );
  LD const tol = 32 * n * in.eps * D;
  LD sum = 0;
  for ( int i = 0; i < n; ++i )
  {
    near( "gradient of basis function " + std::to_string( i ) + " at " + fmt( t ), g[i], lagrangeDeriv( x, i, t ), tol );
    sum += g[i];
  }
  near( "sum of the gradients at " + fmt( t ), sum, 0, tol * n );
  // derivative of a polynomial of degree up to the order
  int const deg = static_cast< int >( c.i[2] );
  double const * coef = &c.r[3];
  LD d = 0, scale = polyScale( coef, deg + 1, t );
  for ( int i = 0; i < n; ++i )
  {
    d += g[i] * poly( coef, deg + 1, x[i] );
    scale = maxl( scale, polyScale( coef, deg + 1, x[i] ) );
  }
  near( "derivative of the interpolant of a polynomial of degree " + std::to_string( deg ), d, dpoly( coef, deg + 1, t ), n * tol * scale );
  // secant through the library's own values: the value and gradient functions belong together
  LD const other = in.round( c.r[2] );
  if ( in.order <= 2 && other != t )
  {
    // for polynomials of degree <= 2 the secant equals the mean of the end derivatives
    LD va[40], vb[40], gb[40];
    in.values( t, va ); in.values( other, vb ); in.gradients( other, gb );
    for ( int i = 0; i < n; ++i )
    {
      LD const tolv = 32 * n * in.eps * ( lebesgue( x, t ) + lebesgue( x, other ) ) + 64 * n * in.eps * absl( other - t ) * ( D + lebesgueDeriv( x, other ) );
      near( "change of value of basis function " + std::to_string( i ), vb[i] - va[i], 0.5L * ( g[i] + gb[i] ) * ( other - t ), tolv );
    }
  }
  in.gradients( t, h );
  for ( int i = 0; i < n; ++i ) ok( g[i] == h[i], "same gradient for the same argument" );
}

template< typename R, int ORDER, template< typename, int > typename SP >
void inst( char const * sp )
{
  using B = LagrangeBasis< R, ORDER, SP >;
  constexpr int n = ORDER + 1;
  static_assert( std::is_same_v< decltype( B::template gradient< 0 >( R( 0 ) ) ), R >, "gradient has the floating point type" );
  Inst in{ ORDER, eps< R >(), &nodesOf< B >,
           []( LD t ) { return static_cast< LD >( static_cast< R >( t ) ); },
           []( LD t, LD * out )
    {
      R const x = opaque( static_cast< R >( t ) );
      staticFor< n >( [&]( auto i ) { out[i] = B::template value< decltype(i)::value >( x ); } );
    },
           []( LD t, LD * out )
    {
      R const x = opaque( static_cast< R >( t ) );
      staticFor< n >( [&]( auto i ) { out[i] = B::template gradient< decltype(i)::value >( x ); } );
    } };
  Prop p;
  p.name = std::string( "LagrangeGradient<" ) + rname< R >() + "," + std::to_string( ORDER ) + "," + sp + ">";
  p.ints = { { 0, 4 }, { 0, n - 1 }, { 0, ORDER } };
  p.reals = cat( cat( reals( 1, { 'u', -1, 1 } ), reals( 1, { 'u', -2.5, 2.5 } ) ), cat( reals( 1, { 'u', -1, 1 } ), reals( n, { 'v', -3, 3 } ) ) );
  p.run = [in]( Ctx & ctx, Case const & c ) { run( ctx, c, in ); };
  add( p );
}

template< typename R >
void all()
{
  using namespace shiva;
  if constexpr ( sizeof( R ) > sizeof( double ) )
  {
    staticFor< 5 >( []( auto k ) { inst< R, decltype(k)::value + 1, EqualSpacing >( "EqualSpacing" ); } );
    staticFor< 8 >( []( auto k ) { inst< R, decltype(k)::value + 1, GaussLobattoSpacing >( "GaussLobattoSpacing" ); } );
    inst< R, 3, GaussLegendreSpacing >( "GaussLegendreSpacing" );
    staticFor< 3 >( []( auto k ) { inst< R, 2 * decltype(k)::value + 1, CustomA >( "CustomA" ); } );
    return;
  }
  else
  {
  staticFor< 10 >( []( auto k ) { inst< R, decltype(k)::value + 1, EqualSpacing >( "EqualSpacing" ); } );
  inst< R, 13, EqualSpacing >( "EqualSpacing" ); inst< R, 16, EqualSpacing >( "EqualSpacing" );
  staticFor< 8 >( []( auto k ) { inst< R, decltype(k)::value + 1, GaussLobattoSpacing >( "GaussLobattoSpacing" ); } );
  staticFor< 3 >( []( auto k ) { inst< R, decltype(k)::value + 1, GaussLegendreSpacing >( "GaussLegendreSpacing" ); } );
  staticFor< 6 >( []( auto k ) { inst< R, decltype(k)::value + 1, CustomA >( "CustomA" ); } );
  staticFor< 4 >( []( auto k ) { inst< R, decltype(k)::value + 1, CustomB >( "CustomB" ); } );
  }
}
static bool const registered = ( all< VH_REAL >(), true );
