// C04: field interpolation on a parent element is exact and linear
#include "product_common.hpp"
using namespace vh;

struct Inst
{
  int dims;
  LD eps;
  LD ( *round )( LD );
  TensorRef ref;
  /// coordinate, nodal values (row-major), kind of variable -> value, gradient components; false if an argument was modified
  bool ( *value )( LD const *, std::vector< LD > const &, int, LD & );
  bool ( *gradient )( LD const *, std::vector< LD > const &, int, LD * );
};

static void run( Ctx & ctx, Case const & given, Inst const & in )
{
  int const D = in.dims, T = in.ref.total();
  // nodal values of every magnitude at which products with basis functions stay normal numbers
  Case c = given;
  int const small = static_cast< int >( c.i[3] );
  if ( small < -50 || small > 50 )
  {
    int const e = ( small < 0 ? small + 50 : small - 50 ) * ( in.eps > 1e-10L ? 60 : 400 ) / 50;
    for ( int k = 0; k < T; ++k ) { auto & x = c.r[static_cast< std::size_t >( 2 * D + k )]; x = std::ldexp( x, e ); }
    ctx.label( e < 0 ? "tiny nodal values" : "huge nodal values" );
  }
  std::vector< LD > const t = coordOf( c, 4, 0, in.ref, in.round );
  std::size_t const f0 = static_cast< std::size_t >( 2 * D );
  int const mode = static_cast< int >( c.i[0] ), kind = static_cast< int >( c.i[1] );
  std::vector< LD > u( static_cast< std::size_t >( T ) );
  std::vector< double > coef;
  std::vector< int > deg( static_cast< std::size_t >( D ) );
  if ( mode <= 2 )
  {
    for ( int k = 0; k < T; ++k ) u[k] = in.round( c.r[f0 + k] );
  }
  else if ( mode == 3 )
  {
    // one node at a time: the field is a single basis function
    for ( auto & x : u ) x = 0;
    u[static_cast< std::size_t >( c.i[2] % T )] = in.round( c.r[f0] );
  }
  else
  {
    // tensor-product polynomial with degree up to the order in each direction
    for ( int k = 0; k < T; ++k )
    {
      LD v = 0;
      for ( int m = 0; m < T; ++m )
      {
        LD term = static_cast< LD >( c.r[f0 + m] );
        auto const e = in.ref.digits( m ), i = in.ref.digits( k );
        for ( int d = 0; d < D; ++d ) for ( int q = 0; q < e[d]; ++q ) term *= in.ref.nodes[d][i[d]];
        v += term;
      }
      u[k] = in.round( v );
    }
  }
  LD m = 0;
  bool symmetric = true;
  for ( int k = 0; k < T; ++k ) { m = maxl( m, absl( u[k] ) ); symmetric = symmetric && u[k] == u[0]; }
  if ( mode == 4 ) for ( int k = 0; k < T; ++k ) m = maxl( m, absl( static_cast< LD >( c.r[f0 + k] ) ) * T );
  ctx.nt( !symmetric );
  ctx.label( mode <= 2 ? "arbitrary field" : mode == 3 ? "one node" : "polynomial" );

  LD v, g[8];
  ok( in.value( t.data(), u, kind, v ), "the arguments of value are unchanged and its variable is asked once per node with its indices" );
  ok( in.gradient( t.data(), u, kind, g ), "the arguments of gradient are unchanged and its variable is asked with the indices of nodes" );
  LD const tolv = 40 * in.eps * in.ref.points() * in.ref.valueScale( t ) * m;
  LD want = 0;
  for ( int k = 0; k < T; ++k ) want += u[k] * in.ref.value( in.ref.digits( k ), t );
  near( "interpolated value", v, want, tolv );
  bool atNode = true;
  int flat = 0;
  for ( int d = 0; d < D; ++d )
  {
    int at = -1;
    for ( std::size_t i = 0; i < in.ref.nodes[d].size(); ++i ) if ( in.ref.nodes[d][i] == t[d] ) at = static_cast< int >( i );
    atNode = atNode && at >= 0;
    flat = flat * static_cast< int >( in.ref.nodes[d].size() ) + at;
  }
  if ( atNode ) { ctx.label( "at a node" ); near( "value at a node", v, u[static_cast< std::size_t >( flat )], tolv ); }
  for ( int comp = 0; comp < D; ++comp )
  {
    LD const tolg = 40 * in.eps * in.ref.points() * in.ref.gradientScale( t, comp ) * m;
    LD w = 0;
    for ( int k = 0; k < T; ++k ) w += u[k] * in.ref.gradient( in.ref.digits( k ), t, comp );
    near( "interpolated gradient, component " + str( comp ), g[comp], w, tolg );
  }
  if ( mode == 4 )
  {
    // the polynomial itself and its derivatives
    for ( int what = -1; what < D; ++what )
    {
      LD exact = 0;
      for ( int mm = 0; mm < T; ++mm )
      {
        LD term = static_cast< LD >( c.r[f0 + mm] );
        auto const e = in.ref.digits( mm );
        for ( int d = 0; d < D; ++d )
        {
          int const n = e[d];
          if ( d == what ) { if ( n == 0 ) term = 0; else { term *= n; for ( int q = 0; q < n - 1; ++q ) term *= t[d]; } }
          else for ( int q = 0; q < n; ++q ) term *= t[d];
        }
        exact += term;
      }
      LD const s = what < 0 ? in.ref.valueScale( t ) : in.ref.gradientScale( t, what );
      near( what < 0 ? std::string( "polynomial" ) : "derivative " + str( what ) + " of the polynomial", what < 0 ? v : g[what], exact, 60 * in.eps * in.ref.points() * s * m * T );
    }
  }
  // linear in the nodal values: scaled by a power of two and with one node raised
  std::vector< LD > u2 = u;
  for ( auto & x : u2 ) x *= -4;
  LD v2, g2[8];
  in.value( t.data(), u2, kind, v2 );
  in.gradient( t.data(), u2, kind, g2 );
  near( "value of the scaled field", v2, -4 * v, 8 * tolv );
  for ( int comp = 0; comp < D; ++comp ) near( "gradient of the scaled field", g2[comp], -4 * g[comp], 320 * in.eps * in.ref.points() * in.ref.gradientScale( t, comp ) * m );
  // nothing but the arguments counts
  LD v3, g3[8];
  in.value( t.data(), u, ( kind + 1 ) % 3, v3 );
  in.gradient( t.data(), u, ( kind + 2 ) % 3, g3 );
  near( "value through another kind of variable", v3, v, tolv );
  for ( int comp = 0; comp < D; ++comp ) near( "gradient through another kind of variable", g3[comp], g[comp], 80 * in.eps * in.ref.points() * in.ref.gradientScale( t, comp ) * m );
}

template< typename R, int ... N >
struct Functor
{
  R const * u;
  int * calls;   // per node
  bool * wrong;
  template< typename ... I >
  R operator()( I ... i ) const
  {
    static_assert( sizeof...( I ) == sizeof...( N ) );
    int const idx[] = { static_cast< int >( i ) ... };
    int const n[] = { N ... };
    int flat = 0;
    for ( std::size_t d = 0; d < sizeof...( N ); ++d )
    {
      if ( idx[d] < 0 || idx[d] >= n[d] ) { *wrong = true; return R( 0 ); }
      flat = flat * n[d] + idx[d];
    }
    ++calls[flat];
    return u[flat];
  }
};

template< typename R, typename PE, int ... N >
struct Call
{
  static constexpr int D = sizeof...( N );
  static constexpr int T = ( N * ... );

  template< typename F >
  static bool with( LD const * t, std::vector< LD > const & u, int kind, F && f )
  {
    R x[D];
    for ( int d = 0; d < D; ++d ) x[d] = static_cast< R >( t[d] );
    bool good = true;
    if ( kind == 0 )
    {
      shiva::CArrayNd< R, N... > a;
      for ( int k = 0; k < T; ++k ) a.data()[k] = static_cast< R >( u[static_cast< std::size_t >( k )] );
      f( x, a );
      for ( int k = 0; k < T; ++k ) good = good && a.data()[k] == static_cast< R >( u[static_cast< std::size_t >( k )] );
    }
    else if ( kind == 1 )
    {
      R a[T];
      int calls[T] = { 0 };
      bool wrong = false;
      for ( int k = 0; k < T; ++k ) a[k] = static_cast< R >( u[static_cast< std::size_t >( k )] );
      f( x, Functor< R, N... >{ a, calls, &wrong } );
      good = !wrong;
      for ( int k = 0; k < T; ++k ) good = good && calls[k] >= 1;
    }
    else
    {
      R a[T];
      for ( int k = 0; k < T; ++k ) a[k] = static_cast< R >( u[static_cast< std::size_t >( k )] );
      shiva::CArrayViewNd< R, N... > const view( a );
      f( x, view );
      for ( int k = 0; k < T; ++k ) good = good && a[k] == static_cast< R >( u[static_cast< std::size_t >( k )] );
    }
    for ( int d = 0; d < D; ++d ) good = good && x[d] == static_cast< R >( t[d] );
    return good;
  }
  static bool value( LD const * t, std::vector< LD > const & u, int kind, LD & out )
  {
    return with( t, u, kind, [&]( R const (&x)[D], auto const & var ) { out = PE::value( x, var ); } );
  }
  static bool gradient( LD const * t, std::vector< LD > const & u, int kind, LD * out )
  {
    return with( t, u, kind, [&]( R const (&x)[D], auto const & var ) { auto const g = PE::gradient( x, var ); for ( int d = 0; d < D; ++d ) out[d] = g( d ); } );
  }
};

template< typename R, typename ... B >
void inst( char const * name )
{
  constexpr int D = sizeof...( B );
  using PE = shiva::discretizations::finiteElementMethod::ParentElement< R, shiva::geometry::NCube< R, D, -1, 1, 1 >, B... >;
  static_assert( std::is_same_v< typename PE::CoordType, R[D] > );
  Inst in;
  in.dims = D;
  in.eps = eps< R >();
  in.round = &roundTo< R >;
  ( in.ref.nodes.push_back( nodesOf< B >() ), ... );
  in.value = &Call< R, PE, B::numSupportPoints... >::value;
  in.gradient = &Call< R, PE, B::numSupportPoints... >::gradient;
  constexpr int T = ( B::numSupportPoints * ... );
  Prop p;
  p.name = std::string( "ParentElement<" ) + rname< R >() + "," + name + ">";
  p.ints = cat( std::vector< IDom >{ { 0, 4 }, { 0, 2 }, { 0, T - 1 }, { -100, 100 } }, coordInts( D ) );
  p.reals = cat( coordReals( D ), reals( T, { 'v', -3, 3 } ) );
  p.run = [in]( Ctx & ctx, Case const & c ) { run( ctx, c, in ); };
  add( p );
}

template< typename R >
void all()
{
  using E1 = LagrangeBasis< R, 1, EqualSpacing >;
  using E2 = LagrangeBasis< R, 2, EqualSpacing >;
  using E3 = LagrangeBasis< R, 3, EqualSpacing >;
  using L2 = LagrangeBasis< R, 2, GaussLobattoSpacing >;
  using L3 = LagrangeBasis< R, 3, GaussLobattoSpacing >;
  using L4 = LagrangeBasis< R, 4, GaussLobattoSpacing >;
  using G1 = LagrangeBasis< R, 1, GaussLegendreSpacing >;
  using A1 = LagrangeBasis< R, 1, CustomA >;
  using B2 = LagrangeBasis< R, 2, CustomB >;
  inst< R, L4 >( "L4" );
  inst< R, B2 >( "B2" );
  inst< R, E1, E1 >( "E1,E1" );
  inst< R, A1, L3 >( "A1,L3" );
  inst< R, E3, B2 >( "E3,B2" );
  inst< R, E1, E1, E1 >( "E1,E1,E1" );
  inst< R, A1, B2, L3 >( "A1,B2,L3" );
  inst< R, E2, G1, E1 >( "E2,G1,E1" );
  inst< R, L2, L2, L2 >( "L2,L2,L2" );
  inst< R, LagrangeBasis< R, 7, GaussLobattoSpacing >, LagrangeBasis< R, 5, GaussLobattoSpacing > >( "L7,L5" );
  inst< R, L4, L3, L4 >( "L4,L3,L4" );
  inst< R, A1, E2, B2, E1 >( "A1,E2,B2,E1" );
  inst< R, E1, A1, E2, G1, A1 >( "E1,A1,E2,G1,A1" );
}
static bool const registered = ( all< VH_REAL >(), true );
