// C20: the Jacobian of a geometry transform is the derivative of its map.
// C21 (VH_INVERSE): inverse Jacobian and determinant belong to the Jacobian, in all forms.
#include "geom_common.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
using namespace vh;

struct QuadForm
{
  char const * name;
  std::vector< std::vector< LD > > points;                      ///< one coordinate per quadrature point
  M3 ( *jacobian )( std::vector< LD > const &, int, bool & );     ///< vertices, number of the point
};
struct Inst
{
  int dims = 0;
  LD eps = 0;
  LD ( *round )( LD ) = nullptr;
  TensorRef ref;
  /// vertices (row-major, component last), kind of coordinate or form, coordinate -> Jacobian
  M3 ( *jacobian )( std::vector< LD > const &, int, LD const *, bool & ) = nullptr;
  void ( *inverse )( std::vector< LD > const &, int, LD const *, M3 &, LD &, bool & ) = nullptr;
  bool constInCell = false;
  std::vector< QuadForm > quads;
};

template< typename T, typename R, int ... N >
struct Cell
{
  static constexpr int D = sizeof...( N );
  static constexpr int V = ( N * ... );
  static void load( T & x, std::vector< LD > const & X, int how )
  {
    if constexpr ( D == 3 )
    {
      if ( how & 1 )
      {
        constexpr int n[] = { N ... };
        R a[V][3];
        for ( int v = 0; v < V; ++v )
        {
          int const i = v % n[0], j = v / n[0] % n[1], k = v / n[0] / n[1];
          for ( int q = 0; q < 3; ++q ) a[v][q] = static_cast< R >( X[static_cast< std::size_t >( ( ( i * n[1] + j ) * n[2] + k ) * 3 + q )] );
        }
        x.setData( a );
        return;
      }
    }
    for ( int k = 0; k < V * D; ++k ) x.getData().data()[k] = static_cast< R >( X[static_cast< std::size_t >( k )] );
  }
  static bool same( T const & x, std::vector< LD > const & X )
  {
    for ( int k = 0; k < V * D; ++k ) if ( !( x.getData().data()[k] == static_cast< R >( X[static_cast< std::size_t >( k )] ) ) ) return false;
    return true;
  }
  template< typename J > static M3 out( J const & j ) { M3 m{}; for ( int a = 0; a < D; ++a ) for ( int b = 0; b < D; ++b ) m[a][b] = j( a, b ); return m; }
  template< typename J > static void junk( J & j, int how ) { for ( int a = 0; a < D; ++a ) for ( int b = 0; b < D; ++b ) j( a, b ) = how % 3 == 0 ? std::numeric_limits< R >::quiet_NaN() : how % 3 == 1 ? R( 1000 + a * 10 + b ) : R( 0 ); }

  static M3 jacobian( std::vector< LD > const & X, int form, LD const * t, bool & good )
  {
    T x;
    load( x, X, form / 4 );
    T const & cx = x;
    typename T::JacobianType J;
    junk( J, form );
    R c[D];
    std::array< R, D > sc;
    shiva::CArrayNd< R, D > cc;
    for ( int d = 0; d < D; ++d ) { c[d] = static_cast< R >( t[d] ); sc[static_cast< std::size_t >( d )] = c[d]; cc( d ) = c[d]; }
    R const ( &rc )[D] = c;
    switch ( form % 4 )
    {
      case 0: gu::jacobian( cx, rc, J ); break;
      case 1: gu::jacobian( cx, sc, J ); break;
      case 2: gu::jacobian( cx, cc, J ); break;
      default:
        if constexpr ( D == 3 ) { auto const r = gu::jacobian( cx, rc ); static_assert( std::is_same_v< std::decay_t< decltype( r ) >, typename T::JacobianType > ); J = r; }
        else gu::jacobian( cx, rc, J );
        break;
    }
    good = same( x, X );
    for ( int d = 0; d < D; ++d ) good = good && c[d] == static_cast< R >( t[d] ) && sc[static_cast< std::size_t >( d )] == c[d] && cc( d ) == c[d];
    return out( J );
  }
  static void inverse( std::vector< LD > const & X, int form, LD const * t, M3 & inv, LD & det, bool & good )
  {
    T x;
    load( x, X, form / 4 );
    T const & cx = x;
    typename T::JacobianType I;
    junk( I, form );
    R d = form % 3 == 0 ? std::numeric_limits< R >::quiet_NaN() : R( -77 );
    R c[D];
    std::array< R, D > sc;
    shiva::CArrayNd< R, D > cc;
    for ( int k = 0; k < D; ++k ) { c[k] = static_cast< R >( t[k] ); sc[static_cast< std::size_t >( k )] = c[k]; cc( k ) = c[k]; }
    R const ( &rc )[D] = c;
    switch ( form % 4 )
    {
      case 0: gu::inverseJacobian( cx, rc, I, d ); break;
      case 1: gu::inverseJacobian( cx, sc, I, d ); break;
      case 2: gu::inverseJacobian( cx, cc, I, d ); break;
      default:
      {
        auto const [first, second] = gu::inverseJacobian( cx, rc );
        static_assert( std::is_same_v< std::decay_t< decltype( first ) >, R > );
        static_assert( std::is_same_v< std::decay_t< decltype( second ) >, typename T::JacobianType > );
        d = first;
        I = second;
        break;
      }
    }
    inv = out( I );
    det = d;
    good = same( x, X );
    for ( int k = 0; k < D; ++k ) good = good && c[k] == static_cast< R >( t[k] );
  }
  template< typename Q, int NQ, int ... P >
  static M3 atPoint( std::vector< LD > const & X, int, bool & good )
  {
    T x;
    load( x, X, ( P + ... ) );
    T const & cx = x;
    typename T::JacobianType J;
    junk( J, ( P + ... ) );
    gu::jacobian< Q, P ... >( cx, J );
    good = same( x, X );
    return out( J );
  }
  template< typename Q, int NQ >
  static M3 quadrature( std::vector< LD > const & X, int point, bool & good )
  {
    M3 r{};
    staticFor< NQ * NQ * NQ >( [&]( auto k )
    {
      constexpr int K = decltype( k )::value;
      if ( K == point ) r = atPoint< Q, NQ, digitOf< 0, NQ, NQ, NQ >( K ), digitOf< 1, NQ, NQ, NQ >( K ), digitOf< 2, NQ, NQ, NQ >( K ) >( X, 0, good );
    } );
    return r;
  }
  template< typename Q, int NQ >
  static QuadForm quad( char const * name )
  {
    QuadForm q;
    q.name = name;
    std::vector< LD > p;
    staticFor< NQ >( [&]( auto i ) { p.push_back( static_cast< LD >( Q::template coordinate< decltype( i )::value >() ) ); } );
    for ( int a = 0; a < NQ; ++a ) for ( int b = 0; b < NQ; ++b ) for ( int c = 0; c < NQ; ++c ) q.points.push_back( { p[static_cast< std::size_t >( a )], p[static_cast< std::size_t >( b )], p[static_cast< std::size_t >( c )] } );
    q.jacobian = &Cell::quadrature< Q, NQ >;
    return q;
  }
};

/// vertices of a cell from a case
struct Made { std::vector< LD > X; bool linear = false; M3 L{}; LD m = 0; };
static Made vertices( Case const & c, Inst const & in, std::size_t f0 )
{
  int const D = in.dims, V = in.ref.total();
  Made r;
  r.X.resize( static_cast< std::size_t >( V * D ) );
  int const mode = static_cast< int >( c.i[0] );
  // lengths of a few units, or of any magnitude at which the Jacobian (and its determinant) stays a normal number
  LD scale = std::pow( 10.0L, static_cast< LD >( c.i[1] % 5 ) );
#ifdef VH_INVERSE
  int const widest = in.eps > 1e-10L ? 27 : 270;   // the determinant is the cube
#else
  int const widest = in.eps > 1e-10L ? 80 : 800;
#endif
  if ( c.i[1] > 50 || c.i[1] < -50 ) scale = std::ldexp( 1.0L, static_cast< int >( c.i[1] < 0 ? c.i[1] + 50 : c.i[1] - 50 ) * widest / 50 );
  for ( int i = 0; i < D; ++i ) for ( int j = 0; j < D; ++j ) r.L[i][j] = c.r[f0 + static_cast< std::size_t >( 3 * i + j )] * scale;
  r.linear = mode == 2;
  // mode 3: a box, mode 4: a linear cell, each with one vertex that is moved
  int const alone = static_cast< int >( c.i[3] + 27 * c.i[4] ) % V;
  for ( int v = 0; v < V; ++v )
  {
    auto const idx = in.ref.digits( v );
    for ( int i = 0; i < D; ++i )
    {
      LD x = 0;
      LD const p = c.r[f0 + 9 + static_cast< std::size_t >( v * D + i )];
      if ( mode == 0 ) x = p * scale;
      else if ( mode == 2 || mode == 4 ) { x = r.L[i][0] * 0; for ( int j = 0; j < D; ++j ) x += r.L[i][j] * in.ref.nodes[static_cast< std::size_t >( j )][static_cast< std::size_t >( idx[static_cast< std::size_t >( j )] )]; x += scale * c.r[f0 + static_cast< std::size_t >( i )] / 4; if ( mode == 4 && v == alone ) x += scale * p; }
      else
      {
        LD const h = scale * ( 0.5L + absl( c.r[f0 + static_cast< std::size_t >( i )] ) );
        x = h * in.ref.nodes[static_cast< std::size_t >( i )][static_cast< std::size_t >( idx[static_cast< std::size_t >( i )] )] + ( mode == 3 && v != alone ? 0 : 0.05L * h * ( p > 1 ? 1 : p < -1 ? -1 : p ) );
      }
      x = in.round( x );
      r.X[static_cast< std::size_t >( v * D + i )] = x;
      r.m = maxl( r.m, absl( x ) );
    }
  }
  return r;
}

#ifndef VH_INVERSE
static void run( Ctx & ctx, Case const & c, Inst const & in )
{
  int const D = in.dims, V = in.ref.total();
  std::vector< LD > t = coordOf( c, 5, 0, in.ref, in.round );
  Made const made = vertices( c, in, static_cast< std::size_t >( 2 * D ) );
  int const form = static_cast< int >( c.i[2] );
  bool good = true;
  M3 J;
  if ( form >= 24 && !in.quads.empty() )
  {
    auto const & q = in.quads[static_cast< std::size_t >( form ) % in.quads.size()];
    int const point = static_cast< int >( c.i[3] ) % static_cast< int >( q.points.size() );
    t = q.points[static_cast< std::size_t >( point )];
    J = q.jacobian( made.X, point, good );
    ctx.label( q.name );
  }
  else J = in.jacobian( made.X, form % 24, t.data(), good );
  ok( good, "transform and coordinate are unchanged" );
  M3 tol;
  for ( int i = 0; i < D; ++i ) for ( int j = 0; j < D; ++j )
  {
    LD want = 0, mi = 0;
    for ( int v = 0; v < V; ++v )
    {
      want += in.ref.gradient( in.ref.digits( v ), t, j ) * made.X[static_cast< std::size_t >( v * D + i )];
      mi = maxl( mi, absl( made.X[static_cast< std::size_t >( v * D + i )] ) );
    }
    tol[i][j] = 40 * in.eps * in.ref.points() * in.ref.gradientScale( t, j ) * mi;
    near( "Jacobian " + str( i ) + str( j ), J[i][j], want, tol[i][j] );
    if ( made.linear ) near( "Jacobian of a linear cell " + str( i ) + str( j ), J[i][j], made.L[i][j], 2 * tol[i][j] );
  }
  // translated vertices, and vertices mapped by a linear map
  std::vector< LD > moved = made.X;
  LD shift[3] = { 0.5L, -2, 1 };
  LD const size = made.m > 0 ? std::ldexp( 1.0L, std::ilogb( made.m ) ) : 1;
  LD const A[3][3] = { { 0.5L, -2, 1 }, { 0, 1, -0.25L }, { 2, 0, -1 } };
  bool const translate = c.i[4] & 1;
  LD mm = 0;
  for ( int v = 0; v < V; ++v )
  {
    for ( int i = 0; i < D; ++i )
    {
      LD y = 0;
      if ( translate ) y = made.X[static_cast< std::size_t >( v * D + i )] + shift[i] * size;
      else for ( int k = 0; k < D; ++k ) y += A[i][k] * made.X[static_cast< std::size_t >( v * D + k )];
      moved[static_cast< std::size_t >( v * D + i )] = in.round( y );
      mm = maxl( mm, absl( y ) );
    }
  }
  M3 const J2 = in.jacobian( moved, static_cast< int >( c.i[4] ) % 24, t.data(), good );
  for ( int i = 0; i < D; ++i ) for ( int j = 0; j < D; ++j )
  {
    LD want = J[i][j];
    if ( !translate ) { want = 0; for ( int k = 0; k < D; ++k ) want += A[i][k] * J[k][j]; }
    near( translate ? "Jacobian after a translation" : "Jacobian after a linear map", J2[i][j], want, 200 * in.eps * in.ref.points() * in.ref.gradientScale( t, j ) * mm );
  }
  bool varies = false;
  for ( int d = 1; d < D; ++d ) varies = varies || t[static_cast< std::size_t >( d )] != t[0];
  ctx.nt( made.m > 0 && ( varies || D == 1 ) );
  ctx.label( made.linear ? "linear cell" : c.i[0] == 0 ? "arbitrary vertices" : c.i[0] >= 3 ? "one vertex moved" : "distorted box" );
}
#else
static void run( Ctx & ctx, Case const & c, Inst const & in )
{
  int const D = in.dims;
  std::vector< LD > t = coordOf( c, 5, 0, in.ref, in.round );
  Made const made = vertices( c, in, static_cast< std::size_t >( 2 * D ) );
  bool good = true;
  M3 const J = in.jacobian( made.X, static_cast< int >( c.i[3] ) % 24, t.data(), good );
  M3 scale;
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
  {
    LD mi = 0;
    for ( int v = 0; v < in.ref.total(); ++v ) mi = maxl( mi, absl( made.X[static_cast< std::size_t >( v * D + i )] ) );
    scale[i][j] = absl( J[i][j] ) + 2 * in.ref.gradientScale( t, j ) * mi;
  }
  // constant in the cell only if it is
  if ( in.constInCell )
  {
    LD const other[3] = { in.round( 0.5L ), in.round( -0.25L ), in.round( 0.75L ) };
    M3 const K = in.jacobian( made.X, 0, other, good );
    for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) near( "a Jacobian that is reported as constant", K[i][j], J[i][j], 60 * in.eps * scale[i][j] );
  }
  M3 want, inv;
  LD det, d;
  if ( !exactInverse( J, want, det ) ) { ctx.label( "singular" ); return; }
  Bound const b = boundOf( J, scale, det, in.eps );
  in.inverse( made.X, static_cast< int >( c.i[2] ) % 24, t.data(), inv, d, good );
  ok( good, "transform and coordinate are unchanged" );
  near( "determinant", d, det, b.det );
  if ( !b.invertible ) { ctx.label( "singular up to rounding" ); return; }
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) near( "inverse " + str( i ) + str( j ), inv[i][j], want[i][j], b.inv[i][j] );
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
  {
    LD v = 0, tol = 0;
    for ( int k = 0; k < 3; ++k ) { v += J[i][k] * inv[k][j]; tol += absl( J[i][k] ) * b.inv[k][j]; }
    near( "Jacobian times inverse", v, i == j, tol + 1e-18L );
  }
  // another form
  M3 inv2;
  LD d2;
  in.inverse( made.X, ( static_cast< int >( c.i[2] ) + 1 + static_cast< int >( c.i[4] ) % 23 ) % 24, t.data(), inv2, d2, good );
  near( "determinant in another form", d2, d, 2 * b.det );
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) near( "inverse in another form", inv2[i][j], inv[i][j], 2 * b.inv[i][j] );
  ctx.nt( true );
  ctx.label( made.linear ? "linear cell" : c.i[0] == 0 ? "arbitrary vertices" : c.i[0] >= 3 ? "one vertex moved" : "distorted box" );
}
#endif

template< typename R, typename ... B >
Inst make()
{
  constexpr int D = sizeof...( B );
  using T = TransformOf< R, R, B... >;
  using C = Cell< T, R, B::numSupportPoints... >;
  Inst in;
  in.dims = D;
  in.eps = eps< R >();
  in.round = &roundTo< R >;
  ( in.ref.nodes.push_back( nodesOf< B >() ), ... );
  in.jacobian = &C::jacobian;
  if constexpr ( D == 3 ) in.inverse = &C::inverse;
  in.constInCell = T::jacobianIsConstInCell();
  return in;
}
template< typename R, typename ... B > using CellOf = Cell< TransformOf< R, R, B... >, R, B::numSupportPoints... >;

static void reg( char const * name, char const * type, Inst in )
{
  int const D = in.dims;
  Prop p;
  p.name = std::string( "LinearTransform<" ) + type + "," + name + ">";
  p.ints = cat( std::vector< IDom >{ { 0, 4 }, { -100, 100 }, { 0, in.quads.empty() ? 23 : 47 }, { 0, 26 }, { 0, 47 } }, coordInts( D ) );
  p.reals = cat( cat( coordReals( D ), reals( 9, { 'v', -1, 1 } ) ), reals( in.ref.total() * D, { 'v', -1, 1 } ) );
  p.run = [in]( Ctx & ctx, Case const & c ) { run( ctx, c, in ); };
  add( p );
}

template< typename R >
static void all()   // differs between the parts
{
  using E1 = LagrangeBasis< R, 1, EqualSpacing >;
  using E2 = LagrangeBasis< R, 2, EqualSpacing >;
  using L3 = LagrangeBasis< R, 3, GaussLobattoSpacing >;
  using G1 = LagrangeBasis< R, 1, GaussLegendreSpacing >;
  using A1 = LagrangeBasis< R, 1, CustomA >;
  using B2 = LagrangeBasis< R, 2, CustomB >;
  using C1 = LagrangeBasis< R, 1, CustomC >;
  (void) sizeof( E2 ); (void) sizeof( C1 ); (void) sizeof( G1 );
  char const * const type = rname< R >();
#if VH_PART == 0
  {
    Inst in = make< R, E1, E1, E1 >();
#ifndef VH_INVERSE
    using C = CellOf< R, E1, E1, E1 >;
    in.quads.push_back( C::template quad< shiva::QuadratureGaussLegendre< R, 2 >, 2 >( "Gauss-Legendre, two points" ) );
    in.quads.push_back( C::template quad< shiva::QuadratureGaussLobatto< R, 3 >, 3 >( "Gauss-Lobatto, three points" ) );
#endif
    reg( "E1,E1,E1", type, in );
  }
#ifndef VH_INVERSE
  reg( "B2", type, make< R, B2 >() );
  reg( "A1,L3", type, make< R, A1, L3 >() );
  reg( "E1,E1", type, make< R, E1, E1 >() );
#endif
#elif VH_PART == 1
  {
    Inst in = make< R, A1, B2, L3 >();
#ifndef VH_INVERSE
    using C = CellOf< R, A1, B2, L3 >;
    in.quads.push_back( C::template quad< shiva::QuadratureGaussLegendre< R, 2 >, 2 >( "Gauss-Legendre, two points" ) );
#endif
    reg( "A1,B2,L3", type, in );
  }
  reg( "A1,C1,E1", type, make< R, A1, C1, E1 >() );
#else
  {
    Inst in = make< R, E2, E1, G1 >();
#ifndef VH_INVERSE
    using C = CellOf< R, E2, E1, G1 >;
    in.quads.push_back( C::template quad< shiva::QuadratureGaussLegendre< R, 3 >, 3 >( "Gauss-Legendre, three points" ) );
#endif
    reg( "E2,E1,G1", type, in );
  }
  reg( "C1,A1,B2", type, make< R, C1, A1, B2 >() );
#endif
}

#ifdef VH_INVERSE
// scaling mappings: diagonal Jacobians without a coordinate
template< typename R, bool UNIFORM >
void scalings()
{
  Prop p;
  p.name = std::string( UNIFORM ? "UniformScaling<" : "Scaling<" ) + rname< R >() + ">";
  p.ints = { { 0, 3 }, { 0, 3 } };
  p.reals = reals( 3, { 's', -6, 6 } );
  p.run = []( Ctx & ctx, Case const & c )
  {
    using T = std::conditional_t< UNIFORM, geo::UniformScaling< R >, geo::Scaling< R > >;
    using J = typename T::JacobianType;
    T x;
    R h[3];
    for ( int k = 0; k < 3; ++k ) h[k] = static_cast< R >( c.r[UNIFORM ? 0 : static_cast< std::size_t >( k )] );
    if constexpr ( UNIFORM ) x.setData( h[0] ); else x.setData( h );
    static_assert( T::jacobianIsConstInCell() == true || T::jacobianIsConstInCell() == false );
    T const & cx = x;
    J j, i1;
    R d1 = c.i[1] & 1 ? R( -7 ) : std::numeric_limits< R >::quiet_NaN();
    constexpr int n = UNIFORM ? 1 : 3;
    for ( int k = 0; k < n; ++k ) { j( k ) = i1( k ) = c.i[1] & 2 ? R( 55 ) : std::numeric_limits< R >::quiet_NaN(); }
    if ( c.i[0] & 1 ) gu::jacobian( cx, j ); else j = gu::jacobian( cx );
    gu::inverseJacobian( cx, i1, d1 );
    auto const [d2, i2] = gu::inverseJacobian( cx );
    static_assert( std::is_same_v< std::decay_t< decltype( d2 ) >, R > && std::is_same_v< std::decay_t< decltype( i2 ) >, J > );
    LD det = 1;
    LD const e = eps< R >();
    for ( int k = 0; k < 3; ++k ) det *= static_cast< LD >( j( UNIFORM ? 0 : k ) );
    near( "determinant", d1, det, 8 * e * absl( det ) );
    near( "determinant of the form that returns", d2, det, 8 * e * absl( det ) );
    for ( int k = 0; k < n; ++k )
    {
      near( "inverse", static_cast< LD >( i1( k ) ) * static_cast< LD >( j( k ) ), 1, 6 * e );
      near( "inverse of the form that returns", static_cast< LD >( i2( k ) ) * static_cast< LD >( j( k ) ), 1, 6 * e );
    }
    ctx.nt( true );
    ctx.label( UNIFORM ? "uniform scaling" : "scaling" );
  };
  add( p );
}
#endif
static bool const registered = ( []
{
  all< VH_REAL >();
#if defined( VH_INVERSE ) && VH_PART == 0
  scalings< VH_REAL, true >();
  scalings< VH_REAL, false >();
#endif
}(), true );
