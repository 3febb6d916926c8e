// C25: calls whose results are compared between configurations (see c25_drv.cpp)
#include "c25_api.hpp"
#include "geom_common.hpp"
#include "quad_common.hpp"
#include "shiva/common/pmpl.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"
using namespace vh;

namespace
{
std::vector< Entry > entries;
void entry( std::string name, std::vector< IDom > i, std::vector< RDom > r, void ( *f )( Case const &, Out & ), int tmin = 0, int tmax = 0, IDom t = { 0, 0 } )
{
  entries.push_back( { std::move( name ), std::move( i ), std::move( r ), tmin, tmax, t, f } );
}
std::uint64_t digit( std::uint64_t & u, std::uint64_t r ) { std::uint64_t const x = u % r; u /= r; return x; }

#if VH_PART == 0
template< typename B, typename R >
void basis( Case const & c, Out & o )
{
  auto const x = nodesOf< B >();
  R const t = static_cast< R >( c.i[0] < 6 ? c.r[0] : c.r[1] );
  R const q = opaque( t );
  for ( auto v : x ) o.f( "support point", static_cast< R >( v ), 4 );
  o.i( "order", B::order ); o.i( "support points", B::numSupportPoints ); o.i( "size", sizeof( B ) );
  staticFor< B::numSupportPoints >( [&]( auto k )
  {
    constexpr int K = decltype( k )::value;
    LD sv = 1, sd = 0, gap = 2;
    for ( int a = 0; a < B::numSupportPoints; ++a ) if ( a != K ) { sv *= maxl( 1, absl( ( t - x[a] ) / ( x[K] - x[a] ) ) + absl( 1 / ( x[K] - x[a] ) ) ); if ( absl( x[K] - x[a] ) < gap ) gap = absl( x[K] - x[a] ); }
    sd = sv * B::numSupportPoints / gap;
    o.f( "value", B::template value< K >( q ), 16 * B::numSupportPoints * sv );
    o.f( "gradient", B::template gradient< K >( q ), 16 * B::numSupportPoints * sd );
  } );
  o.nontrivial = B::order > 1;
}
template< typename R, int ORDER, template< typename, int > class S >
void addBasis( char const * s )
{
  entry( std::string( "basis " ) + s + " order " + str( ORDER ) + " " + rname< R >(), { { 0, 7 } }, { { 'u', -1, 1 }, { 'u', -3, 3 } }, basis< LagrangeBasis< R, ORDER, S >, R > );
}
template< typename R >
void addBases()
{
  addBasis< R, 1, EqualSpacing >( "equal" ); addBasis< R, 2, EqualSpacing >( "equal" ); addBasis< R, 3, EqualSpacing >( "equal" ); addBasis< R, 5, EqualSpacing >( "equal" );
  addBasis< R, 1, GaussLobattoSpacing >( "Lobatto" ); addBasis< R, 3, GaussLobattoSpacing >( "Lobatto" ); addBasis< R, 4, GaussLobattoSpacing >( "Lobatto" );
  addBasis< R, 5, GaussLobattoSpacing >( "Lobatto" ); addBasis< R, 8, GaussLobattoSpacing >( "Lobatto" );
  addBasis< R, 1, GaussLegendreSpacing >( "Legendre" ); addBasis< R, 2, GaussLegendreSpacing >( "Legendre" ); addBasis< R, 3, GaussLegendreSpacing >( "Legendre" );
  addBasis< R, 4, CustomA >( "generated" ); addBasis< R, 2, CustomB >( "generated" );
}

template< typename Q, typename R >
void rule( Case const & c, Out & o )
{
  constexpr int N = Q::numPoints;
  int const k = static_cast< int >( c.i[0] ) % N;
  o.f( "coordinate", Q::coordinate( opaque( k ) ), 4 );
  staticFor< N >( [&]( auto a )
  {
    constexpr int A = decltype( a )::value;
    o.f( "coordinate as template", Q::template coordinate< A >(), 4 );
    o.f( "weight as template", Q::template weight< A >(), 4 );
  } );
  if constexpr ( N <= 4 || ( N == 5 && std::is_base_of_v< GaussLobattoSpacing< R, N >, Q > ) ) o.f( "weight", Q::weight( opaque( k ) ), 4 );
  o.nontrivial = N > 2;
}
template< typename R >
void addRules()
{
#define L( N ) entry( "Lobatto rule " #N " " + std::string( rname< R >() ), { { 0, N - 1 } }, {}, rule< shiva::QuadratureGaussLobatto< R, N >, R > );
  L( 2 ) L( 3 ) L( 4 ) L( 5 ) L( 6 ) L( 7 ) L( 8 ) L( 9 )
#undef L
#define G( N ) entry( "Legendre rule " #N " " + std::string( rname< R >() ), { { 0, N - 1 } }, {}, rule< shiva::QuadratureGaussLegendre< R, N >, R > );
  G( 2 ) G( 3 ) G( 4 )
#undef G
}

template< typename S, typename R >
void shape( Case const &, Out & o )
{
  o.i( "dimensions", S::numDims() ); o.i( "vertices", S::numVertices() ); o.i( "edges", S::numEdges() ); o.i( "faces", S::numFaces() );
  o.i( "cells", S::numCells() ); o.i( "hyperfaces", S::numHyperFaces() );
  o.f( "minimum", S::minCoord(), 4 * absl( S::minCoord() ) ); o.f( "maximum", S::maxCoord(), 4 * absl( S::maxCoord() ) );
  o.f( "length", S::length(), 4 * absl( S::length() ) ); o.f( "volume", S::volume(), 64 * absl( S::volume() ) );
  o.nontrivial = S::numDims() > 1;
}
template< typename R, template< typename, int, int, int, int > class S >
void addShapes( std::string s )
{
  entry( s + " 1", {}, {}, shape< S< R, 1, -3, 4, 5 >, R > ); entry( s + " 2", {}, {}, shape< S< R, 2, -1, 1, 1 >, R > );
  entry( s + " 3", {}, {}, shape< S< R, 3, 0, 1, 3 >, R > ); entry( s + " 4", {}, {}, shape< S< R, 4, -7, 11, 2 >, R > ); entry( s + " 7", {}, {}, shape< S< R, 7, 1, 2, 1 >, R > );
}

template< typename R >
void scaling( Case const & c, Out & o )
{
  geo::Scaling< R > s; geo::UniformScaling< R > u;
  R h[3] = { static_cast< R >( c.r[0] ), static_cast< R >( c.r[1] ), static_cast< R >( c.r[2] ) };
  if ( c.i[0] ) { s.setData( h ); u.setData( h[1] ); }
  else { s.setData()[1] = h[1]; u.setData() = h[2]; }
  for ( int k = 0; k < 3; ++k ) o.f( "length", s.getData()[k], 0 );
  o.f( "uniform length", u.getData(), 0 );
  typename geo::Scaling< R >::JacobianType J; R d;
  gu::jacobian( s, J );
  for ( int k = 0; k < 3; ++k ) o.f( "Jacobian", J( k ), 4 * absl( J( k ) ) );
  gu::inverseJacobian( s, J, d );
  for ( int k = 0; k < 3; ++k ) o.f( "inverse", J( k ), 4 * absl( J( k ) ) );
  o.f( "determinant", d, 8 * absl( d ) );
  auto const [du, iu] = gu::inverseJacobian( u );
  o.f( "uniform determinant", du, 8 * absl( du ) ); o.f( "uniform inverse", iu( 0 ), 4 * absl( iu( 0 ) ) );
  auto const ju = gu::jacobian( u );
  o.f( "uniform Jacobian", ju( 0 ), 4 * absl( ju( 0 ) ) );
  o.i( "constant in cell", s.jacobianIsConstInCell() + 2 * u.jacobianIsConstInCell() );
  o.nontrivial = true;
}

template< typename R >
void inverse( Case const & c, Out & o )
{
  R a[3][3];
  shiva::CArrayNd< R, 3, 3 > b;
  M3 m, inv;
  for ( int k = 0; k < 9; ++k ) { m[k / 3][k % 3] = b( k / 3, k % 3 ) = a[k / 3][k % 3] = static_cast< R >( c.r[static_cast< std::size_t >( k )] ); }
  R d = 0, e = 0;
  shiva::mathUtilities::inverse( a, d );
  shiva::mathUtilities::inverse( b, e );
  LD det;
  bool const fine = exactInverse( m, inv, det );
  Bound const bd = boundOf( m, absOf( m ), det, eps< R >() );
  o.f( "determinant of an array", d, 4 * bd.det / eps< R >() );
  o.f( "determinant of an array object", e, 4 * bd.det / eps< R >() );
  if ( fine && bd.invertible ) for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
  {
    o.f( "inverse of an array", a[i][j], 4 * bd.inv[i][j] / eps< R >() );
    o.f( "inverse of an array object", b( i, j ), 4 * bd.inv[i][j] / eps< R >() );
  }
  o.nontrivial = fine && bd.invertible;
}
template< typename R >
void scalars( Case const & c, Out & o )
{
  namespace mu = shiva::mathUtilities;
  R const x = static_cast< R >( c.r[0] ), y = static_cast< R >( c.r[1] );
  o.f( "pow 0", mu::pow< R, 0 >( x ), 0 ); o.f( "pow 1", mu::pow< R, 1 >( x ), 0 ); o.f( "pow 2", mu::pow< R, 2 >( x ), 4 * x * x );
  LD const p7 = absl( mu::pow< LD, 7 >( x ) );
  o.f( "pow 7", mu::pow< R, 7 >( x ), 16 * p7 );
  int const n = static_cast< int >( c.i[0] );
  o.i( "integer power 3", mu::pow< int, 3 >( n ) ); o.i( "long power 6", mu::pow< long, 6 >( n ) );
  LD const diff = absl( static_cast< LD >( x ) - y );
  R const tol = static_cast< R >( c.r[2] );
  if ( absl( diff - tol ) > 8 * eps< R >() * absl( tol ) ) o.i( "comparison", shiva::pmpl::check( x, y, tol ) );
  o.i( "binomial", mu::binomialCoefficient< int, 9, 4 >::value + mu::binomialCoefficient< long, 20, 7 >::value ); o.i( "factorial", mu::factorial< long, 18 >::value );
  o.nontrivial = n > 1;
}
template< typename R >
void addScalars()
{
  std::string const r = rname< R >();
  double const w = sizeof( R ) == 4 ? 4 : 40;
  entry( "scaling " + r, { { 0, 1 } }, reals( 3, { 'p', -w, w } ), scaling< R > );
  entry( "inverse " + r, {}, reals( 9, { 'v', -2, 2 } ), inverse< R > );
  entry( "numbers " + r, { { -1000, 1000 } }, { { 's', -4, 4 }, { 's', -4, 4 }, { 'p', -4, 4 } }, scalars< R > );
}
#endif

#if VH_PART == 1
template< typename P, typename SH, typename R, typename ... B >
struct Product
{
  static constexpr int D = sizeof...( B );
  static constexpr int N = ( B::numSupportPoints * ... );
  template< int K, int ... I >
  static void one( R const ( &t )[D], Out & o, LD sv, LD sd, int form, std::integer_sequence< int, I... > )
  {
    std::array< R, D > st{ t[I] ... };
    shiva::CArrayNd< R, D > ct{ t[I] ... };
    if ( form == 0 )
    {
      o.f( "value", P::template value< digitOf< I, B::numSupportPoints ... >( K ) ... >( t ), sv );
      auto const g = P::template gradient< digitOf< I, B::numSupportPoints ... >( K ) ... >( t );
      for ( int d = 0; d < D; ++d ) o.f( "gradient", g( d ), sd );
    }
    else if ( form == 1 )
    {
      o.f( "value", P::template value< digitOf< I, B::numSupportPoints ... >( K ) ... >( st ), sv );
      auto const g = P::template gradient< digitOf< I, B::numSupportPoints ... >( K ) ... >( st );
      for ( int d = 0; d < D; ++d ) o.f( "gradient", g( d ), sd );
    }
    else
    {
      o.f( "value", SH::template value< digitOf< I, B::numSupportPoints ... >( K ) ... >( ct ), sv );
      auto const g = SH::template gradient< digitOf< I, B::numSupportPoints ... >( K ) ... >( ct );
      for ( int d = 0; d < D; ++d ) o.f( "gradient", g( d ), sd );
    }
  }
  static void eval( Case const & c, Out & o )
  {
    TensorRef ref;
    ref.nodes = { nodesOf< B >() ... };
    R t[D];
    std::vector< LD > lt;
    for ( int d = 0; d < D; ++d ) { t[d] = static_cast< R >( c.r[static_cast< std::size_t >( d )] ); lt.push_back( t[d] ); }
    LD sv = 64 * ref.valueScale( lt ) * ref.total(), sd = 0;
    for ( auto & x : ref.nodes ) { LD g = 2; for ( std::size_t a = 0; a < x.size(); ++a ) for ( std::size_t b = 0; b < a; ++b ) g = absl( x[a] - x[b] ) < g ? absl( x[a] - x[b] ) : g; sv /= g; }
    for ( int d = 0; d < D; ++d ) sd = maxl( sd, ref.gradientScale( lt, d ) );
    sd = sd * sv;
    int const form = static_cast< int >( c.i[0] );
    staticFor< N >( [&]( auto k ) { one< decltype( k )::value >( t, o, sv, sd, form, std::make_integer_sequence< int, D >{} ); } );
    // interpolation of nodal values
    using PE = shiva::discretizations::finiteElementMethod::ParentElement< R, geo::NCube< R, D, -1, 1, 1 >, B... >;
    shiva::CArrayNd< R, B::numSupportPoints ... > v;
    LD m = 0;
    for ( int k = 0; k < N; ++k ) { v.data()[k] = static_cast< R >( c.r[static_cast< std::size_t >( D + k % 6 )] + k ); m = maxl( m, absl( v.data()[k] ) ); }
    o.f( "interpolated value", PE::value( t, v ), sv * m * N );
    auto const g = PE::gradient( t, v );
    for ( int d = 0; d < D; ++d ) o.f( "interpolated gradient", g( d ), sd * m * N );
    std::int64_t order = 0, count = 0;
    SH::supportLoop( [&]( auto ... i ) { int const idx[] = { decltype( i )::value ... }; for ( int x : idx ) order = ( order * 31 + x ) % 1000003; ++count; } );
    o.i( "support loop", order ); o.i( "support points", count );
    o.i( "sizes", static_cast< std::int64_t >( sizeof( P ) + 100 * sizeof( SH ) + 10000 * sizeof( typename P::CoordType ) ) );
    o.nontrivial = N > 2;
  }
  static void add( std::string name )
  {
    entry( "product " + name + " " + rname< R >(), { { 0, 2 } }, cat( reals( D, { 'u', -1.25, 1.25 } ), reals( 6, { 'v', -1, 2 } ) ), eval );
  }
};
template< typename R, typename ... B >
void addProduct( std::string name )
{
  Product< shiva::functions::BasisProduct< R, B... >, geo::InterpolatedShape< R, geo::NCube< R, static_cast< int >( sizeof...( B ) ), -1, 1, 1 >, B... >, R, B... >::add( name );
}
template< typename R >
void addProducts()
{
  using E1 = LagrangeBasis< R, 1, EqualSpacing >; using E2 = LagrangeBasis< R, 2, EqualSpacing >; using B3 = LagrangeBasis< R, 3, GaussLobattoSpacing >;
  using L2 = LagrangeBasis< R, 2, GaussLegendreSpacing >; using A2 = LagrangeBasis< R, 2, CustomA >;
  addProduct< R, B3 >( "B3" ); addProduct< R, E1, E2 >( "E1 E2" ); addProduct< R, B3, A2 >( "B3 A2" );
  addProduct< R, E1, E1, E1 >( "E1 E1 E1" ); addProduct< R, A2, E1, L2 >( "A2 E1 L2" ); addProduct< R, E1, A2, E1, E2 >( "E1 A2 E1 E2" );
}
#endif

#if VH_PART == 2
template< typename R, typename ... B >
struct Transform
{
  using T = TransformOf< R, R, B... >;
  static constexpr int V = ( B::numSupportPoints * ... );
  template< typename Q, int A, int BB, int CC >
  static void atPoint( T const & x, Out & o, LD s )
  {
    typename T::JacobianType J;
    gu::jacobian< Q, A, BB, CC >( x, J );
    for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) o.f( "Jacobian at a quadrature point", J( i, j ), s );
  }
  static void eval( Case const & c, Out & o )
  {
    T x;
    R a[V][3];
    LD m = 0;
    for ( int v = 0; v < V; ++v ) for ( int d = 0; d < 3; ++d )
    {
      a[v][d] = static_cast< R >( c.r[static_cast< std::size_t >( 3 + ( v * 3 + d ) % 24 )] + v * ( d == 0 ) + ( v / 2 ) * ( d == 1 ) + ( v / 4 ) * ( d == 2 ) );
      m = maxl( m, absl( a[v][d] ) );
    }
    if ( c.i[0] & 1 ) x.setData( a );
    else for ( int k = 0; k < V * 3; ++k ) x.getData().data()[k] = a[k / 3][k % 3];
    for ( int k = 0; k < V * 3; ++k ) o.f( "data", x.getData().data()[k], 0 );
    T const & cx = x;
    R const t[3] = { static_cast< R >( c.r[0] ), static_cast< R >( c.r[1] ), static_cast< R >( c.r[2] ) };
    TensorRef ref;
    ref.nodes = { nodesOf< B >() ... };
    LD s = 0;
    for ( int d = 0; d < 3; ++d ) s = maxl( s, ref.gradientScale( { t[0], t[1], t[2] }, d ) );
    s *= 256 * m * V;
    typename T::JacobianType J, I;
    gu::jacobian( cx, t, J );
    M3 mj, inv;
    for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) { o.f( "Jacobian", J( i, j ), s ); mj[i][j] = J( i, j ); }
    auto const J2 = gu::jacobian( cx, t );
    for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) o.f( "Jacobian as result", J2( i, j ), s );
    atPoint< shiva::QuadratureGaussLegendre< R, 3 >, 0, 2, 1 >( cx, o, s + 256 * m * V * 16 );
    atPoint< shiva::QuadratureGaussLobatto< R, 4 >, 3, 1, 0 >( cx, o, s + 256 * m * V * 16 );
    R det = 0;
    gu::inverseJacobian( cx, t, I, det );
    LD d;
    M3 sc;
    for ( auto & row : sc ) for ( auto & v : row ) v = s;    // error s * eps in each entry: scale one epsilon
    bool const fine = exactInverse( mj, inv, d );
    Bound b{};
    if ( fine )
    {
      M3 big = absOf( mj );
      for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) big[i][j] = maxl( big[i][j], s );
      b = boundOf( mj, big, d, eps< R >() );
    }
    if ( fine && b.invertible )
    {
      o.f( "determinant", det, 4 * b.det / eps< R >() );
      for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) o.f( "inverse", I( i, j ), 4 * b.inv[i][j] / eps< R >() );
    }
    o.i( "size", sizeof( T ) + 1000 * sizeof( typename T::JacobianType ) ); o.i( "vertices", T::numVertices ); o.i( "constant in cell", T::jacobianIsConstInCell() );
    o.nontrivial = fine && b.invertible;
  }
  static void add( std::string name )
  {
    entry( "transform " + name + " " + rname< R >(), { { 0, 1 } }, cat( reals( 3, { 'u', -1, 1 } ), reals( 24, { 'u', -0.4, 0.4 } ) ), eval );
  }
};
template< typename R >
void addTransforms()
{
  using E1 = LagrangeBasis< R, 1, EqualSpacing >; using E2 = LagrangeBasis< R, 2, EqualSpacing >; using B3 = LagrangeBasis< R, 3, GaussLobattoSpacing >; using A2 = LagrangeBasis< R, 2, CustomA >;
  Transform< R, E1, E1, E1 >::add( "E1 E1 E1" ); Transform< R, E1, E2, E1 >::add( "E1 E2 E1" ); Transform< R, A2, E1, B3 >::add( "A2 E1 B3" );
}
#endif

#if VH_PART == 3
template< typename T, int ... D >
struct Array
{
  static constexpr int N = ( D * ... );
  using A = shiva::CArrayNd< T, D... >;
  template< typename X, int ... I >
  static decltype( auto ) at( X & x, int const * i, std::integer_sequence< int, I... > ) { return x( i[I] ... ); }
  template< typename X >
  static T byBrackets( X const & x, int const * i )
  {
    if constexpr ( std::is_arithmetic_v< std::decay_t< decltype( x[0] ) > > ) return x[i[0]];
    else { auto s = x[i[0]]; return byBrackets( s, i + 1 ); }
  }
  template< typename X >
  static void write( X & x, int const * i, T v )
  {
    if constexpr ( std::is_arithmetic_v< std::decay_t< decltype( x[0] ) > > ) x[i[0]] = v;
    else { auto s = x[i[0]]; write( s, i + 1, v ); }
  }
  static void eval( Case const & c, Out & o )
  {
    constexpr auto seq = std::make_integer_sequence< int, sizeof...( D ) >{};
    constexpr int dims[] = { D ... };
    A a{}, b{};
    T buf[N];
    for ( int k = 0; k < N; ++k ) buf[k] = static_cast< T >( k );
    shiva::CArrayViewNd< T, D... > v( buf );
    shiva::CArrayViewNd< T const, D... > cv( buf );
    for ( auto w : c.tail )
    {
      std::uint64_t u = static_cast< std::uint64_t >( w );
      int const op = static_cast< int >( digit( u, 10 ) );
      T const val = static_cast< T >( digit( u, 100 ) );
      int flat = static_cast< int >( digit( u, 1000 ) ) % N, i[sizeof...( D )], f = flat;
      for ( int d = sizeof...( D ) - 1; d >= 0; --d ) { i[d] = f % dims[d]; f /= dims[d]; }
      switch ( op )
      {
        case 0: at( a, i, seq ) = val; break;
        case 1: write( a, i, val ); break;
        case 2: o.f( "element", static_cast< double >( at( a, i, seq ) ), 0 ); break;
        case 3: o.f( "element by brackets", static_cast< double >( byBrackets( a, i ) ), 0 ); break;
        case 4: at( v, i, seq ) = val; break;
        case 5: write( v, i, val ); break;
        case 6: o.f( "element of a view", static_cast< double >( byBrackets( cv, i ) ), 0 ); break;
        case 7: b = a; break;
        case 8: o.i( "place", &at( a, i, seq ) - a.data() ); break;
        default: a = b; break;
      }
    }
    for ( int k = 0; k < N; ++k ) { o.f( "content", static_cast< double >( a.data()[k] ), 0 ); o.f( "content of the buffer", static_cast< double >( buf[k] ), 0 ); }
    o.i( "bytes", sizeof( A ) ); o.i( "bytes of a view", sizeof( v ) ); o.i( "alignment", alignof( A ) );
    o.i( "traits", std::is_trivially_copyable_v< A > + 2 * std::is_standard_layout_v< A > + 4 * std::is_trivially_destructible_v< A > + 8 * std::is_aggregate_v< A > +
         16 * std::is_empty_v< A > + 32 * std::is_default_constructible_v< A > + 64 * std::is_copy_assignable_v< A > + 128 * std::is_nothrow_copy_constructible_v< A > );
    o.i( "size", A::size() ); o.i( "rank", A::rank() );
    o.nontrivial = N > 1 && c.tail.size() > 1;
  }
};
template< typename B, B ... RANGES >
void range( Case const & c, Out & o )
{
  using I = shiva::MultiIndexRange< B, RANGES... >;
  constexpr B r[] = { RANGES ... };
  I x{};
  for ( std::size_t d = 0; d < sizeof...( RANGES ); ++d ) x.data[d] = static_cast< B >( c.i[d] % r[d] );
  o.i( "linear index", static_cast< std::int64_t >( linearIndex( x ) ) );
  std::int64_t order = 0, count = 0;
  forRange( x, [&]( auto const & q ) { order = ( order * 31 + static_cast< std::int64_t >( linearIndex( q ) ) ) % 1000003; ++count; } );
  o.i( "order of visits", order ); o.i( "visits", count );
  for ( std::size_t d = 0; d < sizeof...( RANGES ); ++d ) o.i( "index after the loop", static_cast< std::int64_t >( x.data[d] ) );
  o.i( "bytes", sizeof( I ) ); o.i( "range", I::range( 0 ) );
  o.nontrivial = count > 1;
}
template< int ... E >
void sequence( Case const & c, Out & o )
{
  std::int64_t h = c.i[0], n = 0;
  shiva::forNestedSequence< E ... >( [&]( auto ... i ) { int const x[] = { decltype( i )::value ... }; for ( int v : x ) h = ( h * 37 + v + 1 ) % 1000003; ++n; } );
  o.i( "nested loop", h ); o.i( "calls", n );
  constexpr int first = shiva::IntPackPeeler< 0, E ... >::value();
  shiva::forSequence< first >( [&]( auto i ) { h = ( h * 41 + decltype( i )::value + 1 ) % 1000003; } );
  o.i( "loop", h );
  o.i( "sum", shiva::executeSequence< first >( [&]( auto k, auto ... i ) { return ( k + ... + ( decltype( i )::value * 3 ) ); }, c.i[0] ) );
  o.i( "last", shiva::IntPackPeeler< static_cast< int >( sizeof...( E ) ) - 1, E ... >::value() );
  o.nontrivial = n > 1;
}
#endif

bool const filled = []
{
#if VH_PART == 0
  addBases< double >(); addBases< float >();
  addRules< double >(); addRules< float >();
  addShapes< double, geo::NCube >( "cube double" ); addShapes< float, geo::NCube >( "cube float" );
  addShapes< double, geo::NSimplex >( "simplex double" ); addShapes< float, geo::NSimplex >( "simplex float" );
  addScalars< double >(); addScalars< float >();
#endif
#if VH_PART == 1
  addProducts< double >(); addProducts< float >();
#endif
#if VH_PART == 2
  addTransforms< double >(); addTransforms< float >();
#endif
#if VH_PART == 3
  IDom const ops{ 0, 1000000 - 1 };
  entry( "array double 5", {}, {}, Array< double, 5 >::eval, 1, 16, ops );
  entry( "array int 2 3", {}, {}, Array< int, 2, 3 >::eval, 1, 16, ops );
  entry( "array float 3 1 4", {}, {}, Array< float, 3, 1, 4 >::eval, 1, 16, ops );
  entry( "array long 2 3 2 3", {}, {}, Array< long, 2, 3, 2, 3 >::eval, 1, 16, ops );
  entry( "array char 2 2 2 2 3", {}, {}, Array< char, 2, 2, 2, 2, 3 >::eval, 1, 16, ops );
  IDom const big{ 0, 1000000 };
  entry( "range int 7", { big }, {}, range< int, 7 > );
  entry( "range int 2 3 4", { big, big, big }, {}, range< int, 2, 3, 4 > );
  entry( "range short 3 1 2 5", { big, big, big, big }, {}, range< short, 3, 1, 2, 5 > );
  entry( "range long 4 6", { big, big }, {}, range< long, 4, 6 > );
  entry( "sequence 4", { big }, {}, sequence< 4 > );
  entry( "sequence 2 3", { big }, {}, sequence< 2, 3 > );
  entry( "sequence 3 1 2", { big }, {}, sequence< 3, 1, 2 > );
  entry( "sequence 2 2 2 2", { big }, {}, sequence< 2, 2, 2, 2 > );
#endif
  return true;
}();
}
extern "C" __attribute__(( visibility( "default" ) )) std::vector< Entry > const * vhEntries() { return &entries; }
