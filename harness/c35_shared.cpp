// C35: objects of the library that several calls use
#include "c35_api.hpp"
#include "geom_common.hpp"
#include "quad_common.hpp"
#include "shiva/common/pmpl.hpp"
using namespace vh;

namespace
{
std::vector< Shared > shared;
std::vector< Entry > entries;
std::uint64_t digit( std::uint64_t & u, std::uint64_t r ) { std::uint64_t const x = u % r; u /= r; return x; }
/// one of five places half of the time, so that calls share coordinates
double place( std::uint64_t & u ) { if ( digit( u, 2 ) ) return static_cast< double >( digit( u, 5 ) ) / 4 - 0.5; return static_cast< double >( static_cast< std::int64_t >( digit( u, 2049 ) ) - 1024 ) / 1024; }

template< typename T >
void releaseAs( void * p ) { delete static_cast< T * >( p ); }

// ---- transforms
template< typename R, typename ... B >
struct SharedTransform
{
  using T = TransformOf< R, R, B... >;
  static constexpr int V = ( B::numSupportPoints * ... );
  static void * make( Case const & c )
  {
    T * x = new T;
    for ( int v = 0; v < V; ++v ) for ( int d = 0; d < 3; ++d )
      x->getData().data()[v * 3 + d] = static_cast< R >( c.r[static_cast< std::size_t >( ( v * 3 + d ) % 24 )] + v * ( d == 0 ) + ( v / 2 ) * ( d == 1 ) + ( v / 4 ) * ( d == 2 ) );
    return x;
  }
  static void put( Out & o, typename T::JacobianType const & J ) { for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) o.f( "entry", J( i, j ), 0 ); }
  template< typename Q, int A, int BB, int CC >
  static void atPoint( T const & x, Out & o )
  {
    typename T::JacobianType J;
    gu::jacobian< Q, A, BB, CC >( x, J );
    put( o, J );
  }
  static void call( void const * p, std::uint64_t u, Out & o )
  {
    T const & x = *static_cast< T const * >( p );
    int const op = static_cast< int >( digit( u, 8 ) );
    R const t[3] = { static_cast< R >( place( u ) ), static_cast< R >( place( u ) ), static_cast< R >( place( u ) ) };
    typename T::JacobianType J;
    R det = 0;
    switch ( op )
    {
      case 0: gu::jacobian( x, t, J ); put( o, J ); break;
      case 1: put( o, gu::jacobian( x, t ) ); break;
      case 2: gu::inverseJacobian( x, t, J, det ); put( o, J ); o.f( "determinant", det, 0 ); break;
      case 3: { auto const [d, I] = gu::inverseJacobian( x, t ); put( o, I ); o.f( "determinant", d, 0 ); break; }
      case 4: atPoint< shiva::QuadratureGaussLegendre< R, 3 >, 0, 2, 1 >( x, o ); break;
      case 5: atPoint< shiva::QuadratureGaussLobatto< R, 4 >, 3, 1, 0 >( x, o ); break;
      case 6: atPoint< shiva::QuadratureGaussLegendre< R, 2 >, 1, 0, 1 >( x, o ); break;
      default: for ( int k = 0; k < 3 * V; ++k ) o.f( "data", x.getData().data()[k], 0 ); break;
    }
    o.nontrivial = true;
  }
  static void add( std::string n ) { shared.push_back( { "shared transform " + n + " " + rname< R >(), reals( 24, { 'u', -0.4, 0.4 } ), make, releaseAs< T >, call } ); }
};

// ---- scalings
template< typename R, bool UNIFORM >
struct SharedScaling
{
  using T = std::conditional_t< UNIFORM, geo::UniformScaling< R >, geo::Scaling< R > >;
  static void * make( Case const & c )
  {
    T * x = new T;
    if constexpr ( UNIFORM ) x->setData( static_cast< R >( c.r[0] ) );
    else { R const h[3] = { static_cast< R >( c.r[0] ), static_cast< R >( c.r[1] ), static_cast< R >( c.r[2] ) }; x->setData( h ); }
    return x;
  }
  static void call( void const * p, std::uint64_t u, Out & o )
  {
    T const & x = *static_cast< T const * >( p );
    typename T::JacobianType J{};
    R det = 0;
    int const op = static_cast< int >( digit( u, 5 ) );
    if ( op == 0 ) gu::jacobian( x, J );
    if ( op == 1 ) gu::inverseJacobian( x, J, det );
    if ( op == 2 ) J = gu::jacobian( x );
    if ( op == 3 ) { auto const [d, I] = gu::inverseJacobian( x ); det = d; J = I; }
    if ( op == 4 ) { if constexpr ( UNIFORM ) det = x.getData(); else det = x.getData()[1]; }
    for ( std::size_t k = 0; k < ( UNIFORM ? 1 : 3 ); ++k ) o.f( "entry", J( static_cast< int >( k ) ), 0 );
    o.f( "determinant", det, 0 );
    o.nontrivial = true;
  }
  static void add()
  {
    double const w = sizeof( R ) == 4 ? 4 : 40;
    shared.push_back( { std::string( UNIFORM ? "shared uniform scaling " : "shared scaling " ) + rname< R >(), reals( 3, { 'p', -w, w } ), make, releaseAs< T >, call } );
  }
};

// ---- arrays
template< typename T, int ... D >
struct SharedArray
{
  static constexpr int N = ( D * ... );
  using A = shiva::CArrayNd< T, D... >;
  using View = shiva::CArrayViewNd< T, D... >;
  struct Obj { A a; T buf[N]; View v; };
  static void * make( Case const & c )
  {
    T b[N];
    for ( int k = 0; k < N; ++k ) b[k] = static_cast< T >( c.r[static_cast< std::size_t >( k ) % c.r.size()] + k );
    Obj * o = new Obj{ A{}, {}, View( nullptr ) };
    new ( &o->v ) View( o->buf );
    for ( int k = 0; k < N; ++k ) o->a.data()[k] = o->buf[k] = b[k];
    return o;
  }
  static constexpr int dims[] = { D ... };
  static void index( int f, int * i ) { for ( int d = sizeof...( D ) - 1; d >= 0; --d ) { i[d] = f % dims[d]; f /= dims[d]; } }
  template< typename X, int ... I >
  static decltype( auto ) at( X & x, int const * i, std::integer_sequence< int, I... > ) { return x( i[I] ... ); }
  template< typename X >
  static T byBrackets( X const & x, int const * i )
  {
    if constexpr ( std::is_arithmetic_v< std::decay_t< decltype( x[0] ) > > ) return x[i[0]];
    else { auto s = x[i[0]]; return byBrackets( s, i + 1 ); }
  }
  template< typename X >
  static void put( X & x, int const * i, T v )
  {
    if constexpr ( std::is_arithmetic_v< std::decay_t< decltype( x[0] ) > > ) x[i[0]] = v;
    else { auto s = x[i[0]]; put( s, i + 1, v ); }
  }
  static constexpr std::make_integer_sequence< int, static_cast< int >( sizeof...( D ) ) > seq{};
  static void call( void const * p, std::uint64_t u, Out & o )
  {
    Obj const & x = *static_cast< Obj const * >( p );
    int const op = static_cast< int >( digit( u, 7 ) );
    int i[sizeof...( D )];
    index( static_cast< int >( digit( u, N ) ), i );
    switch ( op )
    {
      case 0: o.f( "element", static_cast< double >( at( x.a, i, seq ) ), 0 ); break;
      case 1: o.f( "element by brackets", static_cast< double >( byBrackets( x.a, i ) ), 0 ); break;
      case 2: o.f( "element of a view", static_cast< double >( at( x.v, i, seq ) ), 0 ); break;
      case 3: o.f( "element of a view by brackets", static_cast< double >( byBrackets( x.v, i ) ), 0 ); break;
      case 4: { A const c = x.a; o.f( "element of a copy", static_cast< double >( at( c, i, seq ) ), 0 ); break; }
      case 5: { View const c = x.v; o.f( "element of a copy of a view", static_cast< double >( byBrackets( c, i ) ), 0 ); break; }
      default: for ( int k = 0; k < N; ++k ) o.f( "content", static_cast< double >( x.a.data()[k] ), 0 ); break;
    }
    o.nontrivial = N > 1;
  }
  static void write( void * p, std::uint64_t u, int k, int n )
  {
    Obj & x = *static_cast< Obj * >( p );
    int const op = static_cast< int >( digit( u, 4 ) );
    int const mine = ( N - k + n - 1 ) / n;             // elements k, k + n, ...
    if ( mine <= 0 ) return;
    int i[sizeof...( D )];
    index( k + n * static_cast< int >( digit( u, static_cast< std::uint64_t >( mine ) ) ), i );
    T const v = static_cast< T >( digit( u, 100 ) );
    if ( op == 0 ) at( x.a, i, seq ) = v;
    else if ( op == 1 ) put( x.a, i, v );
    else if ( op == 2 ) at( x.v, i, seq ) = v;
    else put( x.v, i, v );
  }
  static void all( void const * p, Out & o )
  {
    Obj const & x = *static_cast< Obj const * >( p );
    for ( int k = 0; k < N; ++k ) { o.f( "element", static_cast< double >( x.a.data()[k] ), 0 ); o.f( "element of the buffer", static_cast< double >( x.buf[k] ), 0 ); }
  }
  static void add( std::string n ) { shared.push_back( { "shared array " + n, reals( 6, { 'v', -1, 1 } ), make, releaseAs< Obj >, call, write, all } ); }
};

// ---- index ranges
template< typename B, B ... RANGES >
struct SharedRange
{
  using I = shiva::MultiIndexRange< B, RANGES... >;
  static void * make( Case const & c )
  {
    constexpr B r[] = { RANGES ... };
    I * x = new I{};
    for ( std::size_t d = 0; d < sizeof...( RANGES ); ++d ) x->data[d] = static_cast< B >( static_cast< std::int64_t >( ( c.r[d % c.r.size()] + 1 ) * 1000 ) % r[d] );
    return x;
  }
  static void call( void const * p, std::uint64_t u, Out & o )
  {
    I const & x = *static_cast< I const * >( p );
    int const op = static_cast< int >( digit( u, 3 ) );
    if ( op == 0 ) o.i( "linear index", static_cast< std::int64_t >( linearIndex( x ) ) );
    else if ( op == 1 )
    {
      std::int64_t order = 0;
      I y = x;
      forRange( y, [&]( auto const & q ) { order = ( order * 31 + static_cast< std::int64_t >( linearIndex( q ) ) ) % 1000003; } );
      o.i( "order of visits", order );
    }
    else for ( std::size_t d = 0; d < sizeof...( RANGES ); ++d ) o.i( "index", static_cast< std::int64_t >( x.data[d] ) );
    o.nontrivial = true;
  }
  static void add( std::string n ) { shared.push_back( { "shared range " + n, reals( 4, { 'u', -1, 1 } ), make, releaseAs< I >, call } ); }
};

// ---- nodal values of an element, with interpolation and gradients
template< typename R, typename ... B >
struct SharedValues
{
  using E = shiva::discretizations::finiteElementMethod::ParentElement< R, geo::NCube< R, static_cast< int >( sizeof...( B ) ), -1, 1, 1 >, B... >;
  using A = shiva::CArrayNd< R, B::numSupportPoints ... >;
  static constexpr int N = ( B::numSupportPoints * ... );
  static constexpr int D = sizeof...( B );
  static void * make( Case const & c )
  {
    A * a = new A{};
    for ( int k = 0; k < N; ++k ) a->data()[k] = static_cast< R >( c.r[static_cast< std::size_t >( k ) % c.r.size()] + k % 5 );
    return a;
  }
  static void call( void const * p, std::uint64_t u, Out & o )
  {
    A const & a = *static_cast< A const * >( p );
    int const op = static_cast< int >( digit( u, 3 ) );
    R x[D];
    for ( int d = 0; d < D; ++d ) x[d] = static_cast< R >( place( u ) );
    if ( op != 1 ) o.f( "value", E::value( x, a ), 0 );
    if ( op != 0 ) { auto const g = E::gradient( x, a ); for ( int d = 0; d < D; ++d ) o.f( "gradient", g( d ), 0 ); }
    o.nontrivial = true;
  }
  static void add( std::string n ) { shared.push_back( { "shared values " + n + " " + rname< R >(), reals( 6, { 'v', -1, 1 } ), make, releaseAs< A >, call } ); }
};

// ---- kernels
template< typename T >
void kernel( Case const & c, Out & o )
{
  int const n = static_cast< int >( c.i[0] );
  std::vector< T > d( static_cast< std::size_t >( n ) );
  for ( int k = 0; k < n; ++k ) d[static_cast< std::size_t >( k )] = static_cast< T >( k + c.i[1] );
  int calls = 0;
  int * const pc = &calls;
  T const add = static_cast< T >( c.i[1] );
  shiva::pmpl::genericKernelWrapper( n, d.data(), [=] SHIVA_DEVICE ( T * const p ) { ++*pc; for ( int k = 0; k < n; ++k ) p[k] = static_cast< T >( p[k] * 2 + add ); } );
  shiva::pmpl::genericKernelWrapper( [=] SHIVA_DEVICE () { ++*pc; } );
  o.i( "calls", calls );
  for ( auto v : d ) o.f( "element", static_cast< double >( v ), 0 );
  SHIVA_ASSERT_MSG( calls == 2, "calls %d", calls );
  o.nontrivial = n > 1;
}

bool const filled = []
{
  using E1 = LagrangeBasis< double, 1, EqualSpacing >; using B3 = LagrangeBasis< double, 3, GaussLobattoSpacing >; using A2 = LagrangeBasis< double, 2, CustomA >;
  using F1 = LagrangeBasis< float, 1, EqualSpacing >; using F2 = LagrangeBasis< float, 2, EqualSpacing >;
  SharedTransform< double, E1, E1, E1 >::add( "E1 E1 E1" ); SharedTransform< double, A2, E1, B3 >::add( "A2 E1 B3" ); SharedTransform< float, F1, F2, F1 >::add( "E1 E2 E1" );
  SharedScaling< double, false >::add(); SharedScaling< float, false >::add(); SharedScaling< double, true >::add(); SharedScaling< float, true >::add();
  SharedArray< double, 5 >::add( "double 5" ); SharedArray< int, 2, 3 >::add( "int 2 3" ); SharedArray< float, 3, 1, 4 >::add( "float 3 1 4" );
  SharedArray< char, 2, 2, 2, 3 >::add( "char 2 2 2 3" ); SharedArray< short, 2, 2, 2, 2, 3 >::add( "short 2 2 2 2 3" );
  SharedRange< int, 7 >::add( "int 7" ); SharedRange< int, 2, 3, 4 >::add( "int 2 3 4" ); SharedRange< long, 3, 1, 2, 5 >::add( "long 3 1 2 5" );
  SharedValues< double, E1, E1, E1 >::add( "E1 E1 E1" ); SharedValues< double, A2, B3 >::add( "A2 B3" ); SharedValues< float, F2 >::add( "E2" );
  entries.push_back( { "kernel double", { { 1, 20 }, { 0, 50 } }, {}, 0, 0, { 0, 0 }, kernel< double > } );
  entries.push_back( { "kernel char", { { 1, 20 }, { 0, 50 } }, {}, 0, 0, { 0, 0 }, kernel< char > } );
  return true;
}();
}
extern "C" std::vector< Entry > const * vhEntries4() { return &entries; }
extern "C" std::vector< Shared > const * vhShared() { return &shared; }
