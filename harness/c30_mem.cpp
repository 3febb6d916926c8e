// C30: every object that a call reads or writes lies at an end of a mapping of its own, next to pages that cannot be accessed; what the call
// takes as constant lies in memory that cannot be written. An access beside an object, or a write to a constant one, ends the process.
#include "geom_common.hpp"
#include "quad_common.hpp"
#include "shiva/common/pmpl.hpp"
#include "shiva/common/IndexTypes.hpp"
#include <sys/mman.h>
#include <unistd.h>
using namespace vh;

namespace
{
/// memory for one object of up to one page between two pages without access
struct Slot
{
  char * base = nullptr;
  static std::size_t page() { static std::size_t const p = static_cast< std::size_t >( sysconf( _SC_PAGESIZE ) ); return p; }
  Slot()
  {
    void * m = mmap( nullptr, 3 * page(), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
    if ( m == MAP_FAILED ) std::abort();
    base = static_cast< char * >( m );
  }
  char * open( std::size_t bytes, bool atEnd )
  {
    if ( bytes > page() ) std::abort();
    if ( mprotect( base + page(), page(), PROT_READ | PROT_WRITE ) != 0 ) std::abort();
    char * const p = base + page() + ( atEnd ? page() - bytes : 0 );
    std::memset( base + page(), 0x5a, page() );
    return p;
  }
  void seal() { if ( mprotect( base + page(), page(), PROT_READ ) != 0 ) std::abort(); }
};
Slot & slot( int k ) { static Slot s[8]; return s[k]; }

int gSide = 0;
template< typename T >
T & writable( int k, T const & v )
{
  static_assert( sizeof( T ) % alignof( T ) == 0 );
  return *new ( slot( k ).open( sizeof( T ), ( gSide >> k ) & 1 ) ) T( v );
}
template< typename T >
T const & constant( int k, T const & v )
{
  T const & r = writable( k, v );
  slot( k ).seal();
  return r;
}
template< typename T, std::size_t N > struct Raw { T v[N]; };

LD volatile sink = 0;
void use( LD v ) { sink = v; }

template< typename A, int ... I >
decltype( auto ) at( A & a, int const * i, std::integer_sequence< int, I... > ) { return a( i[I] ... ); }
template< typename X >
double byBrackets( X & x, int const * i )
{
  if constexpr ( std::is_arithmetic_v< std::decay_t< decltype( x[0] ) > > ) return static_cast< double >( x[i[0]] );
  else { auto s = x[i[0]]; return byBrackets( s, i + 1 ); }
}

template< typename T, int ... D >
void arrays( Ctx & ctx, Case const & c )
{
  constexpr int N = ( D * ... ), R = sizeof...( D );
  constexpr int dims[] = { D ... };
  constexpr auto seq = std::make_integer_sequence< int, R >{};
  using A = shiva::CArrayNd< T, D... >;
  gSide = static_cast< int >( c.i[0] );
  A m{};
  for ( int k = 0; k < N; ++k ) m.data()[k] = static_cast< T >( k % 100 );
  A const & a = constant( 0, m );
  A & w = writable( 1, m );
  Raw< T, N > raw{};
  Raw< T, N > const & cr = constant( 2, raw );
  Raw< T, N > & wr = writable( 3, raw );
  auto const & cv = constant( 4, shiva::CArrayViewNd< T const, D... >( cr.v ) );
  auto const & wv = constant( 5, shiva::CArrayViewNd< T, D... >( wr.v ) );
  using WV = shiva::CArrayViewNd< T, D... >;
  WV nv( wr.v );
  for ( int flat = 0; flat < N; ++flat )
  {
    int i[R], f = flat;
    for ( int d = R - 1; d >= 0; --d ) { i[d] = f % dims[d]; f /= dims[d]; }
    use( at( a, i, seq ) ); use( byBrackets( a, i ) ); use( at( cv, i, seq ) ); use( byBrackets( cv, i ) ); use( at( wv, i, seq ) ); use( byBrackets( w, i ) );
    at( w, i, seq ) = static_cast< T >( 1 );
    at( nv, i, seq ) = static_cast< T >( 2 );
  }
  staticFor< ( N < 24 ? N : 24 ) >( [&]( auto k )
  {
    constexpr int K = decltype( k )::value;
    auto f = [&]( auto ... d ) { use( a.template operator()< decltype( d )::value ... >() ); use( cv.template operator()< decltype( d )::value ... >() ); w.template operator()< decltype( d )::value ... >() = static_cast< T >( 3 ); };
    if constexpr ( R == 1 ) f( std::integral_constant< int, K >{} );
    else if constexpr ( R == 2 ) f( std::integral_constant< int, digitOf< 0, D... >( K ) >{}, std::integral_constant< int, digitOf< 1, D... >( K ) >{} );
    else if constexpr ( R == 3 ) f( std::integral_constant< int, digitOf< 0, D... >( K ) >{}, std::integral_constant< int, digitOf< 1, D... >( K ) >{}, std::integral_constant< int, digitOf< 2, D... >( K ) >{} );
  } );
  w = a;
  A copy( a );
  use( copy.data()[N - 1] ); use( a.data()[0] ); use( cv.data()[N - 1] ); use( a.size() );
  if constexpr ( std::is_arithmetic_v< T > )
  {
    int calls = 0;
    shiva::pmpl::genericKernelWrapper( N, wr.v, [&]( T * p ) { ++calls; for ( int k = 0; k < N; ++k ) p[k] = static_cast< T >( k ); } );
    use( calls );
  }
  ctx.nt( N > 1 );
}
template< typename T, int ... D >
void addArrays( char const * t )
{
  Prop p;
  p.name = std::string( "array " ) + t;
  for ( int d : { D ... } ) p.name += " " + str( d );
  p.ints = { { 0, 255 } };
  p.weight = 0.2;
  p.run = arrays< T, D... >;
  add( std::move( p ) );
}

template< typename B, B ... RANGES >
void ranges( Ctx & ctx, Case const & c )
{
  using I = shiva::MultiIndexRange< B, RANGES... >;
  constexpr B r[] = { RANGES ... };
  gSide = static_cast< int >( c.i[0] );
  I x{};
  for ( std::size_t d = 0; d < sizeof...( RANGES ); ++d ) x.data[d] = static_cast< B >( c.i[d + 1] % r[d] );
  I const & k = constant( 0, x );
  I & w = writable( 1, x );
  use( linearIndex( k ) );
  forRange( w, []( auto const & q ) { use( linearIndex( q ) ); } );
  ctx.nt();
}
template< typename B, B ... RANGES >
void addRanges( char const * t )
{
  Prop p;
  p.name = std::string( "range " ) + t;
  for ( auto d : { RANGES ... } ) p.name += " " + str( d );
  p.ints = cat( { IDom{ 0, 255 } }, ints( sizeof...( RANGES ), { 0, 1000 } ) );
  p.run = ranges< B, RANGES... >;
  add( std::move( p ) );
}

template< typename R, typename ... B >
struct Element
{
  static constexpr int D = sizeof...( B ), N = ( B::numSupportPoints * ... );
  using P = shiva::functions::BasisProduct< R, B... >;
  using S = geo::InterpolatedShape< R, geo::NCube< R, D, -1, 1, 1 >, B... >;
  using PE = shiva::discretizations::finiteElementMethod::ParentElement< R, geo::NCube< R, D, -1, 1, 1 >, B... >;
  template< typename F, int ... I >
  static void point( F const & f, std::integer_sequence< int, I... > ) { f( std::integral_constant< int, I >{} ... ); }
  template< int K, int ... I >
  static void one( R const ( &t )[D], std::array< R, D > const & st, shiva::CArrayNd< R, D > const & ct, std::integer_sequence< int, I... > )
  {
    use( P::template value< digitOf< I, B::numSupportPoints ... >( K ) ... >( t ) );
    use( P::template value< digitOf< I, B::numSupportPoints ... >( K ) ... >( st ) );
    use( S::template value< digitOf< I, B::numSupportPoints ... >( K ) ... >( ct ) );
    use( PE::template value< digitOf< I, B::numSupportPoints ... >( K ) ... >( t ) );
    auto const a = P::template gradient< digitOf< I, B::numSupportPoints ... >( K ) ... >( ct );
    auto const b = S::template gradient< digitOf< I, B::numSupportPoints ... >( K ) ... >( t );
    auto const c = PE::template gradient< digitOf< I, B::numSupportPoints ... >( K ) ... >( st );
    for ( int d = 0; d < D; ++d ) use( a( d ) + b( d ) + c( d ) );
  }
  static void run( Ctx & ctx, Case const & c )
  {
    gSide = static_cast< int >( c.i[0] );
    Raw< R, D > rt{};
    std::array< R, D > a{};
    shiva::CArrayNd< R, D > ca{};
    for ( int d = 0; d < D; ++d ) rt.v[d] = a[static_cast< std::size_t >( d )] = ca( d ) = static_cast< R >( c.r[static_cast< std::size_t >( d )] );
    auto const & t = constant( 0, rt );
    auto const & st = constant( 1, a );
    auto const & ct = constant( 2, ca );
    staticFor< N >( [&]( auto k ) { one< decltype( k )::value >( t.v, st, ct, std::make_integer_sequence< int, D >{} ); } );
    shiva::CArrayNd< R, B::numSupportPoints ... > v{};
    for ( int k = 0; k < N; ++k ) v.data()[k] = static_cast< R >( c.r[static_cast< std::size_t >( D )] + k );
    auto const & field = constant( 3, v );
    Raw< R, N > rv{};
    auto const & data = constant( 4, rv );
    auto const & view = constant( 5, shiva::CArrayViewNd< R const, B::numSupportPoints ... >( data.v ) );
    use( PE::value( t.v, field ) ); use( PE::value( t.v, view ) );
    auto const g = PE::gradient( t.v, field );
    auto const h = PE::gradient( t.v, view );
    for ( int d = 0; d < D; ++d ) use( g( d ) + h( d ) );
    ctx.nt( D > 1 );
  }
  static void add( std::string name )
  {
    Prop p;
    p.name = "element " + name + " " + rname< R >();
    p.ints = { { 0, 255 } };
    p.reals = cat( reals( D, { 'u', -1.25, 1.25 } ), reals( 1, { 'v', -1, 2 } ) );
    p.run = run;
    vh::add( std::move( p ) );
  }
};

template< typename R, typename ... B >
struct Mapping
{
  using T = TransformOf< R, R, B... >;
  static constexpr int V = ( B::numSupportPoints * ... );
  using J = typename T::JacobianType;
  static void run( Ctx & ctx, Case const & c )
  {
    gSide = static_cast< int >( c.i[0] );
    struct Coords { R a[V][3]; } x{};
    for ( int v = 0; v < V; ++v ) for ( int d = 0; d < 3; ++d ) x.a[v][d] = static_cast< R >( c.r[static_cast< std::size_t >( 3 + ( v * 3 + d ) % 24 )] + v * ( d == 0 ) + ( v / 2 ) * ( d == 1 ) + ( v / 4 ) * ( d == 2 ) );
    Raw< R, 3 > rt{};
    for ( int d = 0; d < 3; ++d ) rt.v[d] = static_cast< R >( c.r[static_cast< std::size_t >( d )] );
    Coords const & coords = constant( 0, x );
    T & w = writable( 1, T{} );
    w.setData( coords.a );
    use( w.getData().data()[V * 3 - 1] );
    T const & t = constant( 2, w );
    auto const & p = constant( 3, rt );
    J & j = writable( 4, J{} );
    gu::jacobian( t, p.v, j );
    gu::jacobian< shiva::QuadratureGaussLegendre< R, 3 >, 2, 0, 1 >( t, j );
    R & det = writable( 5, R{ 0 } );
    gu::inverseJacobian( t, p.v, j, det );
    use( j( 0, 0 ) + det );
    auto const j2 = gu::jacobian( t, p.v );
    use( j2( 2, 2 ) );
    auto const [d2, i2] = gu::inverseJacobian( t, p.v );
    use( d2 + i2( 0, 0 ) );
    ctx.nt();
  }
  static void add( std::string name )
  {
    Prop p;
    p.name = "transform " + name + " " + rname< R >();
    p.ints = { { 0, 255 } };
    p.reals = cat( reals( 3, { 'u', -1, 1 } ), reals( 24, { 'u', -0.4, 0.4 } ) );
    p.run = run;
    vh::add( std::move( p ) );
  }
};

template< typename R >
void small( Ctx & ctx, Case const & c )
{
  gSide = static_cast< int >( c.i[0] );
  Raw< R, 3 > h{};
  for ( int d = 0; d < 3; ++d ) h.v[d] = static_cast< R >( c.r[static_cast< std::size_t >( d )] );
  auto const & ch = constant( 0, h );
  geo::Scaling< R > & ws = writable( 1, geo::Scaling< R >{} );
  ws.setData( ch.v );
  ws.setData()[2] = h.v[0];
  auto const & s = constant( 2, ws );
  using J = typename geo::Scaling< R >::JacobianType;
  J & j = writable( 3, J{} );
  R & det = writable( 4, R{ 0 } );
  gu::jacobian( s, j );
  gu::inverseJacobian( s, j, det );
  use( det + j( 2 ) + s.getData()[2] );
  geo::UniformScaling< R > & wu = writable( 1, geo::UniformScaling< R >{} );
  R const & len = constant( 0, h.v[1] );
  wu.setData( len );
  auto const & u = constant( 2, wu );
  using JU = typename geo::UniformScaling< R >::JacobianType;
  JU & ju = writable( 3, JU{} );
  gu::jacobian( u, ju );
  gu::inverseJacobian( u, ju, det );
  use( det + ju( 0 ) );
  struct M { R a[3][3]; } m{};
  for ( int k = 0; k < 9; ++k ) m.a[k / 3][k % 3] = static_cast< R >( c.r[static_cast< std::size_t >( 3 + k )] );
  M & wm = writable( 5, m );
  shiva::mathUtilities::inverse( wm.a, det );
  shiva::CArrayNd< R, 3, 3 > ma{};
  for ( int k = 0; k < 9; ++k ) ma.data()[k] = m.a[k / 3][k % 3];
  auto & wa = writable( 6, ma );
  shiva::mathUtilities::inverse( wa, det );
  use( det );
  ctx.nt();
}

bool const registered = []
{
  addArrays< double, 1 >( "double" ); addArrays< double, 5 >( "double" ); addArrays< int, 3, 4 >( "int" ); addArrays< float, 2, 3, 4 >( "float" ); addArrays< char, 3, 1, 5 >( "char" );
  addArrays< long, 2, 2, 3, 2 >( "long" ); addArrays< double, 2, 1, 3, 2, 2 >( "double" ); addArrays< short, 7, 2 >( "short" );
  addRanges< int, 6 >( "int" ); addRanges< int, 2, 3, 4 >( "int" ); addRanges< long, 4, 3 >( "long" ); addRanges< unsigned char, 3, 2, 2, 3 >( "unsigned char" );
  auto types = []( auto r )
  {
    using R = decltype( r );
    using E1 = LagrangeBasis< R, 1, EqualSpacing >; using E2 = LagrangeBasis< R, 2, EqualSpacing >; using B3 = LagrangeBasis< R, 3, GaussLobattoSpacing >; using L2 = LagrangeBasis< R, 2, GaussLegendreSpacing >;
    Element< R, B3 >::add( "B3" ); Element< R, E2, B3 >::add( "E2 B3" ); Element< R, E1, L2, E2 >::add( "E1 L2 E2" ); Element< R, E1, E1, E1 >::add( "E1 E1 E1" ); Element< R, E1, E2, E1, E1 >::add( "E1 E2 E1 E1" );
    Mapping< R, E1, E1, E1 >::add( "E1 E1 E1" ); Mapping< R, E1, B3, E2 >::add( "E1 B3 E2" );
    Prop p;
    p.name = std::string( "scalings and inverse " ) + rname< R >();
    p.ints = { { 0, 255 } };
    p.reals = cat( reals( 3, { 'p', -3, 3 } ), reals( 9, { 'v', -2, 2 } ) );
    p.run = small< R >;
    add( std::move( p ) );
  };
  types( 0.0 ); types( 0.0f );
  return true;
}();
}
