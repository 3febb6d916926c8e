// C10: arrays, views and slices keep value, reference and const semantics (model: flat vectors)
#include "vh.hpp"
#include "shiva/common/CArray.hpp"
#include "gen_shapes.hpp"
#include <memory>
using namespace vh;

struct Pair { int a; double b; };
template< typename T >
struct Val { static T of( std::int64_t v ) { return static_cast< T >( v ); } static std::int64_t to( T const & v ) { return static_cast< std::int64_t >( v ); } };
template<> struct Val< Pair > { static Pair of( std::int64_t v ) { return { static_cast< int >( v ), v * 0.5 }; } static std::int64_t to( Pair const & v ) { return v.b == v.a * 0.5 ? v.a : -999999; } };

using Model = std::vector< std::vector< std::int64_t > >;   // three arrays, two buffers
static constexpr int numStores = 5;
static constexpr int numOps = 14;
static char const * const opName[] = { "assign from a list", "assign an array", "copy, then change the copy", "write through a view of an array", "write through a view of a buffer",
                                       "write through a copy of a view", "write through a slice", "write through a slice of a view", "write to the buffer", "swap", "pass by value", "write through a lasting slice",
                                       "write through a lasting view", "new array from a list" };

struct Obj
{
  virtual ~Obj() = default;
  virtual void op( int o, int j, int k, std::vector< int > const & idx, std::int64_t v, int m ) = 0;
  virtual std::string check( Model const & m ) = 0;
};
struct Inst
{
  std::vector< int > dims;
  std::unique_ptr< Obj > ( *make )();
  std::vector< int > lists;    ///< numbers of listed values
};

static void run( Ctx & ctx, Case const & c, Inst const & in )
{
  int n = 1;
  for ( int d : in.dims ) n *= d;
  auto obj = in.make();
  Model m( numStores, std::vector< std::int64_t >( static_cast< std::size_t >( n ), 0 ) );
  std::string e = obj->check( m );
  if ( !e.empty() ) Ctx::fail( "after construction: " + e );
  unsigned used = 0;
  int kinds = 0;
  for ( auto t : c.tail )
  {
    std::uint64_t u = static_cast< std::uint64_t >( t );
    auto take = [&]( std::uint64_t r ) { int const x = static_cast< int >( u % r ); u /= r; return x; };
    int const o = take( numOps ), j = take( 3 ), k = take( 3 ), b = take( 2 );
    int const list = take( in.lists.size() );
    std::vector< int > idx;
    int flat = 0;
    for ( int d : in.dims ) { int const x = take( static_cast< std::uint64_t >( d ) ); idx.push_back( x ); flat = flat * d + x; }
    std::int64_t const v = take( 100 ) + 1;
    if ( !( used >> o & 1 ) ) { used |= 1u << o; ++kinds; }
    auto const f = static_cast< std::size_t >( flat );
    switch ( o )
    {
      case 0: case 13: for ( int q = 0; q < n; ++q ) m[j][q] = q < in.lists[list] ? ( v + q ) % 100 : 0; break;
      case 1: m[j] = m[k]; break;
      case 2: case 10: break;                        // the original keeps its values
      case 3: case 6: case 7: m[j][f] = v; break;
      case 4: case 5: case 8: case 12: m[3 + b][f] = v; break;
      case 9: std::swap( m[j], m[k] ); break;
      case 11: m[j][f] = v; break;
      default: break;
    }
    obj->op( o, o == 4 || o == 5 || o == 8 || o == 12 ? b : j, k, idx, v, list );
    e = obj->check( m );
    if ( !e.empty() ) Ctx::fail( std::string( "after operation '" ) + opName[o] + "' on array " + str( j ) + ": " + e );
  }
  ctx.nt( kinds >= 2 && n > 1 );
  ctx.label( kinds >= 4 ? "four or more kinds of operation" : "fewer kinds" );
}

template< typename T, int ... DIMS >
struct ObjOf : Obj
{
  using A = shiva::CArrayNd< T, DIMS... >;
  using V = shiva::CArrayViewNd< T, DIMS... >;
  using CV = shiva::CArrayViewNd< T const, DIMS... >;
  static constexpr int R = sizeof...( DIMS );
  static constexpr int S = ( DIMS * ... );
  struct Guarded { T before[2]; A a{}; T after[2]; };
  struct GuardedBuf { T before[2]; T b[S]{}; T after[2]; };
  Guarded a[3];
  GuardedBuf b[2];
  std::unique_ptr< V > lastingView[2];
  std::unique_ptr< CV > lastingConst[2];
  std::unique_ptr< V > arrayView[3];

  ObjOf()
  {
    for ( auto & g : a ) guard( g );
    for ( auto & g : b ) guard( g );
    for ( int k = 0; k < 2; ++k ) { lastingView[k].reset( new V( b[k].b ) ); lastingConst[k].reset( new CV( b[k].b ) ); }
    for ( int k = 0; k < 3; ++k ) arrayView[k].reset( new V( a[k].a.data() ) );
  }
  template< typename G > static void guard( G & g ) { for ( int k = 0; k < 2; ++k ) { g.before[k] = Val< T >::of( 77 ); g.after[k] = Val< T >::of( 78 ); } }
  template< typename G > static bool guarded( G const & g ) { return Val< T >::to( g.before[0] ) == 77 && Val< T >::to( g.before[1] ) == 77 && Val< T >::to( g.after[0] ) == 78 && Val< T >::to( g.after[1] ) == 78; }

  template< int M, std::size_t ... I >
  static A listed( std::int64_t v, std::index_sequence< I... > ) { return A{ Val< T >::of( ( v + static_cast< std::int64_t >( I ) ) % 100 ) ... }; }
  static A fromList( std::int64_t v, int which )
  {
    switch ( which )
    {
      case 0: return listed< S >( v, std::make_index_sequence< S >{} );
      case 1: return listed< ( S > 1 ? 1 : 1 ) >( v, std::make_index_sequence< 1 >{} );
      case 2: return listed< ( S + 1 ) / 2 >( v, std::make_index_sequence< ( S + 1 ) / 2 >{} );
      default: return A{};
    }
  }
  template< typename X, std::size_t ... I > static T & at( X & x, int const * i, std::index_sequence< I... > ) { return x( i[I] ... ); }
  template< typename X > static T & at( X & x, int const * i ) { return at( x, i, std::make_index_sequence< R >{} ); }
  template< typename X, std::size_t ... I > static void sliceWrite( X & x, int const * i, T v, std::index_sequence< I... > )
  {
    if constexpr ( R == 1 ) x[i[0]] = v;
    else { auto s = x[i[0]]; auto s2 = s; s2( i[I + 1] ... ) = v; }
  }
  static std::int64_t changed( A copy, int const * i, std::int64_t v ) { at( copy, i ) = Val< T >::of( v + 50 ); return Val< T >::to( at( copy, i ) ); }

  void op( int o, int j, int k, std::vector< int > const & idx, std::int64_t v, int list ) override
  {
    int const * i = idx.data();
    T const w = Val< T >::of( v );
    switch ( o )
    {
      case 0: a[j].a = fromList( v, list ); break;
      case 13: { A n( fromList( v, list ) ); a[j].a = n; break; }
      case 1: a[j].a = a[k].a; break;
      case 2: { A const & src = a[j].a; A n( src ), n2( a[j].a ), n3 = a[j].a; at( n, i ) = Val< T >::of( 55 ); at( n2, i ) = Val< T >::of( 56 ); n3 = A{}; break; }
      case 3: { V x( a[j].a.data() ); at( x, i ) = w; break; }
      case 4: { V x( b[j].b ); at( x, i ) = w; break; }
      case 5: { V x( b[j].b ); V y( x ); V const & z = y; V y2( z ); at( y2, i ) = w; break; }
      case 6: sliceWrite( a[j].a, i, w, std::make_index_sequence< R - 1 >{} ); break;
      case 7: { V x( a[j].a.data() ); sliceWrite( x, i, w, std::make_index_sequence< R - 1 >{} ); break; }
      case 8: { int flat = 0; int const n[] = { DIMS ... }; for ( int d = 0; d < R; ++d ) flat = flat * n[d] + i[d]; b[j].b[flat] = w; break; }
      case 9: std::swap( a[j].a, a[k].a ); break;
      case 10: changed( a[j].a, i, 3 ); break;
      case 11: sliceWrite( *arrayView[j], i, w, std::make_index_sequence< R - 1 >{} ); break;
      default: at( *lastingView[j], i ) = w; break;
    }
  }
  template< typename X > std::string compare( X & x, std::vector< std::int64_t > const & m, std::string const & what )
  {
    int const n[] = { DIMS ... };
    for ( int f = 0; f < S; ++f )
    {
      int i[R], r = f;
      for ( int d = R - 1; d >= 0; --d ) { i[d] = r % n[d]; r /= n[d]; }
      T const & e = read( x, i, std::make_index_sequence< R >{} );
      if ( Val< T >::to( e ) != m[static_cast< std::size_t >( f )] ) return what + " element " + str( f ) + " is " + str( Val< T >::to( e ) ) + ", expected " + str( m[static_cast< std::size_t >( f )] );
    }
    return "";
  }
  template< typename X, std::size_t ... I > static T const & read( X & x, int const * i, std::index_sequence< I... > ) { return x( i[I] ... ); }
  std::string check( Model const & m ) override
  {
    for ( int k = 0; k < 3; ++k )
    {
      A const & ca = a[k].a;
      std::string e = compare( ca, m[k], "array " + str( k ) );
      if ( e.empty() ) e = compare( *arrayView[k], m[k], "view of array " + str( k ) );
      if ( !e.empty() ) return e;
      for ( int f = 0; f < S; ++f ) if ( Val< T >::to( ca.data()[f] ) != m[k][static_cast< std::size_t >( f )] ) return "data of array " + str( k ) + " is not row-major";
      if ( !guarded( a[k] ) ) return "memory beside array " + str( k ) + " was written";
    }
    for ( int k = 0; k < 2; ++k )
    {
      std::string e = compare( *lastingView[k], m[3 + k], "view of buffer " + str( k ) );
      if ( e.empty() ) e = compare( *lastingConst[k], m[3 + k], "constant view of buffer " + str( k ) );
      if ( !e.empty() ) return e;
      for ( int f = 0; f < S; ++f ) if ( Val< T >::to( b[k].b[f] ) != m[3 + k][static_cast< std::size_t >( f )] ) return "buffer " + str( k ) + " does not have the values written through its view";
      if ( !guarded( b[k] ) ) return "memory beside buffer " + str( k ) + " was written";
    }
    return "";
  }
  static std::unique_ptr< Obj > make() { return std::unique_ptr< Obj >( new ObjOf() ); }
};

template< typename T, int ... DIMS >
void inst( char const * name )
{
  constexpr int S = ( DIMS * ... );
  Inst in{ { DIMS ... }, &ObjOf< T, DIMS... >::make, { S, 1, ( S + 1 ) / 2, 0 } };
  static_assert( sizeof( shiva::CArrayNd< T, DIMS... > ) == S * sizeof( T ), "an array is its elements" );
  static_assert( sizeof( shiva::CArrayViewNd< T, DIMS... > ) == sizeof( T * ), "a view is a pointer" );
  Prop p;
  p.name = std::string( "CArray<" ) + name + ">";
  p.tailMin = 1;
  p.tailMax = 10;
  p.tail = { 0, ( std::int64_t( 1 ) << 38 ) - 1 };
  p.run = [in]( Ctx & ctx, Case const & c ) { run( ctx, c, in ); };
  add( p );
}

// scalars and scalar views
template< typename T >
void scalars( char const * name )
{
  Prop p;
  p.name = std::string( "Scalar<" ) + name + ">";
  p.tailMin = 1;
  p.tailMax = 10;
  p.tail = { 0, 9999 };
  p.run = []( Ctx & ctx, Case const & c )
  {
    T cell[1] = { Val< T >::of( 1 ) };
    shiva::ScalarView< T > view( cell );
    shiva::ScalarView< T > const copy( view );
    shiva::ScalarView< T const > const reader( cell );
    shiva::Scalar< T > s{ Val< T >::of( 2 ) };
    shiva::Scalar< T > other( s );
    std::int64_t m = 1, ms = 2, mo = 2;
    static_assert( sizeof( view ) == sizeof( T * ) );
    for ( auto t : c.tail )
    {
      std::int64_t const v = t / 6 % 100;
      switch ( t % 6 )
      {
        case 0: cell[0] = Val< T >::of( v ); m = v; break;
        case 1: view( 0 ) = Val< T >::of( v ); m = v; break;
        case 2: view[0] = Val< T >::of( v ); m = v; break;
        case 3: s( 0 ) = Val< T >::of( v ); ms = v; break;
        case 4: other = s; mo = ms; break;
        default: view.template operator()< 0 >() = Val< T >::of( v ); m = v; break;
      }
      eq( "cell", Val< T >::to( cell[0] ), m );
      eq( "view", Val< T >::to( view( 0 ) ), m );
      eq( "copy of the view", Val< T >::to( copy( 0 ) ), m );
      eq( "constant view", Val< T >::to( reader( 0 ) ), m );
      eq( "scalar", Val< T >::to( s( 0 ) ), ms );
      eq( "copied scalar", Val< T >::to( other( 0 ) ), mo );
      ok( &view( 0 ) == cell && &copy( 0 ) == cell && &reader( 0 ) == cell, "a scalar view refers to the cell" );
    }
    ctx.nt( c.tail.size() > 1 );
  };
  add( p );
}
#define SHAPE( T, ... ) inst< T, __VA_ARGS__ >( #T "," #__VA_ARGS__ );
static bool const registered = ( []
{
  VH_SHAPES
#if VH_PART == 0
  scalars< double >( "double" );
  scalars< float >( "float" );
  scalars< int >( "int" );
  scalars< Pair >( "Pair" );
#endif
}(), true );
