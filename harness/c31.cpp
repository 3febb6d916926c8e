// C31: the portable kernel wrapper runs its function once on the data (model: buffers of plain values, counters of calls,
// constructions and destructions)
#include "vh.hpp"
#include "shiva/common/pmpl.hpp"
#include <memory>
#include <stdexcept>
#include <string>
using namespace vh;
namespace pm = shiva::pmpl;

namespace
{
/// counts its objects, so that releasing them is seen
struct Counted
{
  static inline std::int64_t alive = 0, made = 0, gone = 0;
  double v = 0;
  Counted() { ++alive; ++made; }
  Counted( Counted const & o ): v( o.v ) { ++alive; ++made; }
  Counted & operator=( Counted const & ) = default;
  ~Counted() { --alive; ++gone; v = -77; }
  operator double() const { return v; }
  Counted & operator=( double x ) { v = x; return *this; }
};
struct Pod { double v; char c; Pod & operator=( double x ) { v = x; return *this; } operator double() const { return v; } };

/// counts the arrays that are released through it: which, and how often
struct Own
{
  static inline std::vector< void * > released;
  static inline std::int64_t allocated = 0;
  double v = 0;
  static void * operator new[]( std::size_t n ) { ++allocated; return ::operator new[]( n ); }
  static void operator delete[]( void * p ) { released.push_back( p ); ::operator delete[]( p ); }
  static void operator delete( void * p ) { released.push_back( nullptr ); ::operator delete( p ); }
  Own & operator=( double x ) { v = x; return *this; }
  operator double() const { return v; }
};

int gCalls = 0;
void const * gPtr = nullptr;
double gVal = 0;
void plainFunction() { ++gCalls; gVal += 1; }

template< typename T > double asStored( double v ) { if constexpr ( std::is_arithmetic_v< T > ) return static_cast< double >( static_cast< T >( v ) ); else return v; }
template< typename T > void store( T & t, double v ) { if constexpr ( std::is_arithmetic_v< T > ) t = static_cast< T >( v ); else t = v; }

template< typename T > void freeFunction( T * p ) { ++gCalls; gPtr = p; if ( p ) store( p[0], gVal ); }

/// function objects with state; what is called may be a copy
struct Stateful
{
  std::vector< double > values;
  std::string name;
  int n;
  int * calls;
  void const ** ptr;
  template< typename T > void operator()( T * q ) const
  {
    ++*calls; *ptr = q;
    ok( name.size() == 40 && values.size() == 5, "the function object is whole where it is called" );
    for ( int x = 0; x < n; ++x ) store( q[x], values[static_cast< std::size_t >( x ) % 5] );
  }
};

template< typename T >
void history( Ctx & ctx, Case const & c )
{
  static constexpr int M = 3;
  int const sizes[M] = { static_cast< int >( c.i[0] ), static_cast< int >( c.i[1] ), static_cast< int >( c.i[2] ) };
  std::int64_t const madeBefore = Counted::made, goneBefore = Counted::gone;
  std::int64_t extra = 0; (void) extra;
  Own::released.clear();
  std::int64_t const allocBefore = Own::allocated;
  T * d[M];
  std::vector< double > m[M];
  std::vector< void * > expectReleased;
  auto make = [&]( int k )
  {
    d[k] = new T[static_cast< std::size_t >( sizes[k] + 1 )]();     // one guard element
    m[k].assign( static_cast< std::size_t >( sizes[k] + 1 ), 0 );
    for ( int e = 0; e <= sizes[k]; ++e ) { store( d[k][e], e % 7 + 1 ); m[k][static_cast< std::size_t >( e )] = asStored< T >( e % 7 + 1 ); }
  };
  std::int64_t objects = 0;
  for ( int k = 0; k < M; ++k ) { make( k ); objects += sizes[k] + 1; }
  std::int64_t destroyed = 0;
  int kinds = 0; unsigned used = 0;
  bool wrote = false;

  for ( auto w : c.tail )
  {
    std::uint64_t u = static_cast< std::uint64_t >( w );
    auto take = [&]( std::uint64_t r ) { int const x = static_cast< int >( u % r ); u /= r; return x; };
    int const o = take( 14 ), k = take( M ), e0 = take( 40 ), v = take( 100 ), flag = take( 3 );
    int const n = sizes[k];
    int const e = n ? e0 % n : 0;
    if ( !( used >> o & 1 ) ) { used |= 1u << o; ++kinds; }
    int calls = 0;
    void const * ptr = nullptr;
    T * const p = d[k];
    auto run = [&]( auto && f )       // the abort flag in its three forms
    {
      if ( flag == 0 ) pm::genericKernelWrapper( n, p, std::forward< decltype( f ) >( f ) );
      else pm::genericKernelWrapper( n, p, std::forward< decltype( f ) >( f ), flag == 1 );
    };
    auto runPlain = [&]( auto && f )
    {
      if ( flag == 0 ) pm::genericKernelWrapper( std::forward< decltype( f ) >( f ) );
      else pm::genericKernelWrapper( std::forward< decltype( f ) >( f ), flag == 1 );
    };
    bool withPtr = true;
    switch ( o )
    {
      case 0:   // all elements, temporary
        run( [&]( T * q ) { ++calls; ptr = q; for ( int x = 0; x < n; ++x ) store( q[x], v % 50 + x % 13 ); } );
        for ( int x = 0; x < n; ++x ) m[k][static_cast< std::size_t >( x )] = asStored< T >( v % 50 + x % 13 );
        wrote = wrote || n > 1;
        break;
      case 1:   // one element, function object that lives on
      {
        auto const f = [&]( T * q ) { ++calls; ptr = q; if ( n ) store( q[e], v ); };
        run( f );
        if ( n ) m[k][static_cast< std::size_t >( e )] = asStored< T >( v );
        break;
      }
      case 2:   // reads
      {
        double sum = 0;
        run( [&]( T * q ) { ++calls; ptr = q; for ( int x = 0; x < n; ++x ) sum += static_cast< double >( q[x] ); } );
        double want = 0;
        for ( int x = 0; x < n; ++x ) want += m[k][static_cast< std::size_t >( x )];
        ok( sum == want, "the function sees the data of the caller" );
        break;
      }
      case 3:   // without data
        runPlain( [&] { ++calls; if ( n ) store( p[e], v ); } );
        if ( n ) m[k][static_cast< std::size_t >( e )] = asStored< T >( v );
        withPtr = false;
        break;
      case 4:   // a function
        gCalls = 0; gPtr = nullptr; gVal = v;
        if ( n )
        {
          run( freeFunction< T > );
          m[k][0] = asStored< T >( v );
        }
        else { gCalls = 1; gPtr = p; }
        calls = gCalls; ptr = gPtr;
        break;
      case 5:   // a function without data, by pointer
      {
        gCalls = 0; gVal = v;
        void ( * const fp )() = plainFunction;
        runPlain( fp );
        calls = gCalls; withPtr = false;
        ok( gVal == v + 1, "effect of the function" );
        break;
      }
      case 6:   // function object that can be moved only
      {
        auto owned = std::make_unique< int >( v );
        run( [&, o2 = std::move( owned )]( T * q ) { ++calls; ptr = q; if ( n ) store( q[e], *o2 ); } );
        if ( n ) m[k][static_cast< std::size_t >( e )] = asStored< T >( v );
        break;
      }
      case 7:   // no data: the pointer is passed on as it is
      {
        T * none = nullptr;
        ptr = &calls;
        pm::genericKernelWrapper( 0, none, [&]( T * q ) { ++calls; ptr = q; } );
        ok( ptr == nullptr, "the null pointer is passed on" );
        withPtr = false;
        break;
      }
      case 8:   // constant data
      {
        T const * cp = p;
        double got = 0;
        pm::genericKernelWrapper( n, cp, [&]( T const * q ) { ++calls; ptr = q; if ( n ) got = static_cast< double >( q[e] ); } );
        ok( !n || got == m[k][static_cast< std::size_t >( e )], "the function sees the constant data" );
        break;
      }
      case 9:   // a wrapper inside of a wrapper
      {
        int inner = 0;
        run( [&]( T * q )
        {
          ++calls; ptr = q;
          pm::genericKernelWrapper( n, q, [&]( T * r ) { ++inner; ok( r == q, "inner pointer" ); if ( n ) store( r[e], v ); } );
        } );
        if ( n ) m[k][static_cast< std::size_t >( e )] = asStored< T >( v );
        ok( inner == 1, "the inner function runs once" );
        break;
      }
      case 10:  // a function object of the caller keeps its state, and can be used again
      {
        Stateful f{ std::vector< double >( 5, v ), std::string( 40, static_cast< char >( 'a' + v % 26 ) ), n, &calls, &ptr };
        Stateful const before = f;
        for ( int twice = 0; twice < 2; ++twice )
        {
          if ( flag == 2 ) { Stateful const & g = f; run( g ); }
          else run( f );
          ok( f.values == before.values && f.name == before.name, "the function object of the caller is as it was" );
        }
        for ( int x = 0; x < n; ++x ) m[k][static_cast< std::size_t >( x )] = asStored< T >( v );
        eq( "calls of a function object that is used twice", calls, 2 );
        calls = 1;
        break;
      }
      case 11:  // the same, without data
      {
        std::vector< double > const values( 5, v );
        auto const keep = std::make_shared< int >( v );
        auto f = [&calls, held = values, keep, name = std::string( 40, 'x' )] { ++calls; ok( held.size() == 5 && *keep == held[4] && name.size() == 40, "the function object is whole where it is called" ); };
        for ( int twice = 0; twice < 2; ++twice ) { runPlain( f ); ok( keep.use_count() == 2, "the function object of the caller is as it was" ); }
        eq( "calls of a function object that is used twice", calls, 2 );
        withPtr = false;
        calls = 1;
        break;
      }
      case 12:  // a function that throws
      {
        std::string const text = "thrown " + str( v );
        std::string got;
        try
        {
          if ( e0 & 1 ) run( [&]( T * q ) { ++calls; ptr = q; if ( n ) store( q[e], v ); throw std::runtime_error( text ); } );
          else { runPlain( [&] { ++calls; ptr = p; if ( n ) store( p[e], v ); throw std::runtime_error( text ); } ); }
          got = "nothing thrown";
        }
        catch ( std::runtime_error const & x ) { got = x.what(); }
        ok( got == text, "what the function throws reaches the caller: " + got );
        if ( n ) m[k][static_cast< std::size_t >( e )] = asStored< T >( v );
        break;
      }
      default:  // release and allocate
      {
        expectReleased.push_back( p );
        pm::deallocateData( p );
        destroyed += n + 1;
        make( k );
        objects += n + 1;
        withPtr = false;
        calls = 1;
        break;
      }
    }
    eq( "calls of the function", calls, 1 );
    if ( withPtr ) ok( ptr == p, "the function gets the pointer of the caller" );
    for ( int b = 0; b < M; ++b )
    {
      for ( int x = 0; x <= sizes[b]; ++x )
      {
        if ( static_cast< double >( d[b][x] ) != m[b][static_cast< std::size_t >( x )] )
        {
          Ctx::fail( "buffer " + str( b ) + " element " + str( x ) + ": got " + fmt( static_cast< double >( d[b][x] ) ) + ", expected " + fmt( m[b][static_cast< std::size_t >( x )] ) );
        }
      }
    }
    if constexpr ( std::is_same_v< T, Counted > )
    {
      eq( "objects made", Counted::made - madeBefore, objects );
      eq( "objects destroyed", Counted::gone - goneBefore, destroyed );
    }
    if constexpr ( std::is_same_v< T, Own > )
    {
      ok( Own::released == expectReleased, "exactly the arrays that were given are released, as arrays" );
      eq( "arrays allocated", Own::allocated - allocBefore, M + static_cast< std::int64_t >( expectReleased.size() ) );
    }
  }
  for ( int k = 0; k < M; ++k ) pm::deallocateData( d[k] );
  pm::deallocateData( static_cast< T * >( nullptr ) );
  if constexpr ( std::is_same_v< T, Counted > ) eq( "objects alive at the end", Counted::made - madeBefore, Counted::gone - goneBefore );
  ctx.nt( kinds >= 2 && wrote );
  ctx.label( sizes[0] * sizes[1] * sizes[2] == 0 ? "a buffer without elements" : "all buffers have elements" );
}

template< typename T >
void addHistory( char const * name )
{
  Prop p;
  p.name = std::string( "wrapper and release: " ) + name;
  p.ints = { { 0, 33 }, { 1, 9 }, { 0, 3 } };
  p.tailMin = 1;
  p.tailMax = 10;
  p.tail = { 0, 14ll * 3 * 40 * 100 * 3 - 1 };
  p.run = []( Ctx & ctx, Case const & c ) { history< T >( ctx, c ); };
  add( p );
}

/// comparison: decided where rounding cannot change the result
template< typename R >
void addCheck( char const * name )
{
  Prop p;
  p.name = std::string( "check: " ) + name;
  double const w = std::is_same_v< R, float > ? 34 : 290;   // far beyond where squares can be represented
  p.ints = { { 0, 9 }, { 0, 1 }, { 0, 1 } };
  p.reals = { { 's', -w, w }, { 'u', -1, 1 }, { 'p', -w, w }, { 'u', 0, 4 } };
  p.run = []( Ctx & ctx, Case const & c )
  {
    int const mode = static_cast< int >( c.i[0] );
    R a = static_cast< R >( c.r[0] ), b, tol = static_cast< R >( c.r[2] );
    if ( mode < 6 ) b = static_cast< R >( static_cast< LD >( a ) + static_cast< LD >( tol ) * c.r[3] * ( c.i[1] ? 1 : -1 ) / ( mode & 1 ? 2 : 1 ) );   // around the limit
    else if ( mode == 6 ) b = a;
    else if ( mode == 7 ) b = -a;
    else if ( mode == 8 ) { b = a * ( 1 + static_cast< R >( c.r[1] ) * 4 * std::numeric_limits< R >::epsilon() ); }
    else b = static_cast< R >( c.r[1] * 1000 );
    if ( c.i[2] ) std::swap( a, b );
    LD const diff = absl( static_cast< LD >( a ) - static_cast< LD >( b ) );
    LD const t = static_cast< LD >( tol );
    bool const got = pm::check( a, b, tol );
    // a - b and the squares are rounded once each
    LD const margin = 8 * eps< R >() * t;
    if ( absl( diff - t ) <= margin ) { ctx.label( "equal up to rounding: not judged" ); return; }
    if ( got != ( diff < t ) ) Ctx::fail( "check( " + fmt( a ) + ", " + fmt( b ) + ", " + fmt( tol ) + " ) is " + ( got ? "true" : "false" ) );
    ok( pm::check( b, a, tol ) == got, "the comparison does not depend on the order" );
    ok( pm::check( a, a, tol ), "a number equals itself" );
    ok( !pm::check( a, b, R( 0 ) ), "nothing is less than zero apart" );
    ctx.nt( a != b );
    ctx.label( got ? "within the tolerance" : "outside of the tolerance" );
  };
  add( p );
}

bool const registered = ( addHistory< double >( "double" ), addHistory< float >( "float" ), addHistory< int >( "int" ), addHistory< long long >( "long long" ),
                          addHistory< signed char >( "signed char" ), addHistory< Counted >( "counted class" ), addHistory< Pod >( "struct" ),
                          addHistory< Own >( "class with its own allocation" ), addHistory< long double >( "long double" ),
                          addCheck< double >( "double" ), addCheck< float >( "float" ), addCheck< long double >( "long double" ), true );
static_assert( pm::check( 1.0, 1.25, 0.5 ) && !pm::check( 1.0, 1.25, 0.125 ) );
}
