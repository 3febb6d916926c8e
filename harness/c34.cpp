// C34: the kernel wrapper on a device. Compiled as CUDA and as HIP code, run on the model of a device in dev/.
// Model of the histories: plain copies of the buffers on the host.
#include "vh.hpp"
#include "fork_common.hpp"
#include "dev/vdev.hpp"
#include "shiva/common/pmpl.hpp"
#include "shiva/common/CArray.hpp"
#include <map>
#include <set>
using namespace vh;
namespace pm = shiva::pmpl;

namespace
{
struct Pod
{
  double v;
  int k;
  char c;
};
template< typename T > SHIVA_HOST_DEVICE inline T made( int v )
{
  if constexpr ( std::is_same_v< T, Pod > ) return Pod{ v * 0.5, v, static_cast< char >( v % 100 ) };
  else return static_cast< T >( v % 120 );
}
template< typename T > SHIVA_HOST_DEVICE inline int number( T const & t )
{
  if constexpr ( std::is_same_v< T, Pod > ) return t.k; else return static_cast< int >( t );
}
template< typename T > bool equal( T const & a, T const & b )
{
  if constexpr ( std::is_same_v< T, Pod > ) return a.v == b.v && a.k == b.k && a.c == b.c; else return a == b;
}

/// function object with a lot of state
template< typename T >
struct Big
{
  int table[64];
  int n;
  SHIVA_HOST_DEVICE void operator()( T * const p ) const { for ( int k = 0; k < n; ++k ) p[k] = made< T >( table[k % 64] ); }
};
template< typename T >
struct Plain
{
  int * where;
  int v;
  SHIVA_HOST_DEVICE void operator()() const { where[0] += v; where[1] += 1; }
};

/// standard output while it exists
struct Captured
{
  int old, fd;
  Captured()
  {
    std::fflush( stdout );
    old = dup( 1 );
    fd = memfd_create( "out", 0 );
    dup2( fd, 1 );
  }
  std::string text()
  {
    std::fflush( stdout );
    std::string s;
    char b[4096];
    lseek( fd, 0, SEEK_SET );
    for ( ssize_t n; ( n = read( fd, b, sizeof b ) ) > 0; ) s.append( b, static_cast< std::size_t >( n ) );
    return s;
  }
  ~Captured()
  {
    std::fflush( stdout );
    dup2( old, 1 );
    close( old );
    close( fd );
  }
};

bool has( std::string const & t, std::string const & w ) { return t.find( w ) != std::string::npos; }
bool hasNumber( std::string const & t, std::int64_t n ) { for ( auto v : numbersIn( t ) ) if ( v == n ) return true; return false; }

int sinkHost = 0;

/// how a kernel fails
enum Failing { assertion, outOfRange, beyond, numFailing };

template< typename T >
struct Bad
{
  int kind, form, i, j, k, n, given;
  SHIVA_HOST_DEVICE void operator()( T * const p ) const
  {
    (void) p;
    if ( kind == assertion ) SHIVA_ASSERT_MSG( given < 0, "number %d of %s is %g", given, "the kernel", given * 0.5 );
#if defined( SHIVA_ENABLE_BOUNDS_CHECK )
    else if ( kind == outOfRange )
    {
      shiva::CArrayNd< int, 2, 3, 4 > a{};
      int b[24] = {};
      shiva::CArrayViewNd< int, 2, 3, 4 > w( b );
      shiva::CArrayNd< int, 2, 3, 4 > const ca{};
      int r = 0;
      switch ( form )
      {
        case 0: r = a( i, j, k ); break;
        case 1: a[i][j][k] = given; break;
        case 2: w( i, j, k ) = given; break;
        case 3: r = w[i][j][k]; break;
        case 4: r = ca( i, j, k ); break;
        default: r = ca[i][j][k]; break;
      }
      if ( r == 77 ) p[0] = made< T >( b[3] );
    }
#endif
    else *reinterpret_cast< char volatile * >( static_cast< std::uintptr_t >( 64 + given ) ) = 1;
  }
};

template< typename T >
void history( Ctx & ctx, Case const & c )
{
  static constexpr int M = 3;
  int const sizes[M] = { static_cast< int >( c.i[0] ), static_cast< int >( c.i[1] ), static_cast< int >( c.i[2] ) };
  T * d[M];
  std::vector< T > m[M];
  vdev::reset();
  struct Release { T ** d; ~Release() { for ( int k = 0; k < M; ++k ) vdev::hostFree( d[k] ); vdev::reset(); } } release{ d };
  for ( int k = 0; k < M; ++k )
  {
    int const n = sizes[k] + 2;               // two elements that are not given to the wrapper
    d[k] = static_cast< T * >( vdev::hostAlloc( static_cast< std::size_t >( n ) * sizeof( T ) ) );
    for ( int e = 0; e < n; ++e ) { d[k][e] = made< T >( 3 * e + k ); m[k].push_back( d[k][e] ); }
  }
  unsigned used = 0;
  bool wrote = false;
  for ( auto word : c.tail )
  {
    std::uint64_t u = static_cast< std::uint64_t >( word );
    auto take = [&]( std::uint64_t r ) { int const x = static_cast< int >( u % r ); u /= r; return x; };
    int const o = take( 16 ), b = take( M ), e0 = take( 40 ), v = take( 100 ), flag = take( 3 ), e1 = take( 40 ), fault = take( 6 );
    int const n = sizes[b], e = n ? e0 % n : 0;
    T * const p = d[b];
    std::vector< T > & want = m[b];
    used |= 1u << o;
    std::string text;
    bool ownRuns = false, failing = false, soft = false;
    long const runs = vdev::stats().runs;
    auto run = [&]( auto && f )       // the abort flag in its three forms
    {
      Captured cap;
      if ( flag == 0 ) pm::genericKernelWrapper( n, p, std::forward< decltype( f ) >( f ) );
      else pm::genericKernelWrapper( n, p, std::forward< decltype( f ) >( f ), flag == 1 );
      text = cap.text();
    };
    switch ( o )
    {
      case 0: case 1:   // all elements
        run( [n, v] SHIVA_HOST_DEVICE ( T * const q ) { for ( int x = 0; x < n; ++x ) q[x] = made< T >( v + 5 * x ); } );
        for ( int x = 0; x < n; ++x ) want[static_cast< std::size_t >( x )] = made< T >( v + 5 * x );
        wrote = wrote || n > 1;
        break;
      case 2:           // one element, function object that lives on
      {
        auto const f = [n, e, v] SHIVA_HOST_DEVICE ( T * const q ) { if ( n ) q[e] = made< T >( v ); };
        run( f );
        if ( n ) want[static_cast< std::size_t >( e )] = made< T >( v );
        break;
      }
      case 3: case 4:   // new values from old ones
        run( [n, v] SHIVA_HOST_DEVICE ( T * const q ) { int s = v; for ( int x = 0; x < n; ++x ) { s = ( s * 7 + number( q[x] ) + 128 ) % 100; q[x] = made< T >( s ); } } );
        {
          int s = v;
          for ( int x = 0; x < n; ++x ) { T & t = want[static_cast< std::size_t >( x )]; s = ( s * 7 + number( t ) + 128 ) % 100; t = made< T >( s ); }
        }
        break;
      case 5:           // a lot of state
      {
        Big< T > f{};
        for ( int k = 0; k < 64; ++k ) f.table[k] = ( k * v + e0 ) % 113;
        f.n = n;
        Big< T > const was = f;
        run( f );
        ok( std::memcmp( &was, &f, sizeof f ) == 0, "the function object of the caller is as it was" );
        for ( int x = 0; x < n; ++x ) want[static_cast< std::size_t >( x )] = made< T >( f.table[x % 64] );
        break;
      }
      case 6: case 7:   // without data: memory that both sides see
      {
        int * w = nullptr;
        deviceMallocManaged( &w, 3 * sizeof( int ) )
        w[0] = v; w[1] = 0; w[2] = 5;
        {
          Captured cap;
          Plain< T > const f{ w, e0 };
          if ( flag == 0 ) pm::genericKernelWrapper( Plain< T >{ w, e0 } );
          else pm::genericKernelWrapper( f, flag == 1 );
          text = cap.text();
        }
        eq( "calls of the function", w[1], 1 );
        eq( "effect of the function", w[0], v + e0 );
        eq( "memory next to it", w[2], 5 );
        long const before = vdev::live();
        pm::deallocateData( w );
        eq( "blocks released by deallocateData", before - vdev::live(), 1 );
        break;
      }
      case 8:           // arrays of the library in the kernel and around the data
        run( [n, e, v] SHIVA_HOST_DEVICE ( T * const q )
        {
          if ( n < 6 ) return;
          shiva::CArrayViewNd< T, 2, 3 > w( q );
          shiva::CArrayNd< int, 3, 2 > a{ 1, 2, 3, 4, 5, 6 };
          for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 3; ++j ) w[i][j] = made< T >( a( j, i ) * ( v % 15 ) + e % 3 );
          SHIVA_ASSERT_MSG( a( 2, 1 ) == 6, "not six: %d", a( 2, 1 ) );
        } );
        if ( n >= 6 ) for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 3; ++j ) want[static_cast< std::size_t >( 3 * i + j )] = made< T >( ( 2 * j + i + 1 ) * ( v % 15 ) + e % 3 );
        break;
      case 9:           // a report without the request to abort: the kernel goes on
      {
        run( [n, e, v] SHIVA_HOST_DEVICE ( T * const q )
        {
          shivaAssertionFailed( "some file", 4321, false, "for %d and %s", v, "text" );
          if ( n ) q[e] = made< T >( v + 1 );
        } );
        ok( has( text, "some file" ) && has( text, "4321" ) && has( text, "for " + std::to_string( v ) + " and text" ), "report on the device: " + text );
        if ( n ) want[static_cast< std::size_t >( e )] = made< T >( v + 1 );
        break;
      }
      case 10: case 11: case 12:  // the kernel fails
      {
        Bad< T > f{ e0 % numFailing, e1 % 6, take( 2 ), take( 3 ), take( 4 ), n, v };
        int const at = v % 3, ext[3] = { 2, 3, 4 };
        int & x = at == 0 ? f.i : at == 1 ? f.j : f.k;
        x = flag == 0 ? -1 - v % 5 : ext[at] + v % 5;
#if !defined( SHIVA_ENABLE_BOUNDS_CHECK )
        if ( f.kind == outOfRange ) f.kind = assertion;
#endif
        failing = ownRuns = true;
        auto judge = [&]( std::string const & t )
        {
          if ( f.kind == assertion ) ok( has( t, "c34.cpp" ) && has( t, "number " + std::to_string( v ) + " of the kernel is " ), "message of the assertion on the device: " + t );
          if ( f.kind == outOfRange ) ok( hasNumber( t, x ) && hasNumber( t, ext[at] ), "message names the index " + std::to_string( x ) + " and the extent " + std::to_string( ext[at] ) + ": " + t );
          ok( has( t, "Kernel failed" ) && has( t, "[device error 7" ), "failure of the kernel is reported with the text of the runtime: " + t );
        };
        bool const withData = fault % 2;
        auto go = [&]( bool abortFlag, bool omitted )
        {
          if ( withData )
          {
            if ( omitted ) pm::genericKernelWrapper( n, p, f ); else pm::genericKernelWrapper( n, p, f, abortFlag );
          }
          else
          {
            auto const g = [f] SHIVA_HOST_DEVICE () { f( static_cast< T * >( nullptr ) ); };
            if ( omitted ) pm::genericKernelWrapper( g ); else pm::genericKernelWrapper( g, abortFlag );
          }
        };
        if ( fault < 4 )
        {
          Captured cap;
          go( false, false );
          text = cap.text();
          judge( text );
        }
        else
        {
          Ended const r = inChild( [&] { setvbuf( stdout, nullptr, _IONBF, 0 ); go( true, fault == 5 ); } );
          ok( r.signaled && r.sig == SIGABRT, "a kernel that fails ends the program by abort: " + how( r ) );
          judge( r.out );
        }
        break;
      }
      default:          // the runtime reports an error
      {
        static vdev::Api const apis[6] = { vdev::apiLaunch, vdev::apiKernel, vdev::apiMalloc, vdev::apiCopyIn, vdev::apiCopyOut, vdev::apiLaunch };
        vdev::Api const api = apis[fault];
        bool const withData = fault < 5 && ( fault > 1 || e1 % 2 );
        ownRuns = true;
        if ( withData && n == 0 && fault > 1 ) break;
        failing = true;
        soft = api != vdev::apiKernel && flag;      // the device works on after this error
        int const code = 100 + v;
        std::string const name = "[device error " + std::to_string( code ) + " of the model]";
        auto go = [&]( bool abortFlag )
        {
          vdev::inject( api, 1, code );
          if ( withData ) pm::genericKernelWrapper( n, p, [n, e] SHIVA_HOST_DEVICE ( T * const q ) { if ( n ) q[e] = made< T >( 1 ); }, abortFlag );
          else pm::genericKernelWrapper( [] SHIVA_HOST_DEVICE () {}, abortFlag );
        };
        if ( flag )
        {
          Captured cap;
          go( false );
          text = cap.text();
          ok( has( text, "failed" ) && has( text, name ), "error " + std::to_string( code ) + " of the device runtime (kind " + std::to_string( api ) + ") is reported: " + text );
        }
        else
        {
          Ended const r = inChild( [&] { setvbuf( stdout, nullptr, _IONBF, 0 ); go( true ); } );
          ok( r.signaled && r.sig == SIGABRT, "an error of the device runtime (kind " + std::to_string( api ) + ") ends the program by abort: " + how( r ) );
          ok( has( r.out, name ), "an error of the device runtime is reported before the program ends: " + r.out );
        }
        break;
      }
    }
    std::string const bad = vdev::misuse();
    ok( bad.empty(), "calls of the device runtime: " + bad );
    eq( "kernels that have not run", vdev::pending(), 0 );
    std::string const stray = vdev::stray();
    ok( stray.empty(), "memory next to the data: " + stray );
    if ( failing )
    {
      // what the data is now is not specified, but nothing else may have changed
      if ( soft ) { eq( "blocks of device memory that are not released", vdev::live(), 0 ); vdev::forget(); }
      else vdev::reset();
      for ( int x = 0; x < n; ++x ) { p[x] = made< T >( x + v ); want[static_cast< std::size_t >( x )] = p[x]; }
    }
    else
    {
      ok( !vdev::failed(), "the device runtime reported an error: " + vdev::text() );
      ok( !has( text, "failed: " ) || o == 9, "nothing is reported: " + text );
      if ( !ownRuns ) eq( "runs of the kernel", vdev::stats().runs - runs, 1 );
      eq( "blocks of device memory that are not released", vdev::live(), 0 );
    }
    for ( int k = 0; k < M; ++k )
    {
      for ( int x = 0; x < sizes[k] + 2; ++x )
      {
        if ( !equal( d[k][x], m[k][static_cast< std::size_t >( x )] ) )
        {
          Ctx::fail( "operation " + str( o ) + " on buffer " + str( b ) + ": buffer " + str( k ) + " element " + str( x ) + " is " + str( number( d[k][x] ) ) + ", expected " + str( number( m[k][static_cast< std::size_t >( x )] ) ) );
        }
      }
    }
  }
  int kinds = 0;
  for ( unsigned q = used; q; q >>= 1 ) kinds += q & 1;
  ctx.nt( kinds >= 2 );
  (void) wrote;
  ctx.label( used >> 10 ? "with failures" : "without failures" );
}

template< typename T >
void addHistory( char const * name )
{
  Prop p;
  p.name = std::string( "wrapper on the device: " ) + name;
  p.ints = { { 0, 33 }, { 1, 9 }, { 0, 600 } };
  p.tailMin = 1;
  p.tailMax = 10;
  p.tail = { 0, 16ll * 3 * 40 * 100 * 3 * 40 * 6 * 24 - 1 };
  p.run = []( Ctx & ctx, Case const & c ) { history< T >( ctx, c ); };
  add( p );
}
/// much data: numbers of elements beyond 16 bits, and of bytes beyond 32 bits
struct Wide { double v; char more[65528]; };
template< typename T > double & numberIn( T & t ) { if constexpr ( std::is_same_v< T, Wide > ) return t.v; else return t; }
template< typename T > SHIVA_HOST_DEVICE inline void setNumber( T & t, double v ) { if constexpr ( std::is_same_v< T, Wide > ) t.v = v; else t = v; }
template< typename T > SHIVA_HOST_DEVICE inline double getNumber( T const & t ) { if constexpr ( std::is_same_v< T, Wide > ) return t.v; else return t; }

template< typename T >
void large( Ctx & ctx, Case const & c )
{
  int const n = static_cast< int >( c.i[0] );
  int at[5];
  for ( int k = 0; k < 5; ++k )
  {
    std::int64_t const v = c.i[static_cast< std::size_t >( k + 1 )];
    at[k] = v < 4 ? static_cast< int >( v ) : v < 8 ? n - 1 - static_cast< int >( v - 4 ) : static_cast< int >( v % n );
  }
  vdev::reset();
  T * const p = static_cast< T * >( vdev::hostAlloc( ( static_cast< std::size_t >( n ) + 2 ) * sizeof( T ) ) );
  struct Release { T * p; ~Release() { vdev::hostFree( p ); vdev::reset(); } } release{ p };
  std::map< int, double > m;
  for ( int k = 0; k < 5; ++k ) { numberIn( p[at[k]] ) = k + 3; m[at[k]] = k + 3; }
  numberIn( p[n] ) = numberIn( p[n + 1] ) = -5;
  m[n] = m[n + 1] = -5;
  std::string text;
  {
    Captured cap;
    int const a0 = at[0], a1 = at[1], a2 = at[2], a3 = at[3], a4 = at[4];
    pm::genericKernelWrapper( n, p, [a0, a1, a2, a3, a4] SHIVA_HOST_DEVICE ( T * const q )
    {
      setNumber( q[a0], getNumber( q[a0] ) * 10 + getNumber( q[a4] ) );
      setNumber( q[a2], getNumber( q[a1] ) * 10 + getNumber( q[a3] ) );
    } );
    text = cap.text();
  }
  m[at[0]] = m[at[0]] * 10 + m[at[4]];
  m[at[2]] = m[at[1]] * 10 + m[at[3]];
  ok( text.empty() && !vdev::failed(), "nothing is reported: " + text + vdev::text() );
  ok( vdev::misuse().empty(), "calls of the device runtime: " + vdev::misuse() );
  eq( "runs of the kernel", vdev::stats().runs, 1 );
  eq( "blocks of device memory that are not released", vdev::live(), 0 );
  for ( auto const & e : m )
  {
    if ( numberIn( p[e.first] ) != e.second ) Ctx::fail( "element " + str( e.first ) + " of " + str( n ) + " is " + fmt( numberIn( p[e.first] ) ) + ", expected " + fmt( e.second ) );
  }
  ctx.nt();
  ctx.label( "much data" );
}

template< typename T >
void addLarge( char const * name, std::int64_t lo, std::int64_t hi )
{
  Prop p;
  p.name = std::string( "much data on the device: " ) + name;
  p.weight = 0.06;
  p.ints = { { lo, hi } };
  for ( int k = 0; k < 5; ++k ) p.ints.push_back( { 0, 99999999 } );
  p.run = []( Ctx & ctx, Case const & c ) { large< T >( ctx, c ); };
  add( p );
}

bool const registered = ( addLarge< double >( "double", 32000, 12000000 ), addLarge< Wide >( "large struct", 30000, 70000 ),
                          addHistory< double >( "double" ), addHistory< int >( "int" ), addHistory< signed char >( "signed char" ), addHistory< Pod >( "struct" ),
                          addHistory< long long >( "long long" ), true );
}
