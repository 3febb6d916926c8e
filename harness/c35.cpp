// C35: results depend on the arguments alone. Every call of a history is also made in a process of its own, where it is the only one, and
// both give the same bits: after any other calls, from inside the bodies of loops and kernels, and on an object that others have read.
// With VH_THREADS (and the thread sanitizer): several threads make the calls at the same time.
#include "c35_api.hpp"
#include "engine_common.hpp"
#include "fork_common.hpp"
#include "shiva/common/pmpl.hpp"
#include "shiva/common/ShivaErrorHandling.hpp"
#include "shiva/common/IndexTypes.hpp"
#include "shiva/common/SequenceUtilities.hpp"
#include "shiva/common/NestedSequenceUtilities.hpp"
#include <algorithm>
#include <atomic>
#include <sys/mman.h>
#include <memory>
#include <thread>
using namespace vh;

extern "C" std::vector< Entry > const * vhEntries0();
extern "C" std::vector< Entry > const * vhEntries1();
extern "C" std::vector< Entry > const * vhEntries2();
extern "C" std::vector< Entry > const * vhEntries3();
extern "C" std::vector< Entry > const * vhEntries4();
extern "C" std::vector< Shared > const * vhShared();

namespace
{
std::vector< Entry const * > const & all()
{
  static std::vector< Entry const * > const v = []
  {
    std::vector< Entry const * > r;
    for ( auto g : { vhEntries0(), vhEntries1(), vhEntries2(), vhEntries3(), vhEntries4() } ) for ( auto & e : *g ) r.push_back( &e );
    return r;
  }();
  return v;
}

struct Mix
{
  std::uint64_t s;
  std::uint64_t next() { std::uint64_t z = ( s += 0x9E3779B97F4A7C15ull ); z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull; z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull; return z ^ ( z >> 31 ); }
  std::uint64_t raw() { return next() >> ( 64 - rawBits ); }
};

/// one call: of an entry on a case, in a context
struct Call { Entry const * e; Case c; int context; };

constexpr int contexts = 7;
char const * const contextName[contexts] = { "alone", "in the body of a range loop", "in the body of a compile time loop", "in a kernel", "in a kernel on data", "in the body of a nested loop", "in an expanded sequence" };

template< typename F >
void within( int context, F const & f )
{
  switch ( context )
  {
    case 1: { shiva::MultiIndexRange< int, 2, 2 > q{}; int n = 0; shiva::forRange( q, [&]( auto const & ) { if ( n++ == 2 ) f(); } ); break; }
    case 2: shiva::forSequence< 3 >( [&]( auto k ) { if ( decltype( k )::value == 1 ) f(); } ); break;
    case 3: shiva::pmpl::genericKernelWrapper( [&f]() { f(); } ); break;
    case 4: { double d[2] = { 1, 2 }; shiva::pmpl::genericKernelWrapper( 2, d, [&f]( double * p ) { p[0] = 3; f(); } ); break; }
    case 5: shiva::forNestedSequence< 2, 2 >( [&]( auto a, auto b ) { if ( decltype( a )::value == 1 && decltype( b )::value == 0 ) f(); } ); break;
    case 6: shiva::executeSequence< 3 >( [&]( auto ... ) { f(); return 0; } ); break;
    default: f(); break;
  }
}

/// results as text that holds every bit
void add( std::string & s, Rec const & r )
{
  char b[128];
  if ( r.exact ) std::snprintf( b, sizeof b, "%s %lld\n", r.what, static_cast< long long >( r.n ) );
  else if ( r.v != r.v ) std::snprintf( b, sizeof b, "%s nan\n", r.what );
  else std::snprintf( b, sizeof b, "%s %.21Lg%s\n", r.what, r.v, r.v == 0 && std::signbit( r.v ) ? " negative" : "" );
  s += b;
}
std::string textOf( Out const & o ) { std::string s; for ( auto & r : o.r ) add( s, r ); return s; }

std::string make( Call const & k, bool withContext )
{
  Out o;
  if ( withContext ) within( k.context, [&] { k.e->eval( k.c, o ); } );
  else k.e->eval( k.c, o );
  return textOf( o );
}

std::string difference( std::string const & a, std::string const & b )
{
  std::size_t p = 0, q = 0;
  for ( int line = 0; p < a.size() || q < b.size(); ++line )
  {
    std::size_t const pe = std::min( a.find( '\n', p ), a.size() ), qe = std::min( b.find( '\n', q ), b.size() );
    std::string const x = a.substr( p, pe - p ), y = b.substr( q, qe - q );
    if ( x != y ) return "result " + str( line ) + " is \"" + y + "\" and not \"" + x + "\"";
    p = pe + 1; q = qe + 1;
  }
  return "";
}

/// the results that come through a pipe, separated
std::vector< std::string > split( std::string const & s )
{
  std::vector< std::string > v;
  for ( std::size_t b = 0; b < s.size(); )
  {
    std::size_t const e = s.find( '\x1e', b );
    if ( e == std::string::npos ) break;
    v.push_back( s.substr( b, e - b ) );
    b = e + 1;
  }
  return v;
}
void emit( std::string const & s )
{
  std::string const t = s + '\x1e';
  for ( std::size_t k = 0; k < t.size(); )
  {
    ssize_t const n = write( 1, t.data() + k, t.size() - k );
    if ( n <= 0 ) _exit( 3 );
    k += static_cast< std::size_t >( n );
  }
}
template< typename F >
std::vector< std::string > resultsOf( char const * what, F && f )
{
  Ended const e = inChild( f );
  if ( !e.exited || e.code != 42 ) Ctx::fail( std::string( what ) + ": " + ( e.err.find( "ThreadSanitizer" ) == std::string::npos ? how( e ) : e.err.substr( 0, 1500 ) ) );
  return split( e.out );
}

/// the calls of a case: those drawn from the tail and then the one of the arguments
std::vector< Call > callsOf( Entry const * e, std::size_t at, Case const & c )
{
  std::vector< Call > v;
  std::size_t const ni = e->ints.size();
  auto fill = [&]( Entry const * x, Mix m, int n )
  {
    Case k;
    for ( auto d : x->ints ) k.i.push_back( decodeInt( d, m.raw() ) );
    for ( auto d : x->reals ) k.r.push_back( decodeReal( d, m.raw() ) );
    for ( int j = 0; j < n && j < x->tailMax; ++j ) k.tail.push_back( decodeInt( x->tail, m.raw() ) );
    return k;
  };
  for ( auto w : c.tail )
  {
    std::uint64_t const u = static_cast< std::uint64_t >( w );
    Mix m{ u };
    std::size_t k = at;
    switch ( u % 5 )
    {
      case 0: case 1: break;                                               // the same function, other arguments
      case 2: k = ( at + all().size() + m.next() % 7 - 3 ) % all().size(); break; // one of its neighbours
      default: k = m.next() % all().size(); break;
    }
    int const context = u / 5 % 2 ? static_cast< int >( m.next() % contexts ) : 0;
    Case a = fill( all()[k], m, 1 + static_cast< int >( u % 6 ) );
    if ( u % 5 == 1 )
    {
      // some of the arguments are those of the last call
      std::uint64_t const keep = m.next() | m.next();
      for ( std::size_t j = 0; j < a.i.size(); ++j ) if ( m.next() % 8 ) a.i[j] = c.i[j];
      for ( std::size_t j = 0; j < a.r.size(); ++j ) if ( keep >> ( j % 64 ) & 1 ) a.r[j] = c.r[j];
    }
    v.push_back( { all()[k], a, context } );
  }
  Call last{ e, {}, static_cast< int >( c.i[ni] ) };
  last.c.i.assign( c.i.begin(), c.i.begin() + static_cast< std::ptrdiff_t >( ni ) );
  last.c.r = c.r;
  last.c.tail = fill( e, Mix{ static_cast< std::uint64_t >( c.i[ni + 1] ) }, 6 ).tail;
  v.push_back( last );
  return v;
}

#ifdef VH_THREADS
/// runs f( thread ) in n threads that start together
template< typename F >
void together( int n, F const & f )
{
  std::atomic< int > ready{ 0 };
  std::vector< std::thread > t;
  for ( int k = 0; k < n; ++k ) t.emplace_back( [&, k] { ready.fetch_add( 1, std::memory_order_relaxed ); while ( ready.load( std::memory_order_relaxed ) < n ) {} f( k ); } );
  for ( auto & x : t ) x.join();
}
#endif

void runEntry( Ctx & ctx, Entry const * e, std::size_t at, Case const & c )
{
  auto const calls = callsOf( e, at, c );
#ifndef VH_THREADS
  std::vector< std::string > fresh;
  for ( auto const & k : calls )
  {
    auto const r = resultsOf( ( "a call of " + k.e->name ).c_str(), [&] { emit( make( k, false ) ); } );
    ok( r.size() == 1, "a call gives its results" );
    fresh.push_back( r[0] );
  }
  auto const got = resultsOf( "a history of calls", [&] { for ( auto const & k : calls ) emit( make( k, true ) ); } );
  ok( got.size() == fresh.size(), "every call of the history gives its results" );
  for ( std::size_t k = 0; k < got.size(); ++k ) if ( got[k] != fresh[k] )
  {
    Ctx::fail( "call " + str( static_cast< std::int64_t >( k ) ) + " of the history, of " + calls[k].e->name + " " + contextName[calls[k].context] + ": " + difference( fresh[k], got[k] ) );
  }
#else
  int const n = 2 + static_cast< int >( c.i[e->ints.size() + 1] % 3 );
  auto const got = resultsOf( "calls by several threads", [&]
  {
    std::vector< std::vector< std::string > > r( static_cast< std::size_t >( n ), std::vector< std::string >( calls.size() ) );
    together( n, [&]( int t )
    {
      // the first call of every thread is the same, so that the function is first used by several
      for ( std::size_t k = 0; k < calls.size(); ++k )
      {
        std::size_t const q = ( calls.size() - 1 + k * ( 1 + static_cast< std::size_t >( t ) % 2 ) ) % calls.size();
        r[static_cast< std::size_t >( t )][q] = make( calls[q], true );
      }
    } );
    for ( std::size_t k = 0; k < calls.size(); ++k ) emit( make( calls[k], false ) );
    for ( auto & x : r ) for ( auto & y : x ) emit( y );
  } );
  std::size_t const m = calls.size();
  ok( got.size() == m * static_cast< std::size_t >( n + 1 ), "every call gives its results" );
  for ( std::size_t k = m; k < got.size(); ++k ) if ( !got[k].empty() && got[k] != got[k % m] )
  {
    Ctx::fail( "a call of " + calls[k % m].e->name + " in one of " + str( n ) + " threads: " + difference( got[k % m], got[k] ) );
  }
#endif
  ctx.nt( calls.size() > 1 );
}

void runShared( Ctx & ctx, Shared const & s, Case const & c )
{
  struct Holder { Shared const & s; void * p; Holder( Shared const & x, Case const & k ): s( x ), p( x.make( k ) ) {} ~Holder() { s.release( p ); } };
  auto call = [&]( void const * p, std::int64_t op, int context ) { Out o; within( context, [&] { s.call( p, static_cast< std::uint64_t >( op ) / 16, o ); } ); return textOf( o ); };
  auto contextOf = []( std::int64_t op ) { int const k = static_cast< int >( op % 16 ); return k < contexts ? k : 0; };
#ifndef VH_THREADS
  auto const fresh = resultsOf( "calls on one object each", [&] { for ( auto op : c.tail ) { Holder h( s, c ); emit( call( h.p, op, 0 ) ); } } );
  auto const got = resultsOf( "calls on one object", [&] { Holder h( s, c ); for ( auto op : c.tail ) emit( call( h.p, op, contextOf( op ) ) ); } );
  ok( got.size() == c.tail.size() && fresh.size() == got.size(), "every call gives its results" );
  for ( std::size_t k = 0; k < got.size(); ++k ) if ( got[k] != fresh[k] )
  {
    Ctx::fail( "call " + str( static_cast< std::int64_t >( k ) ) + " on one object " + contextName[contextOf( c.tail[k] )] + ": " + difference( fresh[k], got[k] ) );
  }
  ctx.nt( c.tail.size() > 1 );
#else
  int const n = 2 + static_cast< int >( c.i[0] % 3 );
  if ( s.write && c.i[0] / 3 % 2 )
  {
    auto const got = resultsOf( "writes by several threads to their elements", [&]
    {
      Holder a( s, c ), b( s, c );
      together( n, [&]( int t ) { for ( auto op : c.tail ) s.write( a.p, static_cast< std::uint64_t >( op ), t, n ); } );
      for ( int t = 0; t < n; ++t ) for ( auto op : c.tail ) s.write( b.p, static_cast< std::uint64_t >( op ), t, n );
      Out x, y;
      s.all( b.p, x ); s.all( a.p, y );
      emit( textOf( x ) ); emit( textOf( y ) );
    } );
    ok( got.size() == 2, "the elements are read" );
    if ( got[0] != got[1] ) Ctx::fail( "elements written by " + str( n ) + " threads: " + difference( got[0], got[1] ) );
  }
  else
  {
    std::size_t const m = c.tail.size();
    auto const got = resultsOf( "calls by several threads on one object", [&]
    {
      Holder h( s, c );
      std::vector< std::vector< std::string > > r( static_cast< std::size_t >( n ), std::vector< std::string >( m ) );
      together( n, [&]( int t ) { for ( std::size_t k = 0; k < m; ++k ) { std::size_t const q = t % 2 ? m - 1 - k : k; r[static_cast< std::size_t >( t )][q] = call( h.p, c.tail[q], contextOf( c.tail[q] ) ); } } );
      for ( auto op : c.tail ) { Holder f( s, c ); emit( call( f.p, op, 0 ) ); }
      for ( auto & x : r ) for ( auto & y : x ) emit( y );
    } );
    ok( got.size() == m * static_cast< std::size_t >( n + 1 ), "every call gives its results" );
    for ( std::size_t k = m; k < got.size(); ++k ) if ( got[k] != got[k % m] ) Ctx::fail( "a call on one object in one of " + str( n ) + " threads: " + difference( got[k % m], got[k] ) );
  }
  ctx.nt( c.tail.size() > 1 );
#endif
}

#ifdef VH_THREADS
/// assertions that report and go on, made by several threads: nothing that is written is lost
void runReports( Ctx & ctx, Case const & c )
{
  int const n = 2 + static_cast< int >( c.i[0] );
  // one report alone, and what the threads write together
  auto report = []( std::int64_t v ) { shivaAssertionFailed( "file.cpp", 100 + static_cast< int >( v % 900 ), false, "number %d of %s and %g", 1000 + static_cast< int >( v % 9000 ), "text", 0.5 ); };
  auto const got = resultsOf( "reports by several threads", [&]
  {
    int const fd = memfd_create( "vh", 0 );
    FILE * const f = fdopen( fd, "w" );
    FILE * const old = stderr;
    stderr = f;
    auto take = [&] { std::fflush( f ); std::string t( static_cast< std::size_t >( lseek( fd, 0, SEEK_CUR ) ), ' ' ); if ( pread( fd, &t[0], t.size(), 0 ) < 0 ) _exit( 4 ); return t; };
    for ( int t = 0; t < n; ++t ) for ( auto v : c.tail ) report( v + t );
    std::string one = take();
    std::size_t const alone = one.size();
    together( n, [&]( int t ) { for ( auto v : c.tail ) report( v + t ); } );
    std::string two = take().substr( alone );
    stderr = old;
    // the parts of the reports may be mixed
    std::sort( one.begin(), one.end() );
    std::sort( two.begin(), two.end() );
    emit( one );
    emit( two );
  } );
  ok( got.size() == 2 && !got[0].empty(), "reports are written" );
  ok( got[0] == got[1], "the reports of " + str( n ) + " threads are complete" );
  ctx.nt( c.tail.size() > 1 );
}
#endif

bool const registered = []
{
#ifdef VH_THREADS
  {
    Prop p;
    p.name = "reports by several threads";
    p.ints = { { 0, 2 } };
    p.tailMin = 1; p.tailMax = 10;
    p.tail = { 0, 1 << 20 };
    p.run = runReports;
    add( std::move( p ) );
  }
#endif
  std::size_t at = 0;
  for ( auto e : all() )
  {
    Prop p;
    p.name = e->name;
    p.ints = cat( e->ints, std::vector< IDom >{ { 0, contexts - 1 }, { 0, 1 << 20 } } );
    p.reals = e->reals;
    p.tailMin = 1; p.tailMax = 6;
    p.tail = { 0, ( std::int64_t( 1 ) << rawBits ) - 1 };
    std::size_t const k = at++;
    p.run = [e, k]( Ctx & ctx, Case const & c ) { runEntry( ctx, e, k, c ); };
    add( std::move( p ) );
  }
  for ( auto & s : *vhShared() )
  {
    Prop p;
    p.name = s.name;
    p.ints = { { 0, 5 } };
    p.reals = s.reals;
    p.tailMin = 1; p.tailMax = 10;
    p.tail = { 0, ( std::int64_t( 1 ) << rawBits ) - 1 };
    p.weight = 2;
    Shared const * const q = &s;
    p.run = [q]( Ctx & ctx, Case const & c ) { runShared( ctx, *q, c ); };
    add( std::move( p ) );
  }
  return true;
}();
}
