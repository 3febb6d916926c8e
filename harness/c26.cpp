// C26: failed assertions report and stop, passing ones do nothing
#include "fork_common.hpp"
#include "shiva/common/ShivaErrorHandling.hpp"
using namespace vh;

namespace
{
std::string const alphabet = "abcXYZ 019_-+*/.,:;!?()[]{}<>=&|^~#@$'\"\\\t%";

/// text made from numbers; without % if asked for
std::string text( std::vector< std::int64_t > const & t, std::size_t from, std::size_t n, bool percent )
{
  std::string s;
  for ( std::size_t k = 0; k < n; ++k )
  {
    std::uint64_t const v = t.empty() ? k * 7 : static_cast< std::uint64_t >( t[( from + k ) % t.size()] ) + k / t.size() * 11;
    char ch = alphabet[v % alphabet.size()];
    if ( ch == '%' && !percent ) ch = 'p';
    s += ch;
  }
  return s;
}

struct Args { int i; long l; unsigned long long u; double d; char c; std::string s; void const * p; std::intmax_t j; std::size_t z; };

/// message kinds: format, and how it is written; the expected text is made by snprintf
#define VH_MESSAGES( M ) \
  M( 0, "plain text" ) \
  M( 1, "%d", a.i ) \
  M( 2, "value %d of %ld and %llu", a.i, a.l, a.u ) \
  M( 3, "%s", a.s.c_str() ) \
  M( 4, "[%s] %g%% %c", a.s.c_str(), a.d, a.c ) \
  M( 5, "Index out of bounds: 0 < index(%jd) < dim(%jd)", a.j, static_cast< std::intmax_t >( a.i ) ) \
  M( 6, "%5d|%-8d|%08x|%zu", a.i, a.i, static_cast< unsigned >( a.i ), a.z ) \
  M( 7, "%.3f %e %a %s %s", a.d, a.d, a.d, a.s.c_str(), "end" ) \
  M( 8, "%p %*d %.*s", a.p, 7, a.i, 3, a.s.c_str() ) \
  M( 9, "%d %d %d %d %d %d %d %d %d %d %d %d", a.i, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, a.i ) \
  M( 10, "%g %d %g %d %g %d %g %d %g %d %s", a.d, a.i, a.d, a.i, a.d, a.i, a.d, a.i, a.d, a.i, a.s.c_str() ) \
  M( 11, "%s%s%s%s", a.s.c_str(), a.s.c_str(), a.s.c_str(), a.s.c_str() ) \
  M( 12, "%s", "" )
constexpr int numMessages = 13;

std::string formatted( int kind, Args const & a )
{
  std::string out( 64 + 4 * a.s.size() + 1024, '\0' );
  int n = 0;
  switch ( kind )
  {
#define M( K, ... ) case K: n = std::snprintf( &out[0], out.size(), __VA_ARGS__ ); break;
    VH_MESSAGES( M )
#undef M
  }
  out.resize( static_cast< std::size_t >( n ) );
  return out;
}

/// calls of the reporting function
void report( int kind, Args const & a, char const * file, int line, bool abort )
{
  switch ( kind )
  {
#define M( K, ... ) case K: shivaAssertionFailed( file, line, abort, __VA_ARGS__ ); break;
    VH_MESSAGES( M )
#undef M
  }
}

/// uses of the macro; the condition and the arguments count how often they are evaluated
int condCount, argCount;
bool cond( bool v ) { ++condCount; return v; }
template< typename T > T arg( T v ) { ++argCount; return v; }

struct Site { int line; };
Site site;
#define HERE ( site.line = __LINE__ )

void use( int kind, bool v, Args const & a )
{
  switch ( kind )
  {
#define M( K, ... ) case K: HERE; SHIVA_ASSERT_MSG( cond( v ), __VA_ARGS__ ); break;
    VH_MESSAGES( M )
#undef M
  }
}

struct Explicit { bool v; explicit operator bool() const { return cond( v ); } };
struct Pair { bool a, b; };
template< bool A, bool B > struct Both { static bool value() { return cond( A && B ); } };

constexpr int numStatements = 22;
/// the assertion as a statement in each place and with each kind of condition; returns a trace of what ran around it
std::string statement( int kind, bool v, Args const & a )
{
  std::string tr;
  char const * const msg = "place %d";
  switch ( kind )
  {
    case 0: HERE; SHIVA_ASSERT_MSG( cond( v ), msg, arg( kind ) ); tr = "a"; break;
    case 1: if ( a.i == a.i ) SHIVA_ASSERT_MSG( cond( v ), msg, arg( ( HERE, kind ) ) ); else tr = "wrong"; break;
    case 2: if ( a.i != a.i ) tr = "wrong"; else SHIVA_ASSERT_MSG( cond( v ), msg, arg( ( HERE, kind ) ) ); tr += "c"; break;
    case 3: for ( int k = 0; k < 3; ++k ) SHIVA_ASSERT_MSG( cond( v || k < 2 ), msg, arg( ( HERE, kind ) ) ); tr = "d"; break;
    case 4: { int k = 0; while ( k++ < 2 ) SHIVA_ASSERT_MSG( cond( v ), msg, arg( ( HERE, kind ) ) ); tr = str( k ); break; }
    case 5: { int k = 0; do SHIVA_ASSERT_MSG( cond( v ), msg, arg( ( HERE, kind ) ) ); while ( ++k < 2 ); tr = str( k ); break; }
    case 6: HERE; SHIVA_ASSERT_MSG( v ? cond( true ) : cond( false ), msg, arg( kind ) ); break;
    case 7: HERE; SHIVA_ASSERT_MSG( cond( v ) || false, msg, arg( kind ) ); break;
    case 8: HERE; SHIVA_ASSERT_MSG( cond( v ) && true, msg, arg( kind ) ); break;
    case 9: HERE; SHIVA_ASSERT_MSG( cond( true ) == v, msg, arg( kind ) ); break;
    case 10: HERE; SHIVA_ASSERT_MSG( ( Both< true, true >::value() ) && v, msg, arg( kind ) ); break;
    case 11: HERE; SHIVA_ASSERT_MSG( Explicit{ v }, msg, arg( kind ) ); break;
    case 12: { int const x = v ? 7 : 0; HERE; SHIVA_ASSERT_MSG( x * ( cond( true ) ? 1 : 1 ), msg, arg( kind ) ); break; }
    case 13: { int x = 0; int * const q = v ? &x : nullptr; HERE; SHIVA_ASSERT_MSG( ( cond( true ), q ), msg, arg( kind ) ); break; }
    case 14: { auto f = [&]( bool w ) { HERE; SHIVA_ASSERT_MSG( cond( w ), msg, arg( kind ) ); return 5; }; tr = str( f( v ) ); break; }
    case 15: switch ( a.i & 1 ) { case 0: default: HERE; SHIVA_ASSERT_MSG( cond( v ), msg, arg( kind ) ); tr = "p"; } break;
    case 16: { int x = 3; HERE; SHIVA_ASSERT_MSG( ( x = v ? 4 : 0 ) * ( cond( true ) ? 1 : 0 ), msg, arg( kind ) ); tr = str( x ); break; }
    case 17: { std::uint64_t const x = v ? 0x100000000ull : 0; HERE; SHIVA_ASSERT_MSG( ( cond( true ), x ), msg, arg( kind ) ); break; }
    case 18: { double const x = v ? 0.25 : 0; HERE; SHIVA_ASSERT_MSG( ( cond( true ), x ), msg, arg( kind ) ); break; }
    case 19: { bool done = false; HERE; SHIVA_ASSERT_MSG( [&] { done = true; return cond( v ); }(), msg, arg( kind ) ); tr = done ? "t" : "f"; break; }
    case 20: { int const cond_ = 1, file = 2, line = 3; HERE; SHIVA_ASSERT_MSG( cond( v ) & ( cond_ + file + line == 6 ), msg, arg( kind ) ); break; }
    default: HERE; SHIVA_ASSERT_MSG( cond( !v ) != true, msg, arg( kind ) ); break;
  }
  return tr;
}
int condWanted( int kind, bool v ) { return kind == 3 ? 3 : kind == 4 || kind == 5 ? ( v ? 2 : 1 ) : 1; }

/// the message starts at its own place: file, line, text follow each other, and nothing is lost
void checkReport( std::string const & err, std::string const & file, int line, std::string const & msg )
{
  auto const f = err.find( file );
  ok( f != std::string::npos, "the message has the file: " + err.substr( 0, 300 ) );
  auto const l = err.find( str( line ), f + file.size() );
  ok( l != std::string::npos, "the message has the line " + str( line ) + " after the file: " + err.substr( 0, 300 ) );
  ok( err.size() <= l + str( line ).size() || err[l + str( line ).size()] < '0' || err[l + str( line ).size()] > '9', "the line number is complete: " + err.substr( 0, 300 ) );
  ok( err.find( msg, l + str( line ).size() ) != std::string::npos, "the message has the formatted text \"" + msg.substr( 0, 200 ) + "\": " + err.substr( 0, 300 ) );
}

Args makeArgs( Case const & c, std::size_t n )
{
  Args a;
  a.i = static_cast< int >( c.i[0] );
  a.l = static_cast< long >( c.i[1] );
  a.u = static_cast< unsigned long long >( c.i[1] ) * 3;
  a.d = c.r[0];
  a.c = alphabet[static_cast< std::uint64_t >( c.i[2] ) % 20];
  a.p = reinterpret_cast< void const * >( static_cast< std::uintptr_t >( c.i[1] & 0xffffffff ) + 16 );
  a.j = c.i[1];
  a.z = static_cast< std::size_t >( c.i[1] );
  a.s = text( c.tail, static_cast< std::size_t >( c.i[2] ), n, true );
  return a;
}
std::vector< IDom > const argInts = { { -2147483647 - 1, 2147483647 }, { -9223372036854775807ll - 1, 9223372036854775807ll }, { 0, 99 } };
std::size_t length( std::int64_t k ) { static std::size_t const n[] = { 0, 1, 2, 7, 30, 200, 1023, 1024, 1025, 4095, 4096, 9000, 70000 }; return n[k]; }

Prop base( char const * name, std::vector< IDom > more )
{
  Prop p;
  p.name = name;
  p.ints = cat( argInts, more );
  p.reals = { { 's', -20, 20 } };
  p.tailMin = 1;
  p.tailMax = 12;
  p.tail = { 0, 1000 };
  return p;
}

bool const registered = []
{
  {
    Prop p = base( "reporting function", { { 0, numMessages - 1 }, { 0, 12 }, { 0, 2147483647 }, { 1, 40 }, { 0, 1 }, { 0, 7 }, { 0, 63 } } );
    p.weight = 0.25;
    p.run = []( Ctx & ctx, Case const & c )
    {
      Args const a = makeArgs( c, length( c.i[4] ) );
      int const kind = static_cast< int >( c.i[3] ), line = static_cast< int >( c.i[5] );
      static std::size_t const longer[] = { 0, 0, 0, 100, 300, 1000, 4100, 9000 };
      std::string const file = text( c.tail, 3, static_cast< std::size_t >( c.i[6] ) + longer[c.i[8]], true ) + ".cpp";
      bool const abort = c.i[7] != 0;
      // most often two reports, sometimes many
      std::size_t const times = c.i[9] >= 60 && a.s.size() < 100 ? 300 : c.i[9] >= 50 && a.s.size() < 1100 ? static_cast< std::size_t >( c.i[9] ) : 2;
      Ended const e = inChild( [&]
      {
        report( kind, a, file.c_str(), line, abort );
        if ( abort ) _exit( 43 );
        for ( std::size_t k = 1; k < times; ++k ) report( kind, a, file.c_str(), line, abort );
        std::fputs( "after", stdout );
      } );
      if ( abort ) ok( e.signaled && e.sig == SIGABRT, "the process ends by abort: " + how( e ) );
      else ok( e.exited && e.code == 42, "the function returns: " + how( e ) );
      std::string const msg = formatted( kind, a );
      checkReport( e.err, file, line, msg );
      if ( !abort )
      {
        ok( e.out == "after", "what follows is executed, and nothing else is written" );
        std::size_t const one = e.err.size() / times;
        bool alike = e.err.size() % times == 0;
        for ( std::size_t k = 1; alike && k < times; ++k ) alike = e.err.compare( 0, one, e.err, k * one, one ) == 0;
        ok( alike, "all of " + str( times ) + " reports are alike" );
      }
      ctx.nt( kind > 0 );
      ctx.label( abort ? "with abort" : "without abort" );
      ctx.label( a.s.size() > 1000 ? "text of over 1000 characters" : "shorter text" );
    };
    add( p );
  }
  {
    Prop p = base( "assertion with each message", { { 0, numMessages - 1 }, { 0, 12 }, { 0, 1 } } );
    p.weight = 0.25;
    p.run = []( Ctx & ctx, Case const & c )
    {
      Args const a = makeArgs( c, length( c.i[4] ) );
      int const kind = static_cast< int >( c.i[3] );
      bool const v = c.i[5] != 0;
      condCount = 0;
      Ended const e = inChild( [&] { site.line = 0; use( kind, v, a ); if ( condCount != 1 ) _exit( 44 ); } );
      if ( v ) { ok( e.exited && e.code == 42 && e.err.empty() && e.out.empty(), "a true condition has no effect: " + how( e ) ); }
      else
      {
        ok( e.signaled && e.sig == SIGABRT, "a false condition ends the process by abort: " + how( e ) );
        // the line is that of the macro that lists the messages
        std::string const msg = formatted( kind, a );
        ok( e.err.find( "c26.cpp" ) != std::string::npos, "the message has the file: " + how( e ) );
        ok( e.err.find( msg ) != std::string::npos, "the message has the formatted text: " + how( e ) );
      }
      ctx.nt( !v && kind > 0 );
      ctx.label( v ? "true" : "false" );
    };
    add( p );
  }
  {
    Prop p = base( "assertion in each place", { { 0, numStatements - 1 }, { 0, 1 } } );
    p.weight = 0.5;
    p.run = []( Ctx & ctx, Case const & c )
    {
      Args const a = makeArgs( c, 5 );
      int const kind = static_cast< int >( c.i[3] );
      bool const v = c.i[4] != 0;
      int * const shared = static_cast< int * >( mmap( nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
      struct Unmap { void * p; ~Unmap() { munmap( p, 4096 ); } } unmap{ shared };
      static char const * const want[numStatements] = { "a", "", "c", "d", "3", "2", "", "", "", "", "", "", "", "", "5", "p", "4", "", "", "t", "", "" };
      std::string const wantTrace = want[kind];
      static int * out;
      out = shared;
      Ended const e = inChild( [&]
      {
        condCount = argCount = 0;
        site.line = 0;
        signal( SIGABRT, []( int ) { out[0] = condCount; out[1] = argCount; out[2] = site.line; signal( SIGABRT, SIG_DFL ); std::abort(); } );
        std::string const tr = statement( kind, v, a );
        out[0] = condCount; out[1] = argCount; out[2] = site.line;
        if ( tr != wantTrace ) { std::fprintf( stderr, "trace %s", tr.c_str() ); _exit( 45 ); }
      } );
      eq( "the condition is evaluated once per execution", shared[0], condWanted( kind, v ) );
      if ( v )
      {
        ok( e.exited && e.code == 42 && e.err.empty() && e.out.empty(), "a true condition has no effect: " + how( e ) );
        eq( "the arguments of the message are not evaluated", shared[1], 0 );
      }
      else
      {
        ok( e.signaled && e.sig == SIGABRT, "a false condition ends the process by abort: " + how( e ) );
        eq( "the arguments of the message are evaluated once", shared[1], 1 );
        checkReport( e.err, "c26.cpp", shared[2], "place " + str( kind ) );
      }
      ctx.nt( !v );
      ctx.label( v ? "true" : "false" );
    };
    add( p );
  }
  return true;
}();

/// true conditions in constant expressions
constexpr int positive( int v ) { SHIVA_ASSERT_MSG( v > 0, "not positive: %d", v ); return v; }
static_assert( positive( 3 ) == 3 );
}
