// The model of a device: memory of its own that the host cannot touch, kernels that run when the host waits for them and
// cannot touch the host's data, errors that stay once a kernel failed. Compiled as host code for CUDA or, with VDEV_HIP, HIP names.
#include "vdev.hpp"
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

namespace
{
constexpr std::size_t PAGE = 4096, LARGE = std::size_t( 1 ) << 26;
enum { okay = 0, invalidValue = 1, outOfMemory = 2, badConfiguration = 9, noImage = 209, illegalAddress = 700, launchFailure = 719 };
struct Dim { unsigned x, y, z; };

struct Block { char * map; std::size_t bytes, pages; bool device, managed; };
using Blocks = std::map< char *, Block >;
Blocks & blocks() { static Blocks b; return b; }

struct Kernel { void ( * run )( void ** ); std::int64_t const * sizes; };
std::map< void const *, Kernel > & kernels() { static std::map< void const *, Kernel > k; return k; }
struct Launch { Kernel k; std::vector< char * > args; Dim g, b; };
std::vector< Launch > & queue() { static std::vector< Launch > q; return q; }

vdev::Stats st{};
std::string gMisuse, gStray, gText;
int sticky = 0, last = 0;
bool returned = false;
int injectIn[vdev::apiCount], injectError[vdev::apiCount];
Dim now[4];

void misused( std::string const & t ) { if ( gMisuse.empty() ) gMisuse = t; }

bool injected( vdev::Api a, int & e )
{
  if ( injectIn[a] > 0 && --injectIn[a] == 0 ) { e = injectError[a]; return true; }
  return false;
}

int give( int e ) { if ( e ) { last = e; returned = true; } return e; }

char * map( std::size_t n, bool device, bool managed = false )
{
  std::size_t const pages = ( n + 16 + PAGE - 1 ) / PAGE * PAGE;
  char * const m = static_cast< char * >( mmap( nullptr, pages + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
  if ( m == MAP_FAILED ) { std::perror( "mmap" ); std::_Exit( 3 ); }
  mprotect( m + pages, PAGE, PROT_NONE );
  char * const p = m + ( ( pages - n ) & ~std::size_t( 15 ) );
  if ( n < LARGE ) std::memset( m, 0xCD, pages );
  else
  {
    // pages that are not touched take no memory
    std::memset( m, 0xCD, static_cast< std::size_t >( p - m ) );
    std::memset( p + n, 0xCD, static_cast< std::size_t >( m + pages - p ) - n );
  }
  if ( device && !managed ) mprotect( m, pages, PROT_NONE );
  blocks()[p] = Block{ m, n, pages, device, managed };
  return p;
}

void check( char const * p, Block const & b )   // the bytes next to the block
{
  for ( char const * q = b.map; q < b.map + b.pages; ++q )
  {
    if ( q == p && b.bytes ) q += b.bytes;
    if ( q < b.map + b.pages && static_cast< unsigned char >( *q ) != 0xCD )
    {
      if ( gStray.empty() ) gStray = "a byte " + std::to_string( q - p ) + " from the start of a block of " + std::to_string( b.bytes ) + " bytes was written";
      return;
    }
  }
}

void unmap( Blocks::iterator i )
{
  mprotect( i->second.map, i->second.pages, PROT_READ | PROT_WRITE );
  check( i->first, i->second );
  munmap( i->second.map, i->second.pages + PAGE );
  blocks().erase( i );
}

void open( bool device, bool host )
{
  for ( auto & b : blocks() ) mprotect( b.second.map, b.second.pages, ( b.second.managed || ( b.second.device ? device : host ) ) ? PROT_READ | PROT_WRITE : PROT_NONE );
}

Blocks::iterator inside( void const * v, std::size_t n, bool device )
{
  char * const p = static_cast< char * >( const_cast< void * >( v ) );
  for ( auto i = blocks().begin(); i != blocks().end(); ++i )
  {
    if ( i->second.device == device && p >= i->first && p + n <= i->first + i->second.bytes ) return i;
  }
  return blocks().end();
}
bool touches( void const * v, std::size_t n, bool device )
{
  char * const p = static_cast< char * >( const_cast< void * >( v ) );
  for ( auto & b : blocks() ) if ( b.second.device == device && p < b.second.map + b.second.pages && p + n > b.second.map ) return true;
  return false;
}

sigjmp_buf out;
volatile sig_atomic_t inKernel = 0;
volatile int caught = 0;
void onSignal( int s )
{
  if ( inKernel )
  {
    caught = s;
    siglongjmp( out, 1 );
  }
  std::signal( s, SIG_DFL );
  std::raise( s );
}

void runAll()
{
  while ( !queue().empty() )
  {
    Launch l = queue().front();
    queue().erase( queue().begin() );
    if ( !sticky )
    {
      int e = 0;
      if ( injected( vdev::apiKernel, e ) ) sticky = e;
      else
      {
        static std::vector< char > stack( 1 << 16 );
        stack_t alt{}, oldAlt{};
        alt.ss_sp = stack.data();
        alt.ss_size = stack.size();
        sigaltstack( &alt, &oldAlt );
        struct sigaction a{}, old[5];
        int const sigs[5] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP };
        a.sa_handler = onSignal;
        a.sa_flags = SA_ONSTACK | SA_NODEFER;
        for ( int k = 0; k < 5; ++k ) sigaction( sigs[k], &a, &old[k] );
        open( true, false );
        unsigned const n[6] = { l.b.x, l.b.y, l.b.z, l.g.x, l.g.y, l.g.z };
        unsigned long long total = 1;
        for ( unsigned v : n ) total *= v;
        for ( unsigned long long k = 0; k < total && !sticky; ++k )
        {
          unsigned long long r = k;
          unsigned c[6];
          for ( int d = 0; d < 6; ++d ) { c[d] = static_cast< unsigned >( r % n[d] ); r /= n[d]; }
          now[0] = { c[0], c[1], c[2] };
          now[1] = { c[3], c[4], c[5] };
          now[2] = l.b;
          now[3] = l.g;
          ++st.runs;
          if ( sigsetjmp( out, 1 ) == 0 )
          {
            inKernel = 1;
            l.k.run( reinterpret_cast< void ** >( l.args.data() ) );
            inKernel = 0;
          }
          else
          {
            inKernel = 0;
            sticky = caught == SIGILL || caught == SIGTRAP || caught == SIGFPE ? launchFailure : illegalAddress;
          }
        }
        open( false, true );
        for ( int k = 0; k < 5; ++k ) sigaction( sigs[k], &old[k], nullptr );
        sigaltstack( &oldAlt, nullptr );
      }
    }
    for ( char * p : l.args ) std::free( p );
  }
}

int wait() { runAll(); return sticky; }

int allocate( void ** p, std::size_t n, bool managed )
{
  if ( sticky ) return give( sticky );
  int e = 0;
  ++st.mallocs;
  if ( injected( vdev::apiMalloc, e ) ) return give( e );
  if ( !p ) return give( invalidValue );
  if ( n > ( std::size_t( 1 ) << 36 ) ) return give( outOfMemory );
  if ( n == 0 ) { *p = nullptr; return okay; }
  *p = map( n, true, managed );
  return okay;
}

int release( void * p )
{
  int e = wait();
  if ( e ) return give( e );
  ++st.frees;
  if ( injected( vdev::apiFree, e ) ) return give( e );
  if ( !p ) return okay;
  auto i = blocks().find( static_cast< char * >( p ) );
  if ( i == blocks().end() || !i->second.device )
  {
    misused( "release of something that is not a block of device memory (or was released before)" );
    return give( invalidValue );
  }
  unmap( i );
  return okay;
}

/// whether each page of the block that has [p, p + n) is in memory; the others are zero
std::vector< unsigned char > resident( char const * p, std::size_t n )
{
  std::uintptr_t const a = reinterpret_cast< std::uintptr_t >( p ) / PAGE * PAGE, b = reinterpret_cast< std::uintptr_t >( p ) + n;
  std::vector< unsigned char > v( ( b - a + PAGE - 1 ) / PAGE );
  if ( mincore( reinterpret_cast< void * >( a ), b - a, v.data() ) != 0 ) v.assign( v.size(), 1 );
  return v;
}

void copyBytes( char * d, char const * s, std::size_t n )
{
  if ( n < LARGE || ( reinterpret_cast< std::uintptr_t >( d ) ^ reinterpret_cast< std::uintptr_t >( s ) ) % PAGE ) { std::memcpy( d, s, n ); return; }
  auto const from = resident( s, n ), to = resident( d, n );
  for ( std::size_t at = 0, k = 0; at < n; ++k )
  {
    std::size_t const m = std::min( n - at, PAGE - reinterpret_cast< std::uintptr_t >( s + at ) % PAGE );
    if ( from[k] & 1 ) std::memcpy( d + at, s + at, m );
    else if ( to[k] & 1 ) std::memset( d + at, 0, m );
    at += m;
  }
}

int copy( void * d, void const * s, std::size_t n, int kind )
{
  int e = wait();
  if ( e ) return give( e );
  if ( kind == 1 ) ++st.copiesIn;
  if ( kind == 2 ) ++st.copiesOut;
  if ( ( kind == 1 && injected( vdev::apiCopyIn, e ) ) || ( kind == 2 && injected( vdev::apiCopyOut, e ) ) ) return give( e );
  if ( n == 0 ) return okay;
  bool const dDev = touches( d, n, true ), sDev = touches( s, n, true );
  if ( kind < 0 || kind > 4 ) return give( 21 );
  if ( kind != 4 && ( dDev != ( kind == 1 || kind == 3 ) || sDev != ( kind == 2 || kind == 3 ) ) )
  {
    misused( "copy of kind " + std::to_string( kind ) + " whose direction does not fit the memory" );
    return give( invalidValue );
  }
  if ( ( dDev && inside( d, n, true ) == blocks().end() ) || ( sDev && inside( s, n, true ) == blocks().end() ) )
  {
    misused( "copy beyond a block of device memory" );
    return give( invalidValue );
  }
  open( true, true );
  copyBytes( static_cast< char * >( d ), static_cast< char const * >( s ), n );
  open( false, true );
  return okay;
}

int fill( void * d, int v, std::size_t n )
{
  int e = wait();
  if ( e ) return give( e );
  if ( n == 0 ) return okay;
  if ( inside( d, n, true ) == blocks().end() ) { misused( "memset of something that is not device memory" ); return give( invalidValue ); }
  open( true, true );
  std::memset( d, v, n );
  open( false, true );
  return okay;
}

int launch( void const * f, Dim g, Dim b, void ** args )
{
  int e = 0;
  ++st.launches;
  if ( sticky ) return give( sticky );
  if ( injected( vdev::apiLaunch, e ) ) return give( e );
  auto i = kernels().find( f );
  if ( i == kernels().end() ) return give( noImage );
  unsigned const t = b.x * b.y * b.z;
  if ( !t || t > 1024 || !g.x || !g.y || !g.z ) return give( badConfiguration );
  Launch l{ i->second, {}, g, b };
  for ( std::int64_t const * n = i->second.sizes; *n >= 0; ++n )
  {
    void * const p = std::aligned_alloc( 64, ( static_cast< std::size_t >( *n ) + 64 ) / 64 * 64 );
    std::memcpy( p, args[l.args.size()], static_cast< std::size_t >( *n ) );
    l.args.push_back( static_cast< char * >( p ) );
  }
  queue().push_back( std::move( l ) );
  return okay;
}

char const * errorText( int e )
{
  static char b[2][96];
  static int k = 0;
  k ^= 1;
  std::snprintf( b[k], sizeof b[k], "[device error %d of the model]", e );
  gText += b[k];
  return b[k];
}

struct Handle { void * so; };
void ** registerBinary( void * wrapper )
{
  struct W { int magic, version; void const * data; void * rest; };
  char const * const path = static_cast< char const * >( static_cast< W * >( wrapper )->data );
  void * const so = dlopen( path, RTLD_NOW | RTLD_LOCAL );
  if ( !so ) { std::fprintf( stderr, "device code: %s\n", dlerror() ); std::_Exit( 3 ); }
  return reinterpret_cast< void ** >( new Handle{ so } );
}
void registerFunction( void ** h, void const * host, char const * name )
{
  void * const so = reinterpret_cast< Handle * >( h )->so;
  std::string const n( name );
  void * const run = dlsym( so, ( "vhk_" + n ).c_str() ), * const sizes = dlsym( so, ( "vhs_" + n ).c_str() );
  if ( !run || !sizes ) { std::fprintf( stderr, "device code has no kernel %s\n", name ); std::_Exit( 3 ); }
  Kernel k{};
  std::memcpy( &k.run, &run, sizeof run );
  k.sizes = static_cast< std::int64_t const * >( sizes );
  kernels()[host] = k;
}

struct Config { Dim g, b; std::size_t m; void * s; };
std::vector< Config > & configs() { static std::vector< Config > c; return c; }
}

namespace vdev
{
Stats const & stats() { return st; }
void reset()
{
  for ( auto & l : queue() ) for ( char * p : l.args ) std::free( p );
  queue().clear();
  for ( auto i = blocks().begin(); i != blocks().end(); )
  {
    auto j = i++;
    if ( j->second.device ) unmap( j );
  }
  st = Stats{};
  gMisuse.clear();
  gStray.clear();
  gText.clear();
  sticky = last = 0;
  returned = false;
  for ( int & v : injectIn ) v = 0;
}
void forget() { returned = false; gText.clear(); }
std::string misuse() { return gMisuse; }
std::string stray()
{
  open( true, true );
  for ( auto & b : blocks() ) check( b.first, b.second );
  open( false, true );
  return gStray;
}
long live()
{
  long n = 0;
  for ( auto & b : blocks() ) n += b.second.device;
  return n;
}
long pending() { return static_cast< long >( queue().size() ); }
bool failed() { return returned || sticky; }
std::string text() { return gText; }
void * hostAlloc( std::size_t n ) { return map( n, false ); }
void hostFree( void * p )
{
  auto i = blocks().find( static_cast< char * >( p ) );
  if ( i != blocks().end() ) unmap( i );
}
void inject( Api a, int nth, int error ) { injectIn[a] = nth; injectError[a] = error; }
}

extern "C"
{
#if defined( VDEV_HIP )
#define API( N ) hip ## N
#define REG( N ) __hip ## N
#else
#define API( N ) cuda ## N
#define REG( N ) __cuda ## N
#endif
int API( Malloc )( void ** p, std::size_t n ) { return allocate( p, n, false ); }
int API( MallocManaged )( void ** p, std::size_t n, unsigned ) { return allocate( p, n, true ); }
int API( MallocAsync )( void ** p, std::size_t n, void * ) { return allocate( p, n, false ); }
int API( Free )( void * p ) { return release( p ); }
int API( FreeAsync )( void * p, void * ) { return release( p ); }
int API( Memcpy )( void * d, void const * s, std::size_t n, int k ) { return copy( d, s, n, k ); }
int API( MemcpyAsync )( void * d, void const * s, std::size_t n, int k, void * ) { return copy( d, s, n, k ); }
int API( Memset )( void * d, int v, std::size_t n ) { return fill( d, v, n ); }
int API( DeviceSynchronize )() { return give( wait() ); }
int API( StreamSynchronize )( void * ) { return give( wait() ); }
int API( StreamCreate )( void ** s ) { *s = nullptr; return 0; }
int API( StreamDestroy )( void * ) { return 0; }
int API( DeviceReset )() { wait(); vdev::reset(); return 0; }
int API( GetLastError )() { int const e = sticky ? sticky : last; last = 0; return e; }
int API( PeekAtLastError )() { return sticky ? sticky : last; }
int API( GetDeviceCount )( int * n ) { *n = 1; return 0; }
int API( GetDevice )( int * n ) { *n = 0; return 0; }
int API( SetDevice )( int n ) { return n ? give( 101 ) : 0; }
char const * API( GetErrorString )( int e ) { return errorText( e ); }
char const * API( GetErrorName )( int e ) { return errorText( e ); }
int API( LaunchKernel )( void const * f, Dim g, Dim b, void ** a, std::size_t, void * ) { return launch( f, g, b, a ); }
unsigned REG( PushCallConfiguration )( Dim g, Dim b, std::size_t m, void * s ) { configs().push_back( { g, b, m, s } ); return 0; }
int REG( PopCallConfiguration )( Dim * g, Dim * b, std::size_t * m, void * s )
{
  if ( configs().empty() ) return 1;
  Config const c = configs().back();
  configs().pop_back();
  *g = c.g;
  *b = c.b;
  *m = c.m;
  *static_cast< void ** >( s ) = c.s;
  return 0;
}
void ** REG( RegisterFatBinary )( void * w ) { return registerBinary( w ); }
void REG( RegisterFatBinaryEnd )( void ** ) {}
void REG( UnregisterFatBinary )( void ** ) {}
void REG( RegisterFunction )( void ** h, void const * host, char *, char const * name, int, void *, void *, void *, void *, int * ) { registerFunction( h, host, name ); }
void REG( RegisterVar )( void **, void *, char *, char const *, int, std::size_t, int, int ) {}
void REG( RegisterManagedVar )( void **, void **, void *, char const *, std::size_t, unsigned ) {}

unsigned vdev_coordinate( int k )
{
  Dim const d = now[k / 3];
  return k % 3 == 0 ? d.x : k % 3 == 1 ? d.y : d.z;
}

// printing on the device: the arguments lie in a block, each at its natural place
int vdev_vprintf( char const * f, char const * args )
{
  std::string o;
  std::size_t at = 0;
  auto next = [&]( std::size_t n ) -> char const *
  {
    if ( !args ) return nullptr;
    at = ( at + n - 1 ) / n * n;
    char const * const p = args + at;
    at += n;
    return p;
  };
  for ( ; *f; ++f )
  {
    if ( *f != '%' ) { o += *f; continue; }
    std::string spec( 1, *f++ );
    int longs = 0;
    while ( *f && !std::strchr( "diouxXeEfFgGaAcsp%", *f ) )
    {
      if ( *f == 'l' ) ++longs;
      if ( *f == 'j' || *f == 'z' || *f == 't' ) longs = 2;
      if ( *f == '*' )
      {
        char const * const p = next( 4 );
        if ( !p ) { misused( "printing on the device without the arguments of its format" ); return -1; }
        int w;
        std::memcpy( &w, p, 4 );
        spec += std::to_string( w );
      }
      else spec += *f;
      ++f;
    }
    if ( !*f ) break;
    spec += *f;
    char b[600];
    if ( *f == '%' ) { o += '%'; continue; }
    bool const real = std::strchr( "eEfFgGaA", *f ), wide = real || *f == 's' || *f == 'p' || longs;
    char const * const p = next( wide ? 8 : 4 );
    if ( !p ) { misused( "printing on the device without the arguments of its format" ); return -1; }
    if ( real ) { double v; std::memcpy( &v, p, 8 ); std::snprintf( b, sizeof b, spec.c_str(), v ); }
    else if ( *f == 's' || *f == 'p' ) { char const * v; std::memcpy( &v, p, 8 ); std::snprintf( b, sizeof b, spec.c_str(), v ); }
    else if ( wide ) { long long v; std::memcpy( &v, p, 8 ); std::snprintf( b, sizeof b, spec.c_str(), v ); }
    else { int v; std::memcpy( &v, p, 4 ); std::snprintf( b, sizeof b, spec.c_str(), v ); }
    o += b;
  }
  std::fputs( o.c_str(), stdout );
  return 0;
}
}
