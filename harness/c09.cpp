// C09: bounds checks stop every out-of-range access at run time and no other
#include "fork_common.hpp"
#include "shiva/common/CArray.hpp"
#include "gen_shapes.hpp"
#include <algorithm>
#include <sys/mman.h>
#include <unistd.h>
using namespace vh;

struct Pair { int a; double b; };

static constexpr int numForms = 11;
static char const * const formName[] = { "call syntax", "call syntax on constant array", "brackets", "brackets on constant array", "view", "view, brackets",
                                         "view of constant data", "slice then call", "slice of constant array then call", "call syntax, 64-bit indices", "call syntax, unsigned indices" };
static bool bracketForm( int f ) { return f == 2 || f == 3 || f == 5; }
static bool constForm( int f ) { return f == 1 || f == 3 || f == 6 || f == 8; }

struct Inst
{
  std::vector< int > dims;
  std::size_t bytes;
  void ( *construct )( void * );
  /// touches the element; its address
  void const * ( *access )( void *, int, std::int64_t const *, bool );
  void const * ( *element )( void *, int );
};

static void run( Ctx & ctx, Case const & c, Inst const & in )
{
  static constexpr std::size_t most = 1 << 21, mostLarge = std::size_t( 1 ) << 28;
  static char * const small = static_cast< char * >( mmap( nullptr, most, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  std::size_t const used = in.bytes + 16384;          // guards before and after the array
  bool const large = used > most;
  if ( used > mostLarge ) { std::fprintf( stderr, "array too large for the harness\n" ); std::abort(); }
  // large arrays lie in a file in memory: what was touched is where the file has data, and it is zero where nothing was written
  static int const fd = memfd_create( "vh", MFD_CLOEXEC );
  static char * const sparse = static_cast< char * >( mmap( nullptr, mostLarge, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, fd, 0 ) );
  if ( small == MAP_FAILED || sparse == MAP_FAILED ) { std::perror( "mmap" ); std::abort(); }
  if ( large && ( ftruncate( fd, 0 ) != 0 || ftruncate( fd, mostLarge ) != 0 ) ) { std::perror( "memory" ); std::abort(); }
  char * const shared = large ? sparse : small;
  int const R = static_cast< int >( in.dims.size() );
  int const form = static_cast< int >( c.i[0] );
  bool const wr = c.i[1] && !constForm( form );
  unsigned const bad = static_cast< unsigned >( c.i[2] ) % 3 == 0 ? 0u : static_cast< unsigned >( c.i[3] ) & ( ( 1u << R ) - 1 );
  std::vector< std::int64_t > idx;
  int flat = 0;
  ctx.label( large ? "large array" : "small array" );
  for ( int d = 0; d < R; ++d )
  {
    std::int64_t const n = in.dims[static_cast< std::size_t >( d )];
    std::int64_t const sel = c.i[static_cast< std::size_t >( 4 + 2 * d )], k = c.i[static_cast< std::size_t >( 5 + 2 * d )];
    // in range: the first ones, the last ones, and those beside powers of two
    std::int64_t const good = sel % 3 == 0 ? k % n : sel % 3 == 1 ? n - 1 - k % n : std::min( n - 1, ( std::int64_t( 1 ) << ( k % 31 ) ) - ( sel > 4 ) );
    std::int64_t v = good;
    if ( bad >> d & 1 )
    {
      switch ( sel )
      {
        case 0: v = n; break;
        case 1: v = -1; break;
        case 2: v = k % 4 == 3 ? n + 32768 * ( 1 + k % 5 ) : n + k; break;
        case 3: v = k % 4 == 3 ? good - 65536 * ( 1 + n / 65536 ) : -1 - k; break;
        case 4: v = n * ( 1 + k ); break;
        case 5: v = std::numeric_limits< int >::max() - k; break;
        case 6: v = std::numeric_limits< int >::min() + k; break;
        case 7: v = form == 9 ? ( std::int64_t( 1 ) << 32 ) + k % n : n; break;
        default: v = form == 9 ? -( std::int64_t( 1 ) << 32 ) + k % n : -n; break;
      }
      if ( form == 10 && v < 0 ) v += std::int64_t( 1 ) << 32;   // the value of the unsigned index
      if ( form == 10 && v >= ( std::int64_t( 1 ) << 32 ) ) v = n;
    }
    idx.push_back( v );
    flat = flat * static_cast< int >( n ) + static_cast< int >( good );
  }
  char * const obj = shared + 4096;
  if ( !large )
  {
    std::memset( shared, 0x5a, used );
    in.construct( obj );
  }
  if ( bad == 0 )
  {
    ctx.label( "in range" );
    // a stop here ends this process, which the driver reports
    void const * const at = in.access( obj, form, idx.data(), wr );
    ok( at == in.element( obj, flat ), std::string( formName[form] ) + ": an access in range gives the element" );
    ctx.nt( false );
    return;
  }
  std::vector< char > const before( shared, shared + ( large ? 0 : used ) );
  Ended const e = inChild( [&] { in.access( obj, form, idx.data(), wr ); } );
  ctx.nt();
  ctx.label( ( bad & ( bad - 1 ) ) ? "several indices out of range" : "one index out of range" );
  ok( e.signaled && e.sig == SIGABRT, std::string( formName[form] ) + ": an access out of range ends the program by abort; it ended with " + how( e ) );
  bool same = large || std::memcmp( before.data(), shared, before.size() ) == 0;
  for ( off_t at = 0; large && ( at = lseek( fd, at, SEEK_DATA ) ) >= 0; )
  {
    off_t const end = lseek( fd, at, SEEK_HOLE );
    for ( ; at < end; ++at ) same = same && sparse[at] == 0;
  }
  ok( same, "nothing is written by an access that is out of range" );
  std::string t = e.err;
  auto const b = t.find( "]: " );
  if ( b != std::string::npos ) t = t.substr( b + 3 );
  auto const nums = numbersIn( t );
  bool named = false;
  for ( int d = 0; d < R; ++d )
  {
    if ( !( bad >> d & 1 ) ) continue;
    bool i = false, n = false;
    for ( std::size_t k = 0; k < nums.size(); ++k )
    {
      for ( std::size_t m = 0; m < nums.size(); ++m )
      {
        if ( k != m && nums[k] == idx[static_cast< std::size_t >( d )] && nums[m] == in.dims[static_cast< std::size_t >( d )] ) { i = true; n = true; }
      }
    }
    named = named || ( i && n );
  }
  ok( named, std::string( formName[form] ) + ": the message names the index and the extent: " + e.err.substr( 0, 200 ) );
}

template< typename T, int ... DIMS >
struct Acc
{
  using A = shiva::CArrayNd< T, DIMS... >;
  using V = shiva::CArrayViewNd< T, DIMS... >;
  using CV = shiva::CArrayViewNd< T const, DIMS... >;
  static constexpr int R = sizeof...( DIMS );
  static void construct( void * p ) { new ( p ) A{}; }
  static void const * element( void * p, int flat ) { return &static_cast< A * >( p )->data()[flat]; }
  static T const * touch( T & r, bool wr )
  {
    if ( wr ) std::memset( static_cast< void * >( &r ), 1, sizeof( T ) );
    else { char volatile ch = reinterpret_cast< char const volatile & >( r ); (void) ch; }
    return &r;
  }
  static T const * touch( T const & r, bool ) { char volatile ch = reinterpret_cast< char const volatile & >( r ); (void) ch; return &r; }
  template< typename IT, typename X, std::size_t ... I >
  static T const * call( X & x, std::int64_t const * i, bool wr, std::index_sequence< I... > ) { return touch( x( static_cast< IT >( i[I] ) ... ), wr ); }
  template< int D, typename X >
  static T const * brackets( X && x, std::int64_t const * i, bool wr )
  {
    if constexpr ( D == R - 1 ) return touch( x[static_cast< int >( i[D] )], wr );
    else return brackets< D + 1 >( x[static_cast< int >( i[D] )], i, wr );
  }
  template< typename X, std::size_t ... I >
  static T const * slice( X & x, std::int64_t const * i, bool wr, std::index_sequence< I... > )
  {
    if constexpr ( R == 1 ) return touch( x[static_cast< int >( i[0] )], wr );
    else { auto s = x[static_cast< int >( i[0] )]; return touch( s( static_cast< int >( i[I + 1] ) ... ), wr ); }
  }
  static void const * access( void * p, int form, std::int64_t const * i, bool wr )
  {
    A & a = *static_cast< A * >( p );
    A const & ca = a;
    auto const seq = std::make_index_sequence< R >{};
    switch ( form )
    {
      case 0: return call< int >( a, i, wr, seq );
      case 1: return call< int >( ca, i, wr, seq );
      case 2: return brackets< 0 >( a, i, wr );
      case 3: return brackets< 0 >( ca, i, wr );
      case 4: { V v( a.data() ); return call< int >( v, i, wr, seq ); }
      case 5: { V v( a.data() ); return brackets< 0 >( v, i, wr ); }
      case 6: { CV v( a.data() ); return call< int >( v, i, wr, seq ); }
      case 7: return slice( a, i, wr, std::make_index_sequence< R - 1 >{} );
      case 8: return slice( ca, i, wr, std::make_index_sequence< R - 1 >{} );
      case 9: return call< long long >( a, i, wr, seq );
      default: return call< unsigned >( a, i, wr, seq );
    }
  }
};

template< typename T, int ... DIMS >
void inst( char const * name )
{
  using X = Acc< T, DIMS... >;
  Inst in{ { DIMS ... }, sizeof( typename X::A ), &X::construct, &X::access, &X::element };
  Prop p;
  p.name = std::string( "CArray<" ) + name + ">";
  p.ints = { { 0, numForms - 1 }, { 0, 1 }, { 0, 5 }, { 1, ( 1 << sizeof...( DIMS ) ) - 1 } };
  for ( std::size_t d = 0; d < sizeof...( DIMS ); ++d ) { p.ints.push_back( { 0, 8 } ); p.ints.push_back( { 0, 40 } ); }
  p.run = [in]( Ctx & ctx, Case const & c ) { run( ctx, c, in ); };
  add( p );
}
#define SHAPE( T, ... ) inst< T, __VA_ARGS__ >( #T "," #__VA_ARGS__ );
static bool const registered = ( []{ VH_SHAPES }(), true );
