// C11: the linear index of a multi-index is its lexicographic position (oracle: mixed radix in 128 bits)
#include "vh.hpp"
#include "shiva/common/IndexTypes.hpp"
#include "shiva/common/CArray.hpp"
#include "gen_ranges.hpp"
#include <memory>
using namespace vh;
using I128 = __int128;

struct Inst
{
  std::vector< std::int64_t > ranges;
  bool isBig;
  int numIndices;
  std::vector< std::int64_t > reported, reportedArray;
  I128 ( *lin )( std::vector< std::int64_t > const & );
  I128 ( *inArray )( std::vector< std::int64_t > const & );   ///< position in an array of these extents, or -1
};

static I128 model( Inst const & in, std::vector< std::int64_t > const & idx )
{
  I128 f = 0;
  for ( std::size_t d = 0; d < idx.size(); ++d ) f = f * in.ranges[d] + idx[d];
  return f;
}
static std::string str128( I128 v ) { if ( v < 0 ) return "-" + str128( -v ); std::string s; do { s.insert( s.begin(), static_cast< char >( '0' + static_cast< int >( v % 10 ) ) ); v /= 10; } while ( v ); return s; }
static void eq128( char const * what, I128 got, I128 want ) { if ( got != want ) Ctx::fail( std::string( what ) + ": got " + str128( got ) + ", expected " + str128( want ) ); }

static std::vector< std::int64_t > indexAt( Inst const & in, I128 f )
{
  std::vector< std::int64_t > idx( in.ranges.size() );
  for ( int d = static_cast< int >( idx.size() ) - 1; d >= 0; --d ) { idx[d] = static_cast< std::int64_t >( f % in.ranges[d] ); f /= in.ranges[d]; }
  return idx;
}

static void run( Ctx & ctx, Case const & c, Inst const & in )
{
  std::size_t const n = in.ranges.size();
  eq( "number of indices", in.numIndices, static_cast< std::int64_t >( n ) );
  for ( std::size_t d = 0; d < n; ++d ) { eq( "range", in.reported[d], in.ranges[d] ); eq( "entry of ranges", in.reportedArray[d], in.ranges[d] ); }
  I128 size = 1;
  for ( auto r : in.ranges ) size *= r;
  // a multi-index: anywhere, near the beginning, near the end, or at an end of each range
  std::vector< std::int64_t > idx( n );
  auto u = static_cast< std::uint64_t >( c.i[1] );
  I128 f;
  switch ( c.i[0] )
  {
    case 0: f = static_cast< I128 >( u ) * size / ( I128( 1 ) << 40 ); break;
    case 1: f = static_cast< I128 >( u ) % size; break;
    case 2: f = size - 1 - static_cast< I128 >( u % 1000 ) % size; break;
    default:
      for ( std::size_t d = 0; d < n; ++d ) { idx[d] = ( u >> d & 1 ) ? in.ranges[d] - 1 - static_cast< std::int64_t >( ( u >> 20 >> d & 1 ) && in.ranges[d] > 1 ) : 0; }
      f = model( in, idx );
      break;
  }
  idx = indexAt( in, f );
  eq128( "linear index", in.lin( idx ), f );
  I128 const arr = in.inArray( idx );
  if ( arr >= 0 ) eq128( "position in an array of these extents", arr, f );
  // its successor in lexicographic order
  if ( f + 1 < size ) eq128( "linear index of the next multi-index", in.lin( indexAt( in, f + 1 ) ), f + 1 );
  // a step in one direction is the product of the ranges that follow
  I128 stride = 1;
  for ( int d = static_cast< int >( n ) - 1; d >= 0; --d )
  {
    if ( idx[d] + 1 < in.ranges[d] )
    {
      auto next = idx;
      ++next[d];
      eq128( "step in one direction", in.lin( next ) - in.lin( idx ), stride );
    }
    stride *= in.ranges[d];
  }
  auto last = in.ranges;
  for ( auto & v : last ) --v;
  eq128( "linear index of the last multi-index", in.lin( last ), size - 1 );
  if ( size <= 4096 && c.i[2] == 0 )
  {
    for ( I128 k = 0; k < size; ++k ) eq128( "linear index in a walk over all", in.lin( indexAt( in, k ) ), k );
    ctx.label( "walk over all" );
  }
  int moved = 0;
  for ( auto v : idx ) moved += v != 0;
  ctx.nt( n > 1 && moved > 0 );
  if ( size > 2147483647 ) ctx.label( "beyond 32 bits" );
}

template< typename B, B ... R >
struct Of
{
  static constexpr int N = sizeof...( R );
  using M = shiva::MultiIndexRange< B, R... >;
  static I128 lin( std::vector< std::int64_t > const & idx )
  {
    M m;
    for ( int d = 0; d < N; ++d ) m.data[d] = static_cast< B >( idx[d] );
    M const before = m;
    auto const r = shiva::linearIndex( m );
    static_assert( std::is_same_v< decltype( shiva::linearIndex( m ) ), B > );
    M const & cm = m;
    ok( shiva::linearIndex( cm ) == r, "same result for a constant multi-index" );
    for ( int d = 0; d < N; ++d ) ok( m.data[d] == before.data[d], "the multi-index is not changed" );
    ok( shiva::linearIndex( shiva::LinearIndex< B >( r ) ) == r, "the linear index of a linear index is itself" );
    return static_cast< I128 >( r );
  }
  static constexpr bool small() { I128 s = 1; for ( auto r : { static_cast< I128 >( R ) ... } ) { s *= r; if ( s > 4096 ) return false; } return true; }
  template< std::size_t ... D >
  static I128 inArrayImpl( std::vector< std::int64_t > const & idx, std::index_sequence< D... > )
  {
    if constexpr ( small() )
    {
      static shiva::CArrayNd< char, static_cast< int >( R ) ... > const a{};
      return static_cast< I128 >( &a( static_cast< int >( idx[D] ) ... ) - &a.data()[0] );
    }
    else return -1;
  }
  static I128 inArray( std::vector< std::int64_t > const & idx ) { return inArrayImpl( idx, std::make_index_sequence< N >{} ); }
};

template< typename B, B ... R >
void inst( char const * name )
{
  using M = shiva::MultiIndexRange< B, R... >;
  static_assert( std::is_same_v< typename M::BaseIndexType, B > );
  Inst in{ { static_cast< std::int64_t >( R ) ... }, false, M::NUM_INDICES, {}, {}, &Of< B, R... >::lin, &Of< B, R... >::inArray };
  for ( int d = 0; d < static_cast< int >( sizeof...( R ) ); ++d ) { in.reported.push_back( M::range( d ) ); in.reportedArray.push_back( M::ranges[d] ); }
  M const zero{};
  for ( auto v : zero.data ) ok( v == 0, "a new multi-index is at zero" );
  Prop p;
  p.name = std::string( "MultiIndexRange<" ) + name + ">";
  p.ints = { { 0, 3 }, { 0, ( std::int64_t( 1 ) << 40 ) - 1 }, { 0, 49 } };
  p.run = [in]( Ctx & ctx, Case const & c ) { run( ctx, c, in ); };
  add( p );
}
#define RANGE( T, ... ) inst< T, __VA_ARGS__ >( #T "," #__VA_ARGS__ );
static bool const registered = ( []{ VH_RANGES }(), true );
