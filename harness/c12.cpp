// C12: range loops visit every multi-index once in lexicographic order (oracle: odometer)
#include "vh.hpp"
#include "shiva/common/IndexTypes.hpp"
#include "gen_ranges.hpp"
using namespace vh;
using Idx = std::vector< std::int64_t >;

struct Inst
{
  Idx ranges;
  void ( *loop )( Idx const & start, int form, std::vector< Idx > & seen );
};
static constexpr int numForms = 6;

static void run( Ctx & ctx, Case const & c, Inst const & in )
{
  std::size_t const n = in.ranges.size();
  Idx start( n, 0 );
  auto u = static_cast< std::uint64_t >( c.i[1] );
  bool zero = true, single = true;
  for ( std::size_t d = 0; d < n; ++d )
  {
    auto const r = static_cast< std::uint64_t >( in.ranges[d] );
    if ( c.i[0] == 1 && r > 0 ) start[d] = static_cast< std::int64_t >( u % r );
    if ( c.i[0] == 2 && r > 0 && ( u & 1 ) ) start[d] = static_cast< std::int64_t >( r - 1 );
    if ( c.i[0] == 3 && r > 0 ) start[d] = static_cast< std::int64_t >( r - 1 );
    if ( c.i[0] == 4 ) start[d] = ( u & 3 ) == 0 ? static_cast< std::int64_t >( r ) : r > 0 ? static_cast< std::int64_t >( u % r ) : 0;  // already at the end
    if ( r > 400 ) start[d] = in.ranges[d] - 1 - static_cast< std::int64_t >( ( static_cast< std::uint64_t >( c.i[1] ) >> ( 3 * d ) ) % 6 ) + ( c.i[0] == 4 );
    u = u / ( r ? r : 1 ) ^ ( u << 7 ) % 1000003;
    zero = zero && start[d] == 0;
    single = single && in.ranges[d] <= 1;
  }
  // expected visits: an odometer over the box [start, ranges)
  std::vector< Idx > want;
  bool empty = false;
  for ( std::size_t d = 0; d < n; ++d ) empty = empty || start[d] >= in.ranges[d];
  if ( !empty )
  {
    Idx k = start;
    for ( bool more = true; more; )
    {
      want.push_back( k );
      more = false;
      for ( int d = static_cast< int >( n ) - 1; d >= 0; --d )
      {
        if ( ++k[d] < in.ranges[d] ) { more = true; break; }
        k[d] = start[d];
      }
    }
  }
  std::vector< Idx > seen;
  seen.reserve( want.size() );
  in.loop( start, static_cast< int >( c.i[2] ), seen );
  auto show = []( Idx const & i ) { std::string s = "("; for ( auto v : i ) s += str( v ) + " "; return s + ")"; };
  for ( std::size_t k = 0; k < seen.size() && k < want.size(); ++k )
  {
    if ( seen[k] != want[k] ) Ctx::fail( "visit " + str( static_cast< std::int64_t >( k ) ) + " from " + show( start ) + " is at " + show( seen[k] ) + ", expected " + show( want[k] ) );
  }
  eq( "number of visits", static_cast< std::int64_t >( seen.size() ), static_cast< std::int64_t >( want.size() ) );
  ctx.nt( n > 1 && want.size() > 1 );
  ctx.label( zero ? "start at zero" : "start elsewhere" );
  if ( empty ) ctx.label( "nothing to visit" );
  (void) single;
}

template< typename B, B ... R >
struct Of
{
  static constexpr int N = sizeof...( R );
  using M = shiva::MultiIndexRange< B, R... >;
  static Idx of( M const & m ) { return Idx( m.data, m.data + N ); }
  struct Counter
  {
    std::vector< Idx > * out;
    int calls = 0;
    void operator()( M const & m ) { ++calls; out->push_back( of( m ) ); }
  };
  struct ConstBody
  {
    std::vector< Idx > * out;
    void operator()( M & m ) const { out->push_back( of( m ) ); }
  };
  struct MoveOnly
  {
    std::vector< Idx > * out;
    explicit MoveOnly( std::vector< Idx > * o ) : out( o ) {}
    MoveOnly( MoveOnly && ) = default;
    MoveOnly( MoveOnly const & ) = delete;
    int operator()( M const & m ) { out->push_back( of( m ) ); return 3; }
  };
  static std::vector< Idx > * target;
  static void function( M const & m ) { target->push_back( of( m ) ); }

  static void loop( Idx const & start, int form, std::vector< Idx > & seen )
  {
    M m;
    for ( int d = 0; d < N; ++d ) m.data[d] = static_cast< B >( start[d] );
    switch ( form )
    {
      case 0: shiva::forRange( m, [&]( auto const & i ) { static_assert( std::is_same_v< std::decay_t< decltype( i ) >, M > ); seen.push_back( of( i ) ); } ); break;
      case 1: { Counter b{ &seen }; shiva::forRange( m, b ); eq( "state kept in the body", b.calls, static_cast< std::int64_t >( seen.size() ) ); break; }
      case 2: { ConstBody const b{ &seen }; shiva::forRange( m, b ); break; }
      case 3: { shiva::forRange( m, MoveOnly( &seen ) ); break; }
      case 4: target = &seen; shiva::forRange( m, function ); break;
      default: // a loop inside the body does not disturb the loop
        shiva::forRange( m, [&]( auto & i )
        {
          shiva::MultiIndexRange< int, 2, 3 > inner;
          int k = 0;
          shiva::forRange( inner, [&]( auto const & j ) { k = k * 7 + j.data[0] * 3 + j.data[1]; } );
          eq( "inner loop", k, ( ( ( ( ( 0 * 7 + 1 ) * 7 + 2 ) * 7 + 3 ) * 7 + 4 ) * 7 + 5 ) );
          seen.push_back( of( i ) );
        } );
        break;
    }
  }
};
template< typename B, B ... R > std::vector< Idx > * Of< B, R... >::target = nullptr;

template< typename B, B ... R >
void inst( char const * name )
{
  Inst in{ { static_cast< std::int64_t >( R ) ... }, &Of< B, R... >::loop };
  Prop p;
  p.name = std::string( "forRange<" ) + name + ">";
  p.ints = { { 0, 4 }, { 0, ( std::int64_t( 1 ) << 40 ) - 1 }, { 0, numForms - 1 } };
  p.run = [in]( Ctx & ctx, Case const & c ) { run( ctx, c, in ); };
  add( p );
}
#define RANGE( T, ... ) inst< T, __VA_ARGS__ >( #T "," #__VA_ARGS__ );
static bool const registered = ( []{ VH_RANGES }(), true );
