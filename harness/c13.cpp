// C13: compile time loops call the body once per index, in increasing order (oracle: run time loops)
#include "vh.hpp"
#include "shiva/common/SequenceUtilities.hpp"
#include "shiva/common/NestedSequenceUtilities.hpp"
#include "gen_seq.hpp"
using namespace vh;

using Visits = std::vector< std::vector< int > >;
struct Body
{
  std::vector< double > const & w;
  Visits seen;
  double sum = 0;   ///< depends on the order of the visits
  explicit Body( std::vector< double > const & x ) : w( x ) {}
  void visit( std::vector< int > i )
  {
    double t = 0;
    for ( std::size_t k = 0; k < i.size(); ++k ) t = t * 3 + w[static_cast< std::size_t >( i[k] ) % w.size()];
    sum = sum * 0.75 + t;
    seen.push_back( std::move( i ) );
  }
};

template< int ... I > struct Tag { static constexpr int n = sizeof...( I ); static std::vector< int > all() { return { I ... }; } };
template< int I > using Sized = std::array< char, I + 1 >;

static void compare( Ctx & ctx, char const * form, std::vector< int > const & ends, std::vector< double > const & w, Body const & got )
{
  Body want( w );
  bool empty = false;
  for ( int e : ends ) empty = empty || e == 0;
  if ( !empty )
  {
    std::vector< int > k( ends.size(), 0 );
    for ( bool more = true; more; )
    {
      want.visit( k );
      more = false;
      for ( int d = static_cast< int >( k.size() ) - 1; d >= 0; --d )
      {
        if ( ++k[static_cast< std::size_t >( d )] < ends[static_cast< std::size_t >( d )] ) { more = true; break; }
        k[static_cast< std::size_t >( d )] = 0;
      }
    }
  }
  for ( std::size_t k = 0; k < got.seen.size() && k < want.seen.size(); ++k )
  {
    if ( got.seen[k] != want.seen[k] )
    {
      std::string s = std::string( form ) + ": call " + str( static_cast< std::int64_t >( k ) ) + " has index";
      for ( int v : got.seen[k] ) s += " " + str( v );
      s += ", expected";
      for ( int v : want.seen[k] ) s += " " + str( v );
      Ctx::fail( s );
    }
  }
  eq( form, static_cast< std::int64_t >( got.seen.size() ), static_cast< std::int64_t >( want.seen.size() ) );
  ok( got.sum == want.sum, std::string( form ) + ": accumulated value" );
  ctx.label( form );
  ctx.nt( want.seen.size() > 1 );
}

// --- bodies of loops over one index
template< typename I > constexpr bool isConstant() { return std::is_same_v< std::decay_t< I >, std::integral_constant< int, std::decay_t< I >::value > >; }

struct ByTemplate
{
  Body & b;
  template< int I > constexpr void operator()() { Sized< I > s{}; b.visit( { static_cast< int >( s.size() ) - 1 } ); }
};
struct ByTemplateConst
{
  Body & b;
  template< int I > constexpr void operator()() const { static_assert( Tag< I >::n == 1 ); b.visit( { I } ); }
};
struct ByArgument
{
  Body & b;
  int calls = 0;
  template< int I > void operator()( std::integral_constant< int, I > ) { ++calls; b.visit( { I } ); }
};
/// state in the body itself, so that calls on a copy are lost; it cannot be copied or moved
struct OwnState
{
  std::vector< int > calls;
  OwnState() = default;
  OwnState( OwnState const & ) = delete;
  template< int I > constexpr void operator()() { Sized< I > s{}; calls.push_back( static_cast< int >( s.size() ) - 1 ); }
};
struct OwnStateArg
{
  std::vector< std::vector< int > > calls;
  OwnStateArg() = default;
  OwnStateArg( OwnStateArg const & ) = delete;
  template< int ... I > void operator()( std::integral_constant< int, I > ... ) { calls.push_back( { I ... } ); }
};
struct OwnStateConst
{
  mutable std::vector< int > calls;
  OwnStateConst() = default;
  OwnStateConst( OwnStateConst const & ) = delete;
  template< int I > void operator()() const { calls.push_back( I ); }
  template< int I > void operator()() { calls.push_back( -1 - I ); }   // the body is constant where it is passed
};
struct MoveOnly
{
  Body & b;
  explicit MoveOnly( Body & x ) : b( x ) {}
  MoveOnly( MoveOnly && ) = default;
  MoveOnly( MoveOnly const & ) = delete;
  template< typename I > int operator()( I ) { static_assert( isConstant< I >() ); b.visit( { I::value } ); return I::value; }
};

template< int END >
void one( Ctx & ctx, int form, std::vector< double > const & w )
{
  Body b( w );
  char const * what = "";
  switch ( form )
  {
    case 0: what = "argument";
      shiva::forSequence< END >( [&]( auto const i ) { static_assert( isConstant< decltype( i ) >() ); Sized< i > s{}; b.visit( { static_cast< int >( s.size() ) - 1 } ); } ); break;
    case 1: what = "argument converted to int"; shiva::forSequence< END >( [&]( int i ) { b.visit( { i } ); } ); break;
    case 2: what = "template parameter"; shiva::forSequence< END >( ByTemplate{ b } ); break;
    case 3: { what = "template parameter, constant body"; ByTemplateConst const f{ b }; shiva::forSequence< END >( f ); break; }
    case 4: { what = "body with state"; ByArgument f{ b }; shiva::forSequence< END >( f ); eq( "calls counted in the body", f.calls, END ); break; }
    case 5: what = "move only body"; shiva::forSequence< END >( MoveOnly( b ) ); break;
    case 6: what = "body that is changed by its calls"; { int calls = 0; shiva::forSequence< END >( [&, k = 0]( auto i ) mutable { ok( k++ == i, "state of the body" ); b.visit( { i } ); ++calls; } ); eq( "calls", calls, END ); } break;
    case 7: { what = "body with state, template parameter"; ByTemplate f{ b }; shiva::forSequence< END >( f ); break; }
    case 8: { what = "body that is its own state, template parameter"; OwnState f; shiva::forSequence< END >( f ); for ( int v : f.calls ) b.visit( { v } ); break; }
    case 9: { what = "body that is its own state, argument"; OwnStateArg f; shiva::forSequence< END >( f ); for ( auto const & v : f.calls ) b.visit( v ); break; }
    case 10: { what = "constant body that cannot be copied"; OwnStateConst const f{}; shiva::forSequence< END >( f ); for ( int v : f.calls ) b.visit( { v } ); break; }
    default: { what = "loops written one in the other"; // the outer index is usable as a constant inside
      Visits v; shiva::forSequence< END >( [&]( auto i ) { shiva::forSequence< i + 1 >( [&]( auto j ) { v.push_back( { i, j } ); } ); b.visit( { i } ); } );
      std::size_t k = 0;
      for ( int i = 0; i < END; ++i ) for ( int j = 0; j <= i; ++j ) { ok( k < v.size() && v[k] == std::vector< int >{ i, j }, "triangular loop" ); ++k; }
      ok( k == v.size(), "length of the triangular loop" );
      break; }
  }
  compare( ctx, what, { END }, w, b );
}

// --- bodies of nested loops
struct NestedArgs
{
  Body & b;
  int calls = 0;
  template< int ... I > void operator()( std::integral_constant< int, I > ... ) { ++calls; static_assert( Tag< I ... >::n == sizeof...( I ) ); b.visit( { I ... } ); }
};
struct NestedMoveOnly
{
  Body & b;
  explicit NestedMoveOnly( Body & x ) : b( x ) {}
  NestedMoveOnly( NestedMoveOnly && ) = default;
  NestedMoveOnly( NestedMoveOnly const & ) = delete;
  template< typename ... I > void operator()( I ... i ) const { b.visit( { i ... } ); }
};

template< int ... END >
void nested( Ctx & ctx, int form, std::vector< double > const & w )
{
  Body b( w );
  char const * what = "";
  switch ( form )
  {
    case 0: what = "nested"; shiva::forNestedSequence< END... >( [&]( auto const ... i ) { b.visit( { decltype( i )::value ... } ); } ); break;
    case 1: what = "nested, ends from a sequence"; shiva::forNestedSequence( std::integer_sequence< int, END... >{}, [&]( auto const ... i ) { b.visit( Tag< decltype( i )::value ... >::all() ); } ); break;
    case 2: { what = "nested, body with state"; NestedArgs f{ b }; shiva::forNestedSequence< END... >( f ); eq( "calls counted in the body", f.calls, ( END * ... ) ); break; }
    case 3: { what = "nested, move only body"; shiva::forNestedSequence< END... >( NestedMoveOnly( b ) ); break; }
    case 4: { what = "nested, ends from a sequence, body with state"; NestedArgs f{ b }; shiva::forNestedSequence( std::integer_sequence< int, END... >{}, f ); eq( "calls counted in the body", f.calls, ( END * ... ) ); break; }
    case 5: { what = "nested, body that cannot be copied"; OwnStateArg f; shiva::forNestedSequence< END... >( f ); for ( auto const & v : f.calls ) b.visit( v ); break; }
    case 6: { what = "nested, ends from a sequence, body that cannot be copied"; OwnStateArg f; shiva::forNestedSequence( std::integer_sequence< int, END... >{}, f ); for ( auto const & v : f.calls ) b.visit( v ); break; }
    default: what = "nested, body that is changed by its calls"; shiva::forNestedSequence< END... >( [&, k = 0]( auto ... i ) mutable { eq( "state of the body", k++, static_cast< std::int64_t >( b.seen.size() ) ); b.visit( { i ... } ); } ); break;
  }
  compare( ctx, what, { END ... }, w, b );
}

// --- packs
template< int ... P >
void packs( Ctx & ctx, int )
{
  std::vector< int > const want{ P ... };
  std::vector< int > got;
  staticFor< sizeof...( P ) >( [&]( auto i ) { got.push_back( shiva::IntPackPeeler< i, P... >::value() ); std::array< char, static_cast< std::size_t >( shiva::IntPackPeeler< i, P... >::value() ) % 5 + 1 > a{}; (void) a; } );
  for ( std::size_t k = 0; k < want.size(); ++k ) eq( "entry of the pack", got[k], want[k] );
  using Alias = typename shiva::SequenceAlias< Tag, std::integer_sequence< int, P... > >::type;
  static_assert( std::is_same_v< Alias, Tag< P... > > );
  ok( Alias::all() == want, "a template applied to a sequence has its entries in their order" );
  ctx.nt( want.size() > 1 );
  ctx.label( "index pack" );
}

template< typename F >
void reg( std::string name, int forms, F f )
{
  Prop p;
  p.name = std::move( name );
  p.ints = { { 0, forms - 1 } };
  p.reals = reals( 7, { 'v', -2, 2 } );
  p.run = [f]( Ctx & ctx, Case const & c ) { f( ctx, static_cast< int >( c.i[0] ), c.r ); };
  add( p );
}
#define ONE( N ) reg( "forSequence<" #N ">", 12, &one< N > );
#define NESTED( ... ) reg( "forNestedSequence<" #__VA_ARGS__ ">", 8, &nested< __VA_ARGS__ > );
#define PACK( ... ) reg( "pack<" #__VA_ARGS__ ">", 1, []( Ctx & ctx, int f, std::vector< double > const & ) { packs< __VA_ARGS__ >( ctx, f ); } );
static bool const registered = ( []{ VH_SEQ }(), true );
