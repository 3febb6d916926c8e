// C14: sequence expansion passes all indices at once to the body (oracle: the same computed in a run time loop)
#include "vh.hpp"
#include "shiva/common/SequenceUtilities.hpp"
#include "gen_seq.hpp"
#include <memory>
using namespace vh;

template< int ... I > struct Tag { static constexpr int n = sizeof...( I ); static std::vector< int > all() { return { I ... }; } };
template< typename T > struct Listed { std::vector< int > v; T r; };
static std::vector< int > iota( int n ) { std::vector< int > v; for ( int k = 0; k < n; ++k ) v.push_back( k ); return v; }
template< typename I > constexpr bool isConstant() { return std::is_same_v< std::decay_t< I >, std::integral_constant< int, std::decay_t< I >::value > >; }

struct ByTemplate
{
  int & calls;
  std::vector< int > & seen;
  double const * w;
  template< int ... I > double operator()( double const & s, double & t, std::unique_ptr< int > && m )
  {
    ++calls;
    seen = Tag< I... >::all();
    std::unique_ptr< int > mine( std::move( m ) );
    t += *mine;
    double r = s;
    ( ( r = r * 0.5 + w[I % 7] ), ... );
    return r;
  }
};
struct ByTemplateNoArgs
{
  double const * w;
  template< int ... I > constexpr double operator()() const { double r = 1; ( ( r = r * 0.5 + w[I % 7] ), ... ); return r; }
};
struct Counting   ///< copies and moves of an argument
{
  int id = 0, copies = 0, moves = 0;
  Counting() = default;
  explicit Counting( int i ) : id( i ) {}
  Counting( Counting const & o ) : id( o.id ), copies( o.copies + 1 ), moves( o.moves ) {}
  Counting( Counting && o ) noexcept : id( o.id ), copies( o.copies ), moves( o.moves + 1 ) { o.id = -1; }
};

struct ManyByTemplate   ///< takes each kind of argument as it was passed
{
  int & calls;
  std::vector< int > & seen;
  template< int ... I >
  int operator()( Counting & a, Counting && b, Counting const & c, Counting const && d, std::unique_ptr< int > && e, int f, char const * g, Counting && h )
  {
    ++calls;
    seen = Tag< I... >::all();
    ok( a.copies + a.moves + b.copies + b.moves + c.copies + c.moves + d.copies + d.moves + h.copies + h.moves == 0, "arguments are not copied" );
    a.id += 1;
    Counting const taken( std::move( h ) );
    return ( ( ( b.id * 10 + c.id ) * 10 + d.id ) * 10 + *e ) * 100 + f * 10 + ( g[0] - '0' ) + 1000000 * taken.id;
  }
};

struct Append { std::vector< int > & flat; template< typename ... I > void operator()( int outer, I ... b ) const { ( flat.push_back( outer * 100 + b ), ... ); } };
struct Products { double const * w; double f; template< int ... B > double operator()() const { return ( ( f * w[B + 1] ) + ... ); } };
struct Stateful { int calls = 0; std::vector< int > seen; template< typename ... I > int operator()( I ... i ) { ++calls; seen = { i ... }; return calls; } };

template< int N >
void run( Ctx & ctx, int form, std::vector< double > const & w )
{
  double want = w[0];
  for ( int k = 0; k < N; ++k ) want = want * 0.5 + w[static_cast< std::size_t >( k % 7 )];
  int calls = 0;
  std::vector< int > seen;
  switch ( form )
  {
    case 0:  // indices as arguments, no further arguments
    {
      double const r = shiva::executeSequence< N >( [&]( auto const ... i ) -> double
      {
        ++calls;
        static_assert( ( isConstant< decltype( i ) >() && ... && true ) );
        seen = Tag< decltype( i )::value ... >::all();
        double x = w[0];
        ( ( x = x * 0.5 + w[i % 7] ), ... );
        return x;
      } );
      ok( r == want, "result of the body" );
      break;
    }
    case 1:  // further arguments as they were passed
    {
      double const s = w[0];
      double t = w[1];
      auto m = std::make_unique< int >( 5 );
      double const r = shiva::executeSequence< N >( [&]( double const & a, double & b, std::unique_ptr< int > && c, auto const ... i ) -> double
      {
        ++calls;
        ok( &a == &s && &b == &t && &c == &m, "arguments are the objects that were passed" );
        seen = Tag< decltype( i )::value ... >::all();
        std::unique_ptr< int > mine( std::move( c ) );
        b += *mine;
        double x = a;
        ( ( x = x * 0.5 + w[i % 7] ), ... );
        return x;
      }, s, t, std::move( m ) );
      ok( r == want && t == w[1] + 5 && !m, "result, changed argument, moved argument" );
      break;
    }
    case 2:  // the same body with indices as template parameters
    {
      double const s = w[0];
      double t = w[1];
      auto m = std::make_unique< int >( 5 );
      double const r = shiva::executeSequence< N >( ByTemplate{ calls, seen, w.data() }, s, t, std::move( m ) );
      ok( r == want && t == w[1] + 5 && !m, "result, changed argument, moved argument" );
      break;
    }
    case 3:  // both kinds of bodies agree
    {
      double const a = shiva::executeSequence< N >( ByTemplateNoArgs{ w.data() } );
      double const b = shiva::executeSequence< N >( [&]( auto const ... i ) { ++calls; seen = { decltype( i )::value ... }; double x = 1; ( ( x = x * 0.5 + w[i % 7] ), ... ); return x; } );
      ok( a == b, "bodies with arguments and with template parameters agree" );
      break;
    }
    case 4:  // results of other types
    {
      auto const r = shiva::executeSequence< N >( [&]( int k, auto const ... i ) { ++calls; seen = { decltype( i )::value ... }; return Listed< double >{ { ( i + k ) ... }, w[2] }; }, 3 );
      ok( r.r == w[2] && r.v.size() == N, "result that is an object" );
      for ( int k = 0; k < N; ++k ) eq( "entry of the result", r.v[static_cast< std::size_t >( k )], k + 3 );
      auto const p = shiva::executeSequence< N >( [&]( auto const ... i ) { return std::make_unique< int >( ( i + ... + 0 ) ); } );
      eq( "move only result", *p, N * ( N - 1 ) / 2 );
      bool done = false;
      auto body = [&]( auto const ... ) { done = true; };
      static_assert( std::is_void_v< decltype( shiva::executeSequence< N >( body ) ) > );
      shiva::executeSequence< N >( body );
      ok( done, "body without result" );
      break;
    }
    case 5:  // arguments are neither copied nor moved on the way
    {
      Counting c( 4 ), d( 6 );
      Counting const e( 8 );
      int const r = shiva::executeSequence< N >( [&]( Counting & x, Counting && y, Counting const & z, Counting && tmp, auto const ... i )
      {
        ++calls;
        seen = { decltype( i )::value ... };
        ok( x.copies + x.moves + y.copies + y.moves + z.copies + z.moves + tmp.copies + tmp.moves == 0, "arguments are not copied" );
        x.id += 1;
        return y.id * 100 + z.id * 10 + tmp.id;
      }, c, std::move( d ), e, Counting( 2 ) );
      ok( r == 682 && c.id == 5, "arguments in their order" );
      break;
    }
    case 9: case 10:  // many arguments, with both kinds of bodies
    {
      Counting a( 1 ), b( 2 ), h( 7 );
      Counting const c( 3 ), d( 4 );
      auto e = std::make_unique< int >( 5 );
      int r;
      if ( form == 9 ) r = shiva::executeSequence< N >( ManyByTemplate{ calls, seen }, a, std::move( b ), c, std::move( d ), std::move( e ), 6, "8", std::move( h ) );
      else r = shiva::executeSequence< N >( [&]( Counting & A, Counting && B, Counting const & C, Counting const && D, std::unique_ptr< int > && E, int F, char const * G, Counting && H, auto const ... i )
      {
        ok( &A == &a && &B == &b && &C == &c && &D == &d && &E == &e && &H == &h, "arguments are the objects that were passed" );
        ManyByTemplate m{ calls, seen };
        int const x = m.template operator()< decltype( i )::value ... >( A, std::move( B ), C, std::move( D ), std::move( E ), F, G, std::move( H ) );
        return x;
      }, a, std::move( b ), c, std::move( d ), std::move( e ), 6, "8", std::move( h ) );
      ok( r == 7234568, "result of the body" );
      ok( a.id == 2 && h.id == -1 && b.id == 2, "changes of the arguments" );
      break;
    }
    case 6:  // body with state, given as an object
    {
      Stateful s;
      eq( "first call", shiva::executeSequence< N >( s ), 1 );
      eq( "second call", shiva::executeSequence< N >( s ), 2 );
      eq( "calls", s.calls, 2 );
      calls = 1; seen = s.seen;
      break;
    }
    case 7:  // nested: outer product
    {
      double const r = shiva::executeSequence< N >( [&]( auto const ... a )
      {
        ++calls; seen = { decltype( a )::value ... };
        return ( shiva::executeSequence< 3 >( Products{ w.data(), w[decltype( a )::value % 7] } ) + ... + 0.0 );
      } );
      double x = 0;
      for ( int k = 0; k < N; ++k ) x += w[static_cast< std::size_t >( k % 7 )] * w[1] + w[static_cast< std::size_t >( k % 7 )] * w[2] + w[static_cast< std::size_t >( k % 7 )] * w[3];
      near( "nested expansion", r, x, 1e-9L * ( 1 + absl( x ) ) + 1e-8L );
      break;
    }
    default: // nested: every inner result once, in order
    {
      std::vector< int > flat;
      shiva::executeSequence< N >( [&]( auto const ... a )
      {
        ++calls; seen = { decltype( a )::value ... };
        ( shiva::executeSequence< decltype( a )::value + 1 >( Append{ flat }, decltype( a )::value ), ... );
      } );
      std::size_t k = 0;
      for ( int a = 0; a < N; ++a ) for ( int b = 0; b <= a; ++b ) { ok( k < flat.size() && flat[k] == a * 100 + b, "inner expansions in order" ); ++k; }
      ok( k == flat.size(), "number of inner calls" );
      break;
    }
  }
  eq( "calls of the body", calls, 1 );
  ok( seen == iota( N ), "the indices are 0, 1, ... in increasing order" );
  ctx.nt( N > 1 );
}

template< int N >
void reg( std::string name )
{
  Prop p;
  p.name = std::move( name );
  p.ints = { { 0, 10 } };
  p.reals = reals( 7, { 'v', -2, 2 } );
  p.run = []( Ctx & ctx, Case const & c ) { run< N >( ctx, static_cast< int >( c.i[0] ), c.r ); };
  add( p );
}
#define ONE( N ) reg< N >( "executeSequence<" #N ">" );
#define NESTED( ... )
#define PACK( ... )
static bool const registered = ( []{ VH_SEQ }(), true );
