// C19: nodal data set on a geometry transform comes back at the same index (model: a table per transform)
#include "geom_common.hpp"
#include "gen_orders.hpp"   // VH_ORDERS: CELL( R, SR, n0, n1, n2 ), numbers of support points per direction
#include <memory>
using namespace vh;

static constexpr int numTransforms = 3;
static constexpr int numKinds = 9;
static constexpr int numOps = 9;
static char const * const kindName[] = { "built-in array", "array of float", "vector of arrays", "array object", "view", "pointer to rows", "user type", "array of int", "constant array object" };

/// Values are coded: a number of -4000..3999 and how it came to the transform (full precision, through float, multiple of 1/16).
static std::int64_t code( std::int64_t v, int tag = 0 ) { return tag * 10000 + v + 4000; }
template< typename W >
W decode( std::int64_t c )
{
  std::int64_t const tag = c / 10000, v = c % 10000 - 4000;
  if ( tag == 2 || v % 4 == 0 ) return static_cast< W >( v ) / 16;
  constexpr bool wide = sizeof( W ) > 4;
  using L = std::numeric_limits< float >;
  using M = std::numeric_limits< W >;
  switch ( v % 64 )
  {
    case 1: return tag == 1 ? static_cast< W >( L::infinity() ) : M::infinity();
    case 2: return tag == 1 ? static_cast< W >( L::denorm_min() ) : M::denorm_min();
    case 3: return tag == 1 ? static_cast< W >( L::max() ) : M::max();
    case -1: return tag == 1 ? static_cast< W >( L::lowest() ) : M::lowest();
    case -2: return -M::infinity();
    default: break;
  }
  double const x = static_cast< double >( v ) * 0.73105857863000490 * std::pow( 10.0, v % ( tag == 0 && wide ? 131 : 13 ) );
  if ( tag == 1 ) return static_cast< W >( static_cast< float >( x ) );
  return sizeof( W ) > 8 ? static_cast< W >( x ) * ( 1 + static_cast< W >( 0x1p-58 ) ) : static_cast< W >( x );
}

struct Obj
{
  virtual ~Obj() = default;
  virtual void set( int t, int kind, std::vector< std::int64_t > const & v, bool temporary ) = 0;
  virtual void write( int t, int flat, std::int64_t v ) = 0;
  virtual void copy( int t, int s, int how ) = 0;
  virtual void copyAndChange( int t, int flat, std::int64_t v ) = 0;
  virtual std::string check( std::vector< std::vector< std::int64_t > > const & m ) = 0;
};
struct Inst { int n[3]; std::unique_ptr< Obj > ( *make )(); };

/// row-major position (a,b,c,i) of an entry of the list in which the first vertex index is fastest
static int place( int const * n, int vertex, int i ) { int const a = vertex % n[0], b = vertex / n[0] % n[1], c = vertex / ( n[0] * n[1] ); return ( ( a * n[1] + b ) * n[2] + c ) * 3 + i; }

static void run( Ctx & ctx, Case const & c, Inst const & in )
{
  int const V = in.n[0] * in.n[1] * in.n[2];
  auto obj = in.make();
  std::vector< std::vector< std::int64_t > > m( numTransforms, std::vector< std::int64_t >( static_cast< std::size_t >( 3 * V ) ) );
  std::uint64_t salt = 12345;
  auto values = [&]( int kind ) { std::vector< std::int64_t > v( static_cast< std::size_t >( 3 * V ) ); for ( auto & x : v ) { salt = salt * 6364136223846793005ull + 1442695040888963407ull; x = code( static_cast< std::int64_t >( salt >> 33 ) % 8000 - 4000, kind == 1 ? 1 : kind == 7 ? 2 : 0 ); } return v; };
  auto store = [&]( int t, std::vector< std::int64_t > const & v ) { for ( int k = 0; k < V; ++k ) for ( int i = 0; i < 3; ++i ) m[t][static_cast< std::size_t >( place( in.n, k, i ) )] = v[static_cast< std::size_t >( 3 * k + i )]; };
  for ( int t = 0; t < numTransforms; ++t ) { auto v = values( 0 ); obj->set( t, 0, v, false ); store( t, v ); }
  int sets = 0, others = 0;
  char const * last = "set";
  for ( auto w : c.tail )
  {
    std::uint64_t u = static_cast< std::uint64_t >( w );
    auto take = [&]( std::uint64_t r ) { int const x = static_cast< int >( u % r ); u /= r; return x; };
    int const o = take( numOps ), t = take( numTransforms ), s = take( numTransforms ), kind = take( numKinds ), how = take( 3 );
    int const flat = take( static_cast< std::uint64_t >( 3 * V ) );
    std::int64_t const val = code( take( 8000 ) - 4000 );
    salt ^= static_cast< std::uint64_t >( w );
    switch ( o )
    {
      case 0: case 1: case 2: { auto v = values( kind ); obj->set( t, kind, v, o == 1 ); store( t, v ); ++sets; last = kindName[kind]; break; }
      case 3: obj->write( t, flat, val ); m[t][static_cast< std::size_t >( flat )] = val; ++others; last = "write of an entry"; break;
      case 4: case 5: obj->copy( t, s, how ); m[t] = m[s]; ++others; last = "copy"; break;
      case 7: case 8:   // data that is the same as before but in one entry (or, now and then, in none)
      {
        auto v = values( 0 );
        for ( int k = 0; k < V; ++k ) for ( int i = 0; i < 3; ++i ) v[static_cast< std::size_t >( 3 * k + i )] = m[o == 7 ? t : s][static_cast< std::size_t >( place( in.n, k, i ) )];
        if ( val % 8 != 0 ) v[static_cast< std::size_t >( flat )] = val;
        obj->set( t, kind == 1 || kind == 7 ? 0 : kind, v, o == 7 );
        store( t, v );
        ++sets;
        last = "data that differs in one entry";
        break;
      }
      default: obj->copyAndChange( t, flat, val ); ++others; last = "change of a copy"; break;
    }
    std::string const e = obj->check( m );
    if ( !e.empty() ) Ctx::fail( std::string( "after " ) + last + ": " + e );
  }
  ctx.nt( sets >= 1 && sets + others >= 2 && !( in.n[0] == in.n[1] && in.n[1] == in.n[2] && others == 0 ) );
  ctx.label( sets > 1 ? "data set again" : "data set once" );
}

template< typename R, typename SR, int N0, int N1, int N2 >
struct ObjOf : Obj
{
  using T = TransformOf< R, SR, LagrangeBasis< SR, N0 - 1, EqualSpacing >, LagrangeBasis< SR, N1 - 1, shiva::GaussLobattoSpacing >, LagrangeBasis< SR, N2 - 1, EqualSpacing > >;
  static constexpr int V = N0 * N1 * N2;
  static_assert( std::is_same_v< typename T::RealType, R > && T::numDims == 3 );
  T x[numTransforms];

  template< typename W > static W real( std::int64_t v ) { return decode< W >( v ); }
  struct UserRow { R const * p; bool * bad; R operator[]( int i ) const { if ( i < 0 || i > 2 ) { *bad = true; return R( 0 ); } return p[i]; } };
  struct UserType { R const * p; bool * bad; int * reads; UserRow operator[]( int k ) const { if ( k < 0 || k >= V ) { *bad = true; return { p, bad }; } ++reads[k]; return { p + 3 * k, bad }; } };

  template< typename W >
  void setFromBuiltIn( int t, std::vector< std::int64_t > const & v )
  {
    W a[V][3];
    for ( int k = 0; k < V; ++k ) for ( int i = 0; i < 3; ++i ) a[k][i] = real< W >( v[static_cast< std::size_t >( 3 * k + i )] );
    x[t].setData( a );
    for ( int k = 0; k < V; ++k ) for ( int i = 0; i < 3; ++i ) ok( a[k][i] == real< W >( v[static_cast< std::size_t >( 3 * k + i )] ), "the source is not changed" );
    for ( auto & r : a ) for ( auto & y : r ) y = W( -1 );   // the transform does not refer to its source
  }
  void set( int t, int kind, std::vector< std::int64_t > const & v, bool temporary ) override
  {
    auto at = [&]( int k, int i ) { return real< R >( v[static_cast< std::size_t >( 3 * k + i )] ); };
    switch ( kind )
    {
      case 0: setFromBuiltIn< R >( t, v ); break;
      case 1: setFromBuiltIn< float >( t, v ); break;
      case 7:   // whole numbers, so that the value does not depend on the type
      {
        int a[V][3];
        for ( int k = 0; k < V; ++k ) for ( int i = 0; i < 3; ++i ) a[k][i] = static_cast< int >( v[static_cast< std::size_t >( 3 * k + i )] % 10000 - 4000 );
        x[t].setData( a );
        for ( int k = 0; k < V; ++k ) for ( int i = 0; i < 3; ++i ) ok( a[k][i] == v[static_cast< std::size_t >( 3 * k + i )] % 10000 - 4000, "the source is not changed" );
        auto & d = x[t].getData();
        for ( int f = 0; f < 3 * V; ++f ) d.data()[f] /= 16;
        break;
      }
      case 2:
      {
        std::vector< std::array< R, 3 > > a( V );
        for ( int k = 0; k < V; ++k ) for ( int i = 0; i < 3; ++i ) a[static_cast< std::size_t >( k )][static_cast< std::size_t >( i )] = at( k, i );
        auto const before = a;
        if ( temporary ) x[t].setData( std::vector< std::array< R, 3 > >( a ) ); else x[t].setData( a );
        ok( a == before, "the source is not changed" );
        break;
      }
      case 3: case 8:
      {
        shiva::CArrayNd< R, V, 3 > a{};
        for ( int k = 0; k < V; ++k ) for ( int i = 0; i < 3; ++i ) a( k, i ) = at( k, i );
        shiva::CArrayNd< R, V, 3 > const & ca = a;
        if ( kind == 8 ) x[t].setData( ca ); else x[t].setData( a );
        for ( int k = 0; k < V; ++k ) for ( int i = 0; i < 3; ++i ) ok( a( k, i ) == at( k, i ), "the source is not changed" );
        break;
      }
      case 4:
      {
        R a[V * 3];
        for ( int k = 0; k < V; ++k ) for ( int i = 0; i < 3; ++i ) a[3 * k + i] = at( k, i );
        shiva::CArrayViewNd< R const, V, 3 > const view( a );
        x[t].setData( view );
        break;
      }
      case 5:
      {
        std::vector< R > a( static_cast< std::size_t >( V ) * 3 );
        for ( int k = 0; k < V; ++k ) for ( int i = 0; i < 3; ++i ) a[static_cast< std::size_t >( 3 * k + i )] = at( k, i );
        std::vector< R const * > rows;
        for ( int k = 0; k < V; ++k ) rows.push_back( a.data() + 3 * k );
        R const * const * p = rows.data();
        x[t].setData( p );
        break;
      }
      default:
      {
        std::vector< R > a( static_cast< std::size_t >( V ) * 3 );
        for ( int k = 0; k < V; ++k ) for ( int i = 0; i < 3; ++i ) a[static_cast< std::size_t >( 3 * k + i )] = at( k, i );
        bool bad = false;
        int reads[V] = { 0 };
        x[t].setData( UserType{ a.data(), &bad, reads } );
        ok( !bad, "only entries of the source are read" );
        for ( int r : reads ) ok( r > 0, "each vertex of the source is read" );
        break;
      }
    }
  }
  void write( int t, int flat, std::int64_t v ) override
  {
    int const i = flat % 3, c = flat / 3 % N2, b = flat / 3 / N2 % N1, a = flat / 3 / N2 / N1;
    x[t].getData()( a, b, c, i ) = real< R >( v );
  }
  void copy( int t, int s, int how ) override
  {
    if ( how == 0 ) x[t] = x[s];
    else if ( how == 1 ) { T y( x[s] ); x[t] = y; }
    else { auto d = x[s].getData(); x[t].getData() = d; }
  }
  void copyAndChange( int t, int flat, std::int64_t v ) override
  {
    T y( x[t] );
    int const i = flat % 3, c = flat / 3 % N2, b = flat / 3 / N2 % N1, a = flat / 3 / N2 / N1;
    y.getData()( a, b, c, i ) = real< R >( v ) / 2 + 1;
    auto d = x[t].getData();
    d( a, b, c, i ) = real< R >( v ) / 2 + 2;
    R const zero[V][3] = {};
    T z;
    z.setData( zero );
    z = x[t];
    z.getData()( a, b, c, i ) = real< R >( v ) / 2 + 3;
  }
  std::string check( std::vector< std::vector< std::int64_t > > const & m ) override
  {
    for ( int t = 0; t < numTransforms; ++t )
    {
      T const & ct = x[t];
      if ( &ct.getData() != &x[t].getData() ) return "constant and other access to the data differ";
      for ( int a = 0; a < N0; ++a ) for ( int b = 0; b < N1; ++b ) for ( int c = 0; c < N2; ++c ) for ( int i = 0; i < 3; ++i )
      {
        std::int64_t const want = m[static_cast< std::size_t >( t )][static_cast< std::size_t >( ( ( a * N1 + b ) * N2 + c ) * 3 + i )];
        LD const got = ct.getData()( a, b, c, i );
        if ( got != static_cast< LD >( real< R >( want ) ) ) return "transform " + str( t ) + " has " + fmt( got ) + " at vertex (" + str( a ) + "," + str( b ) + "," + str( c ) + ") component " + str( i ) + ", expected " + fmt( static_cast< LD >( real< R >( want ) ) );
      }
    }
    return "";
  }
  static std::unique_ptr< Obj > make() { return std::unique_ptr< Obj >( new ObjOf() ); }
};

template< typename R, typename SR, int N0, int N1, int N2 >
void inst( char const * name )
{
  using O = ObjOf< R, SR, N0, N1, N2 >;
  static_assert( std::is_same_v< typename O::T::DataType, shiva::CArrayNd< R, N0, N1, N2, 3 > > );
  Inst in{ { N0, N1, N2 }, &O::make };
  Prop p;
  p.name = std::string( "LinearTransform<" ) + name + ">";
  p.tailMin = 1;
  p.tailMax = 7;
  p.tail = { 0, ( std::int64_t( 1 ) << 40 ) - 1 };
  p.run = [in]( Ctx & ctx, Case const & c ) { run( ctx, c, in ); };
  add( p );
}
#define CELL( R, SR, A, B, C ) inst< R, SR, A, B, C >( #R "," #SR "," #A "x" #B "x" #C );
static bool const registered = ( []{ VH_ORDERS }(), true );
