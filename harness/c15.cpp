// C15 (VH_COUNTS) and C16 (measures) of cubes and simplices declared on generated domains.
#include "vh.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"
#include "gen_domains.hpp"   // VH_DOMAINS: CUBE( R, N, MIN, MAX, DIV ) SIMPLEX( ... )
using namespace vh;
namespace g = shiva::geometry;

struct Inst
{
  bool cube;
  int n;
  std::int64_t lo, hi, div;
  LD eps;
  // what the shape says
  int dims, vertices, edges, faces, cells, hyper;
  std::vector< std::int64_t > sub;      ///< per sub-dimension
  LD min, max, length, volume;
  bool fits;                            ///< the volume can be represented
};

// --- counts by enumeration of the geometric object
static std::vector< std::int64_t > enumerate( bool cube, int n )
{
  std::vector< std::int64_t > c( static_cast< std::size_t >( n ) + 1, 0 );
  if ( cube )
  {
    // a face fixes each coordinate at one of two ends or leaves it free
    std::int64_t words = 1;
    for ( int k = 0; k < n; ++k ) words *= 3;
    for ( std::int64_t w = 0; w < words; ++w ) { int free = 0; std::int64_t x = w; for ( int k = 0; k < n; ++k ) { free += x % 3 == 2; x /= 3; } ++c[static_cast< std::size_t >( free )]; }
  }
  else
  {
    // a face is a non-empty set of vertices
    for ( std::int64_t s = 1; s < ( std::int64_t( 1 ) << ( n + 1 ) ); ++s ) ++c[static_cast< std::size_t >( __builtin_popcountll( static_cast< unsigned long long >( s ) ) - 1 )];
  }
  return c;
}

static void runCounts( Ctx & ctx, Case const & c, Inst const & in )
{
  static std::vector< std::int64_t > table[2][16];
  auto & t = table[in.cube][in.n];
  if ( t.empty() ) t = enumerate( in.cube, in.n );
  int const m = static_cast< int >( c.i[0] * ( in.n + 1 ) / 1000 );
  eq( "number of sub-shapes", in.sub[static_cast< std::size_t >( m )], t[static_cast< std::size_t >( m )] );
  std::int64_t euler = 0;
  for ( int k = 0; k <= in.n; ++k ) euler += ( k % 2 ? -1 : 1 ) * in.sub[static_cast< std::size_t >( k )];
  eq( "alternating sum", euler, 1 );
  auto at = [&]( int k ) { return k <= in.n ? t[static_cast< std::size_t >( k )] : 0; };
  switch ( c.i[1] )
  {
    case 0: eq( "vertices", in.vertices, at( 0 ) ); break;
    case 1: eq( "edges", in.edges, at( 1 ) ); break;
    case 2: eq( "faces", in.faces, at( 2 ) ); break;
    case 3: eq( "cells", in.cells, at( 3 ) ); break;
    default: eq( "hyper faces", in.hyper, at( in.n - 1 ) ); break;
  }
  eq( "dimension", in.dims, in.n );
  ctx.nt( in.n > 1 && m > 0 );
  ctx.label( in.cube ? "cube" : "simplex" );
}

static void runMeasures( Ctx & ctx, Case const & c, Inst const & in )
{
  LD const lo = static_cast< LD >( in.lo ) / in.div, hi = static_cast< LD >( in.hi ) / in.div;
  LD const len = static_cast< LD >( in.hi - in.lo ) / in.div;
  eq( "dimension", in.dims, in.n );
  switch ( c.i[0] )
  {
    case 0: near( "minimum", in.min, lo, 4 * in.eps * absl( lo ) ); break;
    case 1: near( "maximum", in.max, hi, 4 * in.eps * absl( hi ) ); break;
    case 2: near( "length", in.length, len, 4 * in.eps * len ); near( "length and bounds", in.length, in.max - in.min, 8 * in.eps * maxl( absl( lo ), absl( hi ) ) + 4 * in.eps * len ); break;
    default:
    {
      LD v = 1;
      for ( int k = 1; k <= in.n; ++k ) v *= in.cube ? len : len / k;
      near( "volume", in.volume, v, 6 * in.eps * in.n * v );
      if ( in.n == 1 ) near( "volume in one dimension", in.volume, in.length, 2 * in.eps * len );
      break;
    }
  }
  ctx.nt( in.div != 1 && in.lo != 0 && in.n > 1 );
  ctx.label( in.cube ? "cube" : "simplex" );
  if ( in.hi - in.lo > 2147483647 ) ctx.label( "extent beyond an int" );
}

template< typename S, bool CUBE, int ... M >
std::vector< std::int64_t > subs( std::integer_sequence< int, M... > )
{
  if constexpr ( CUBE ) return { S::template numMCubes< M >() ... };
  else return { S::template numMSimplexes< M >() ... };
}

template< bool CUBE, typename S, typename R, int N >
void inst( char const * name, std::int64_t lo, std::int64_t hi, std::int64_t div )
{
  static_assert( std::is_same_v< typename S::RealType, R > );
  static_assert( std::is_same_v< typename S::CoordType, R[N] > );
  static_assert( std::is_same_v< decltype( S::minCoord() ), R > && std::is_same_v< decltype( S::length() ), R > );
  Inst in{};
  in.cube = CUBE;
  in.n = N;
  in.lo = lo; in.hi = hi; in.div = div;
  in.eps = eps< R >();
  in.dims = S::numDims();
  Prop p;
  p.name = name;
#ifdef VH_COUNTS
  in.vertices = S::numVertices(); in.edges = S::numEdges(); in.faces = S::numFaces(); in.cells = S::numCells(); in.hyper = S::numHyperFaces();
  in.sub = subs< S, CUBE >( std::make_integer_sequence< int, N + 1 >{} );
  p.ints = { { 0, 999 }, { 0, 4 } };
  p.run = [in]( Ctx & ctx, Case const & c ) { runCounts( ctx, c, in ); };
#else
  in.min = S::minCoord(); in.max = S::maxCoord(); in.length = S::length(); in.volume = S::volume();
  p.ints = { { 0, 3 } };
  p.run = [in]( Ctx & ctx, Case const & c ) { runMeasures( ctx, c, in ); };
#endif
  add( p );
}
#define CUBE( R, N, MIN, MAX, DIV ) inst< true, g::NCube< R, N, MIN, MAX, DIV >, R, N >( "NCube<" #R "," #N "," #MIN "," #MAX "," #DIV ">", MIN, MAX, DIV );
#define SIMPLEX( R, N, MIN, MAX, DIV ) inst< false, g::NSimplex< R, N, MIN, MAX, DIV >, R, N >( "NSimplex<" #R "," #N "," #MIN "," #MAX "," #DIV ">", MIN, MAX, DIV );
static bool const registered = ( []
{
  VH_DOMAINS
#if VH_PART == 0
  inst< true, g::Square< double >, double, 2 >( "Square<double>", -1, 1, 1 );
  inst< true, g::Square< float >, float, 2 >( "Square<float>", -1, 1, 1 );
  inst< true, g::Cube< double >, double, 3 >( "Cube<double>", -1, 1, 1 );
  inst< true, g::Cube< float >, float, 3 >( "Cube<float>", -1, 1, 1 );
  inst< false, g::Triangle< double >, double, 2 >( "Triangle<double>", 0, 1, 1 );
  inst< false, g::Triangle< float >, float, 2 >( "Triangle<float>", 0, 1, 1 );
  inst< false, g::Tetrahedron< double >, double, 3 >( "Tetrahedron<double>", 0, 1, 1 );
  inst< false, g::Tetrahedron< float >, float, 3 >( "Tetrahedron<float>", 0, 1, 1 );
#endif
}(), true );
