// C03: tensor-product basis functions are products of one-dimensional ones
#include "product_common.hpp"
#include <array>
using namespace vh;

using Values = void ( * )( LD const *, LD * );     // coordinate -> value of each index combination
using Gradients = void ( * )( LD const *, LD * );  // coordinate -> gradient components of each index combination

struct Inst
{
  int dims;
  LD eps;
  LD ( *round )( LD );
  TensorRef ref;
  std::vector< std::pair< char const *, Values > > values;
  std::vector< std::pair< char const *, Gradients > > gradients;
  std::vector< std::pair< char const *, void ( * )( std::vector< std::vector< int > > & ) > > loops;
};

static void run( Ctx & ctx, Case const & c, Inst const & in )
{
  int const D = in.dims, T = in.ref.total();
  std::vector< LD > const t = coordOf( c, 1, 0, in.ref, in.round );
  std::size_t const via = static_cast< std::size_t >( c.i[0] );
  bool distinct = true;
  for ( int d = 1; d < D; ++d ) distinct = distinct && t[d] != t[0];
  ctx.nt( D > 1 && distinct );
  ctx.label( D == 1 ? "1 direction" : D == 2 ? "2 directions" : D == 3 ? "3 directions" : "4 to 6 directions" );

  std::vector< LD > store( static_cast< std::size_t >( T * D ) );
  LD * const out = store.data();
  auto const & v = in.values[via % in.values.size()];
  ctx.label( v.first );
  v.second( t.data(), out );
  LD const tolv = 32 * in.eps * in.ref.points() * in.ref.valueScale( t );
  LD sum = 0;
  for ( int k = 0; k < T; ++k )
  {
    near( std::string( v.first ) + " value of combination " + str( k ), out[k], in.ref.value( in.ref.digits( k ), t ), tolv );
    sum += out[k];
  }
  near( std::string( v.first ) + " sum of values", sum, 1, tolv * T );

  auto const & g = in.gradients[via % in.gradients.size()];
  g.second( t.data(), out );
  for ( int comp = 0; comp < D; ++comp )
  {
    LD const tolg = 32 * in.eps * in.ref.points() * in.ref.gradientScale( t, comp );
    for ( int k = 0; k < T; ++k )
    {
      near( std::string( g.first ) + " gradient component " + str( comp ) + " of combination " + str( k ), out[k * D + comp], in.ref.gradient( in.ref.digits( k ), t, comp ), tolg );
    }
  }

  auto const & l = in.loops[via % in.loops.size()];
  std::vector< std::vector< int > > seen;
  l.second( seen );
  eq( "number of calls of the support loop", static_cast< std::int64_t >( seen.size() ), T );
  for ( int k = 0; k < T; ++k ) ok( seen[static_cast< std::size_t >( k )] == in.ref.digits( k ), std::string( l.first ) + ": index combination of call " + str( k ) );
}

template< typename R, int D, typename C >
struct Fill
{
  C c;
  explicit Fill( LD const * t )
  {
    for ( int d = 0; d < D; ++d )
    {
      if constexpr ( std::is_same_v< C, shiva::CArrayNd< R, D > > ) c( d ) = static_cast< R >( t[d] );
      else c[static_cast< std::size_t >( d )] = static_cast< R >( t[d] );
    }
  }
};

template< typename R, typename P, typename C, int ... N >
struct Call
{
  static constexpr int D = sizeof...( N );
  static constexpr int T = ( N * ... );
  template< int K, int ... I >
  static void val( C const & c, LD * out, std::integer_sequence< int, I... > )
  {
    static_assert( std::is_same_v< decltype( P::template value< digitOf< I, N... >( K ) ... >( c ) ), R > );
    out[K] = P::template value< digitOf< I, N... >( K ) ... >( c );
  }
  template< int K, int ... I >
  static void grad( C const & c, LD * out, std::integer_sequence< int, I... > )
  {
    auto const g = P::template gradient< digitOf< I, N... >( K ) ... >( c );
    for ( int d = 0; d < D; ++d ) out[K * D + d] = g( d );
  }
  static void values( LD const * t, LD * out )
  {
    Fill< R, D, C > f( t );
    staticFor< T >( [&]( auto k ) { val< decltype(k)::value >( f.c, out, std::make_integer_sequence< int, D >{} ); } );
  }
  static void gradients( LD const * t, LD * out )
  {
    Fill< R, D, C > f( t );
    staticFor< T >( [&]( auto k ) { grad< decltype(k)::value >( f.c, out, std::make_integer_sequence< int, D >{} ); } );
  }
};

template< typename P >
void loopOf( std::vector< std::vector< int > > & seen )
{
  P::supportLoop( [&]( auto ... i ) { seen.push_back( { decltype(i)::value ... } ); } );
}

template< typename R, typename ... B >
void inst( char const * name )
{
  constexpr int D = sizeof...( B );
  using BP = shiva::functions::BasisProduct< R, B... >;
  using Shape = shiva::geometry::NCube< R, D, -1, 1, 1 >;
  using IS = shiva::geometry::InterpolatedShape< R, Shape, B... >;
  using PE = shiva::discretizations::finiteElementMethod::ParentElement< R, Shape, B... >;
  static_assert( BP::numDims == D && IS::numDims == D && PE::numDims == D );
  static_assert( std::is_same_v< typename BP::numSupportPoints, std::integer_sequence< int, B::numSupportPoints... > > );
  static_assert( std::is_same_v< typename IS::numSupportPointsSequence, std::integer_sequence< int, B::numSupportPoints... > > );
  static_assert( std::is_same_v< typename BP::IndexType, shiva::MultiIndexRangeI< B::numSupportPoints... > > );
  using A = R[D];
  using S = std::array< R, D >;
  using V = shiva::CArrayNd< R, D >;
  Inst in;
  in.dims = D;
  in.eps = eps< R >();
  in.round = &roundTo< R >;
  ( in.ref.nodes.push_back( nodesOf< B >() ), ... );
  in.values = { { "product, built-in array", &Call< R, BP, A, B::numSupportPoints... >::values },
    { "parent element, built-in array", &Call< R, PE, A, B::numSupportPoints... >::values },
    { "interpolated shape, std::array", &Call< R, IS, S, B::numSupportPoints... >::values },
    { "product, CArray", &Call< R, BP, V, B::numSupportPoints... >::values } };
  in.gradients = { { "product, built-in array", &Call< R, BP, A, B::numSupportPoints... >::gradients },
    { "parent element, CArray", &Call< R, PE, V, B::numSupportPoints... >::gradients },
    { "interpolated shape, built-in array", &Call< R, IS, A, B::numSupportPoints... >::gradients },
    { "parent element, std::array", &Call< R, PE, S, B::numSupportPoints... >::gradients } };
  in.loops = { { "product", &loopOf< BP > }, { "interpolated shape", &loopOf< IS > } };
  int const npts[] = { B::numSupportPoints ... };
  for ( int d = 0; d < D; ++d ) ok( PE::numSupportPoints[d] == npts[d], "support points per direction" );
  Prop p;
  p.name = std::string( "BasisProduct<" ) + rname< R >() + "," + name + ">";
  p.ints = cat( ints( 1, { 0, 3 } ), coordInts( D ) );
  p.reals = coordReals( D );
  p.run = [in]( Ctx & ctx, Case const & c ) { run( ctx, c, in ); };
  add( p );
}

template< typename R >
void all()
{
  using E1 = LagrangeBasis< R, 1, EqualSpacing >;
  using E2 = LagrangeBasis< R, 2, EqualSpacing >;
  using L2 = LagrangeBasis< R, 2, GaussLobattoSpacing >;
  using L3 = LagrangeBasis< R, 3, GaussLobattoSpacing >;
  using G1 = LagrangeBasis< R, 1, GaussLegendreSpacing >;
  using A1 = LagrangeBasis< R, 1, CustomA >;
  using B2 = LagrangeBasis< R, 2, CustomB >;
  using C3 = LagrangeBasis< R, 3, CustomC >;
  inst< R, L3 >( "L3" );
  inst< R, B2 >( "B2" );
  inst< R, E1, E1 >( "E1,E1" );
  inst< R, A1, L3 >( "A1,L3" );
  inst< R, C3, E2 >( "C3,E2" );
  inst< R, E1, E1, E1 >( "E1,E1,E1" );
  inst< R, E2, A1, C3 >( "E2,A1,C3" );
  inst< R, G1, L3, B2 >( "G1,L3,B2" );
  inst< R, L2, L2, L2 >( "L2,L2,L2" );
  inst< R, A1, B2, E1, G1 >( "A1,B2,E1,G1" );
  inst< R, E1, A1, B2, G1, E2 >( "E1,A1,B2,G1,E2" );
  inst< R, G1, E1, A1, E2, E1, A1 >( "G1,E1,A1,E2,E1,A1" );
}
static bool const registered = ( all< VH_REAL >(), true );
