"""The planted bugs, as edits of /repo with a demonstration each."""
SEEDS = []


def S(id, property, needs, breaks, edits, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, **k))


C = "include/shiva/common/"
F = "include/shiva/functions/"
G = "include/shiva/geometry/"

S("slice-stride-rank4", "C08", "slicing (chained brackets) an array of four or more dimensions",
  "A slice of a four-dimensional array is taken with the stride of a three-dimensional one, so chained brackets address another element than the call syntax.",
  [(C + "CArrayHelper.hpp", """stride()
{
  return strideHelper< DIMS ..., 1 >();
}""", """stride()
{
  constexpr int dims[] = { DIMS ..., 1 };
  // ranks above three do not occur in practice
  int rval = 1;
  for ( int i = 0; i < 3 && i < static_cast< int >( sizeof...( DIMS ) ); ++i )
  {
    rval *= dims[i];
  }
  return rval;
}""")],
  flags="-std=c++17 -O1", demo_cpp=r'''
#include "shiva/common/CArray.hpp"
#include <cstdio>
template< typename A > int test()
{ return 0; }
int main()
{
  static shiva::CArrayNd< int, 2, 3, 2, 4 > a4{};
  static shiva::CArrayNd< int, 2, 2, 3, 2, 4 > a{};
  int bad = 0;
  for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) for ( int k = 0; k < 3; ++k ) for ( int l = 0; l < 2; ++l ) for ( int m = 0; m < 4; ++m )
        bad += &a( i, j, k, l, m ) != &a[i][j][k][l][m];
  for ( int i = 0; i < 2; ++i ) for ( int k = 0; k < 3; ++k ) for ( int l = 0; l < 2; ++l ) for ( int m = 0; m < 4; ++m )
        bad += &a4( i, k, l, m ) != &a4[i][k][l][m];
  printf( "%d differ\n", bad );
  return bad != 0;
}
''')

S("bounds-wide-index", "C09", "a 64-bit index whose low 32 bits are in range",
  "The bounds check looks at the index after it was narrowed to int, so that 2^32 + k passes as k.",
  [(C + "CArrayHelper.hpp", """    SHIVA_ASSERT_MSG( index >= 0 && index < DIM,
                      "Index out of bounds: 0 < index(%jd) < dim(%jd)",
                      static_cast< intmax_t >( index ),
                      static_cast< intmax_t >( DIM ) );""", """    int const checkedIndex = static_cast< int >( index );
    SHIVA_ASSERT_MSG( checkedIndex >= 0 && checkedIndex < DIM,
                      "Index out of bounds: 0 < index(%jd) < dim(%jd)",
                      static_cast< intmax_t >( checkedIndex ),
                      static_cast< intmax_t >( DIM ) );""")],
  demo_cpp=r'''
#include "shiva/common/CArray.hpp"
#include <csignal>
#include <cstdlib>
#include <cstdio>
void handler( int ) { _Exit( 0 ); }
int main()
{
  std::signal( SIGABRT, handler );
  shiva::CArrayNd< int, 3, 4 > a{};
  long long const i = ( 1LL << 32 ) + 2;
  a( i, 1 ) = 5;
  printf( "access out of range was not stopped\n" );
  return 1;
}
''')

S("bounds-short-index", "C09", "an index of 65536 or more, or below -1, whose low 16 bits are in range",
  "The bounds check converts the index to unsigned short first, so that 65536 + k passes as k and addresses memory far outside.",
  [(C + "CArrayHelper.hpp", """    SHIVA_ASSERT_MSG( index >= 0 && index < DIM,
                      "Index out of bounds: 0 < index(%jd) < dim(%jd)",
                      static_cast< intmax_t >( index ),
                      static_cast< intmax_t >( DIM ) );
#endif
    constexpr int thisStride = strideHelper< DIMS ..., 1 >();
    if constexpr ( sizeof ... ( DIMS ) == 0 )
    {
      return index * thisStride;
    }
    else
    {
      return index * thisStride +""", """    // the unsigned comparison covers negative indices as well
    SHIVA_ASSERT_MSG( static_cast< unsigned short >( index ) < DIM,
                      "Index out of bounds: 0 < index(%jd) < dim(%jd)",
                      static_cast< intmax_t >( index ),
                      static_cast< intmax_t >( DIM ) );
#endif
    constexpr int thisStride = strideHelper< DIMS ..., 1 >();
    if constexpr ( sizeof ... ( DIMS ) == 0 )
    {
      return index * thisStride;
    }
    else
    {
      return index * thisStride +""")],
  demo_cpp=r'''
#include "shiva/common/CArray.hpp"
#include <csignal>
#include <cstdlib>
#include <cstdio>
void handler( int ) { _Exit( 0 ); }
int main()
{
  std::signal( SIGABRT, handler );
  shiva::CArrayNd< int, 3, 4 > a{};
  volatile int i = 65536 + 2;
  volatile auto * p = &a( 0, i );
  printf( "access out of range was not stopped %p\n", (void*)p );
  return 1;
}
''')

S("linear-index-int-accumulator", "C11", "a multi-index of a 64-bit base type whose linear index does not fit 32 bits",
  "The linear index is accumulated in an int, so that those beyond 2^31 are wrong.",
  [(C + "IndexTypes.hpp", "  return (  ( index.data[INDICES] * stride< INDICES >( index ) ) + ... );",
    "  auto rval = 0;\n  ( ( rval += static_cast< int >( index.data[INDICES] * stride< INDICES >( index ) ) ), ... );\n  return rval;")],
  demo_cpp=r'''
#include "shiva/common/IndexTypes.hpp"
#include <cstdio>
int main()
{
  shiva::MultiIndexRange< long long, 100000, 100000, 3 > m;
  m.data[0] = 99999; m.data[1] = 99998; m.data[2] = 2;
  long long const expected = ( 99999LL * 100000 + 99998 ) * 3 + 2;
  printf( "%lld %lld\n", (long long) linearIndex( m ), expected );
  return linearIndex( m ) != expected;
}
''')

S("range-loop-empty-start", "C12", "a loop started at the end of a direction that is not empty",
  "The innermost loop runs its body before it compares with the range: started at the range it calls the function out of range.",
  [(C + "IndexTypes.hpp", """    for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
    {
      func( index );
    }""", """    a = start.data[DIM];
    do
    {
      func( index );
      ++a;
    }
    while ( a < index.range( DIM ) );""")],
  demo_cpp=r'''
#include "shiva/common/IndexTypes.hpp"
#include <cstdio>
int main()
{
  shiva::MultiIndexRangeI< 2, 3 > m;
  m.data[1] = 3;
  int calls = 0, outside = 0;
  shiva::forRange( m, [&]( auto const & i ) { ++calls; outside += i.data[1] >= 3; } );
  printf( "%d calls, %d outside\n", calls, outside );
  return calls != 0;
}
''')

S("static-for-copies-body", "C13", "a body with state of its own that takes the index as template parameter",
  "The body that takes the index as template parameter is copied for each call: what it records in itself is lost.",
  [(C + "SequenceUtilities.hpp", "      return (func.template operator()< DIMENSION_INDICES >(), ...);",
    "      auto body = func;\n      return (body.template operator()< DIMENSION_INDICES >(), ...);")],
  demo_cpp=r'''
#include "shiva/common/SequenceUtilities.hpp"
#include <cstdio>
struct Body
{
  int calls = 0, sum = 0;
  template< int I > void operator()() { ++calls; sum = 10 * sum + I; }
};
int main()
{
  Body b;
  shiva::forSequence< 4 >( b );
  printf( "%d calls, order %d\n", b.calls, b.sum );
  return b.calls != 4 || b.sum != 123;
}
''')

S("execute-drops-forward", "C14", "a further argument that is an rvalue, with a body that takes the indices as template parameters",
  "Further arguments reach a body with template indices as lvalues instead of as they were passed.",
  [(C + "SequenceUtilities.hpp", "return func.template operator()< DIMENSION_INDICES... >(std::forward< ARGS >( args )...);",
    "return func.template operator()< DIMENSION_INDICES... >( args ... );")],
  flags="-std=c++20 -O1", demo_cpp=r'''
#include "shiva/common/SequenceUtilities.hpp"
#include <cstdio>
struct Body
{
  template< int ... I > int operator()( int & ) { return 1; }
  template< int ... I > int operator()( int && ) { return 2; }
};
int main()
{
  int v = 3;
  int const l = shiva::executeSequence< 3 >( Body{}, v );
  int const r = shiva::executeSequence< 3 >( Body{}, static_cast< int && >( v ) );
  printf( "%d %d\n", l, r );
  return l != 1 || r != 2;
}
''')

S("lagrange-clamped", "C01", "a coordinate outside the reference interval",
  "The coordinate is clamped to the reference interval, so that the basis does not extrapolate its polynomial.",
  [(F + "bases/LagrangeBasis.hpp", """      return ( coord - coordinate_FI ) * denom;""",
    """      // round off may put the coordinate slightly outside of the parent space
      REAL_TYPE const clamped = coord < -1 ? -1 : ( coord > 1 ? 1 : coord );
      return ( clamped - coordinate_FI ) * denom;""")],
  demo_cpp=r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cstdio>
int main()
{
  using B = shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing >;
  double const v = B::value< 1 >( 3.0 );
  printf( "%g\n", v );
  return v != 2.0;
}
''')

S("gradient-log-derivative", "C02", "a coordinate close to but not at a support point",
  "The gradient divides the value by each term; terms close to zero are taken as zero and their share, which is not small, is dropped.",
  [(F + "bases/LagrangeBasis.hpp", """        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< decltype(b)::value, aVal >( values ) * ... );""",
    """        REAL_TYPE const term = values[ aVal ];
        // at a support point the term itself is zero, so multiply out
        if ( term == 0 || term * term > static_cast< REAL_TYPE >( 1e-20 ) )
        {
          return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< decltype(b)::value, aVal >( values ) * ... );
        }
        return static_cast< REAL_TYPE >( 0 );""")],
  demo_cpp=r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cstdio>
#include <cmath>
int main()
{
  using B = shiva::functions::LagrangeBasis< double, 2, shiva::GaussLobattoSpacing >;
  double const x = 1e-12;
  double const g = B::gradient< 2 >( x );
  printf( "%g\n", g );
  return std::fabs( g - 0.5 ) > 1e-9;
}
''')

S("tensor-gradient-cxx20-direction", "C03", "C++20 and a basis that differs between the directions",
  "In C++20 component d of the gradient is computed for the opposite direction.",
  [(F + "bases/BasisProduct.hpp", "      return { (executeSequence< numDims >( gradientComponent, std::integral_constant< int, i >{} ) )...  };",
    "      return { (executeSequence< numDims >( gradientComponent, std::integral_constant< int, numDims - 1 - i >{} ) )...  };")],
  flags="-std=c++20 -O1", demo_cpp=r'''
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cstdio>
#include <cmath>
int main()
{
  using B1 = shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing >;
  using B2 = shiva::functions::LagrangeBasis< double, 2, shiva::EqualSpacing >;
  using P = shiva::functions::BasisProduct< double, B1, B2 >;
  double const x[2] = { 0.25, -0.4 };
  auto const g = P::gradient< 0, 1 >( x );
  double const e0 = B1::gradient< 0 >( x[0] ) * B2::value< 1 >( x[1] );
  double const e1 = B1::value< 0 >( x[0] ) * B2::gradient< 1 >( x[1] );
  printf( "%g %g, %g %g\n", g( 0 ), e0, g( 1 ), e1 );
  return std::fabs( g( 0 ) - e0 ) > 1e-12 || std::fabs( g( 1 ) - e1 ) > 1e-12;
}
''')

S("interpolation-skips-small", "C04", "nodal values that are small in absolute terms",
  "Nodal values below a fixed threshold are skipped, so that the interpolated gradient of a small field is zero: it is not linear in the nodal values.",
  [("include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp",
    """        rval( a ) = rval( a ) + grad( a ) * var( decltype(ic_indices)::value ... );""",
    """        REAL_TYPE const nodal = var( decltype(ic_indices)::value ... );
        // nothing to add for a node without a value
        rval( a ) = nodal * nodal < 1e-24 ? rval( a ) : rval( a ) + grad( a ) * nodal;""")],
  demo_cpp=r'''
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include <cstdio>
using namespace shiva;
int main()
{
  using B = functions::LagrangeBasis< double, 1, GaussLobattoSpacing >;
  using PE = discretizations::finiteElementMethod::ParentElement< double, geometry::Square< double >, B, B >;
  CArrayNd< double, 2, 2 > v{ -1e-15, -1e-15, 1e-15, 1e-15 };
  double const x[2] = { 0.1, 0.2 };
  auto const g = PE::gradient( x, v );
  printf( "%g\n", g( 0 ) );
  return !( g( 0 ) > 0.99e-15 && g( 0 ) < 1.01e-15 );
}
''')

S("lobatto8-coordinate-digits", "C05", "the Gauss-Lobatto spacing of eight points",
  "Two digits of a tabulated coordinate are swapped, on both sides: the points are no longer the roots of the rule.",
  [(F + "spacing/Spacing.hpp", "return -0.59170018143314;", "return -0.59170018134314;"),
   (F + "spacing/Spacing.hpp", "return 0.59170018143314;", "return 0.59170018134314;")],
  demo_cpp=r"""
#include "shiva/functions/spacing/Spacing.hpp"
#include <cmath>
#include <cstdio>
int main()
{
  double const x = shiva::GaussLobattoSpacing< double, 8 >::coordinate< 5 >();
  printf( "%.15f\n", x );
  return std::fabs( x - 0.591700181433142302 ) > 1e-13;
}
""")

S("lobatto9-weight-pairs", "C06", "the Gauss-Lobatto rule of nine points and a polynomial that is not constant",
  "Two pairs of weights are changed so that they stay positive and symmetric and sum to two, but integrate no higher polynomial exactly.",
  [(F + "quadrature/Quadrature.hpp", "return 0.16549536156081;", "return 0.16549536165081;"),
   (F + "quadrature/Quadrature.hpp", "return 0.27453871250016;", "return 0.27453871241016;")], count=2,
  demo_cpp=r"""
#include "shiva/functions/quadrature/Quadrature.hpp"
#include <cmath>
#include <cstdio>
template< typename Q, int ... I > double integrate( std::integer_sequence< int, I... > )
{
  return ( ( Q::template weight< I >() * Q::template coordinate< I >() * Q::template coordinate< I >() ) + ... );
}
int main()
{
  using Q = shiva::QuadratureGaussLobatto< double, 9 >;
  double const v = integrate< Q >( std::make_integer_sequence< int, 9 >{} );
  printf( "%.15f\n", v );
  return std::fabs( v - 2.0 / 3 ) > 1e-12;
}
""")

S("pow-runtime-double", "C07", "a run time power of a 64-bit integer beyond 2^53",
  "At run time powers go through floating point, so that large integers lose digits that compile time evaluation keeps.",
  [(C + "MathUtilities.hpp", """#include <utility>

namespace shiva""", """#include <utility>
#include <cmath>

namespace shiva"""),
   (C + "MathUtilities.hpp", """  T result = 1;
  for (""", """  if ( !SHIVA_IS_CONST_EVAL() )
  {
    return static_cast< T >( std::pow( static_cast< double >( base ), EXPONENT ) );
  }
  T result = 1;
  for ("""), (C + "MathUtilities.hpp", "    result *= base;", "    result = result * base;")],
  demo_cpp=r"""
#include "shiva/common/MathUtilities.hpp"
#include <cstdio>
int main()
{
  volatile long long b = 7;
  constexpr long long c = shiva::mathUtilities::pow< long long, 22 >( 7 );
  long long const r = shiva::mathUtilities::pow< long long, 22 >( b );
  printf( "%lld %lld\n", c, r );
  return c != r;
}
""")

S("pow-squares-once-more", "C30", "an integer power whose value fits but whose next square does not",
  "Powers by squaring compute a last square that is not used; it overflows a signed integer for valid powers.",
  [(C + "MathUtilities.hpp", """  for ( int i = 0; i < EXPONENT; ++i )
  {
    result *= base;
  }""", """  T square = base;
  for ( int e = EXPONENT; e > 0; e /= 2 )
  {
    if ( e % 2 )
    {
      result *= square;
    }
    square *= square;
  }""")],
  flags="-std=c++17 -O0 -fsanitize=undefined -fno-sanitize-recover=all", demo_cpp=r"""
#include "shiva/common/MathUtilities.hpp"
#include <cstdio>
int main()
{
  volatile int b = 40000;
  printf( "%d\n", shiva::mathUtilities::pow< int, 2 >( b ) );
  return 0;
}
""")

S("binomial-single-precision", "C17", "factorials that a float does not hold exactly",
  "Binomial coefficients are formed in single precision: larger ones are rounded.",
  [(C + "MathUtilities.hpp", "  static constexpr T value = factorial< T, N >::value / ( factorial< T, K >::value * factorial< T, N - K >::value );",
    """  // in floating point the product in the denominator can not overflow
  static constexpr T value = static_cast< T >( static_cast< float >( factorial< T, N >::value ) /
                                               ( static_cast< float >( factorial< T, K >::value ) * static_cast< float >( factorial< T, N - K >::value ) ) );""")],
  demo_cpp=r"""
#include "shiva/common/MathUtilities.hpp"
#include <cstdio>
template< int N, int K > long long pascal()
{
  if constexpr ( K == 0 || K == N ) return 1;
  else return pascal< N - 1, K - 1 >() + pascal< N - 1, K >();
}
template< int N, int ... K > int row( std::integer_sequence< int, K... > )
{
  return ( ( shiva::mathUtilities::binomialCoefficient< long long, N, K >::value != pascal< N, K >() ) + ... );
}
int main()
{
  int const bad = row< 12 >( std::make_integer_sequence< int, 13 >{} ) + row< 14 >( std::make_integer_sequence< int, 15 >{} ) +
                  row< 16 >( std::make_integer_sequence< int, 17 >{} ) + row< 18 >( std::make_integer_sequence< int, 19 >{} );
  printf( "%d\n", bad );
  return bad != 0;
}
""")

S("simplex-edges-formula", "C15", "a simplex of more than four dimensions",
  "The number of faces comes from a formula that holds only up to four dimensions.",
  [(G + "shapes/NSimplex.hpp", """    if constexpr ( N > 1 )
    {
      return numMSimplexes< 2 >();""", """    if constexpr ( N > 1 )
    {
      // 1, 4, 10, ...: each further vertex adds a face with each edge
      return N == 2 ? 1 : ( N == 3 ? 4 : ( N == 4 ? 10 : 10 * ( N - 3 ) ) );""")],
  demo_cpp=r"""
#include "shiva/geometry/shapes/NSimplex.hpp"
#include <cstdio>
int main()
{
  using S = shiva::geometry::NSimplex< double, 6, 0, 1, 1 >;
  printf( "%d\n", S::numFaces() );
  return S::numFaces() != 35;
}
""")

S("cube-bound-float-divisor", "C16", "a bound that single precision does not hold",
  "The maximum is divided in single precision.",
  [(G + "shapes/NCube.hpp", "    return static_cast< RealType >(MAX) / DIVISOR;", "    return static_cast< float >( MAX ) / DIVISOR;")],
  demo_cpp=r"""
#include "shiva/geometry/shapes/NCube.hpp"
#include <cstdio>
int main()
{
  double const v = shiva::geometry::NCube< double, 2, -3, 1, 3 >::maxCoord();
  printf( "%.17g\n", v );
  return v != 1.0 / 3;
}
""")

S("inverse-absolute-singularity", "C18", "an array object holding an invertible matrix with a small determinant",
  "Array objects whose determinant is small in absolute terms are taken as singular and the result is zero.",
  [(C + "MathUtilities.hpp", """        srcMatrix20 * matrix( 0, 2 );
  REAL_TYPE const invDet = REAL_TYPE( 1 ) / det;""", """        srcMatrix20 * matrix( 0, 2 );
  REAL_TYPE const invDet = det * det < REAL_TYPE( 1e-36 ) ? REAL_TYPE( 0 ) : REAL_TYPE( 1 ) / det;""")],
  demo_cpp=r"""
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/CArray.hpp"
#include <cmath>
#include <cstdio>
int main()
{
  shiva::CArrayNd< double, 3, 3 > m{ 1e-7, 0., 0., 0., 1e-7, 0., 0., 0., 1e-7 };
  double det = 0;
  shiva::mathUtilities::inverse( m, det );
  printf( "%g\n", m( 1, 1 ) );
  return std::fabs( m( 1, 1 ) - 1e7 ) > 1;
}
""")

S("setdata-skips-known", "C19", "setting data a second time with the same first vertex",
  "Setting data returns early when the first vertex is the one that is stored, whatever the others are.",
  [(G + "mapping/LinearTransform.hpp", """    SupportIndexType index;
    forRange(""", """    // nothing to do if the data was already set
    SupportIndexType index;
    bool known = m_vertexCoords( 0, 0, 0, 0 ) != 0;
    for ( int i = 0; i < numDims; ++i )
    {
      known = known && m_vertexCoords( 0, 0, 0, i ) == coords[0][i];
    }
    if ( known )
    {
      return;
    }
    forRange("""), (G + "mapping/LinearTransform.hpp", "      int const c = aa.data[2];\n", "      int const c = aa.data[ 2 ];\n")],
  demo_cpp=r"""
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cstdio>
using namespace shiva;
int main()
{
  using B = functions::LagrangeBasis< double, 1, GaussLobattoSpacing >;
  using T = geometry::LinearTransform< double, geometry::InterpolatedShape< double, geometry::Cube< double >, B, B, B > >;
  double c[8][3];
  for ( int i = 0; i < 8; ++i ) for ( int j = 0; j < 3; ++j ) c[i][j] = 1 + 3 * i + j;
  T t{};
  t.setData( c );
  c[7][2] = 100;
  t.setData( c );
  printf( "%g\n", t.getData()( 1, 1, 1, 2 ) );
  return t.getData()( 1, 1, 1, 2 ) != 100;
}
""")

S("jacobian-snaps-vertices", "C20", "vertices with coordinates below 1e-10",
  "Vertex coordinates that are small in absolute terms count as zero in the Jacobian of a quadrature point, so that small cells have none.",
  [(G + "mapping/LinearTransform.hpp", """    #if 1
    forNestedSequence< DIMS, DIMS >( [&] ( auto const ici, auto const icj ) constexpr
    {
      constexpr int i = decltype(ici)::value;
      constexpr int j = decltype(icj)::value;
      J( j, i ) = J( j, i ) + dNadXi( i ) * nodeCoords( decltype(ic_spIndices)::value ..., j );""",
    """    #if 1
    forNestedSequence< DIMS, DIMS >( [&] ( auto const ici, auto const icj ) constexpr
    {
      constexpr int i = decltype(ici)::value;
      constexpr int j = decltype(icj)::value;
      REAL_TYPE const x = nodeCoords( decltype(ic_spIndices)::value ..., j );
      J( j, i ) = x * x < REAL_TYPE( 1e-20 ) ? J( j, i ) : J( j, i ) + dNadXi( i ) * x;""")],
  demo_cpp=r"""
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include <cstdio>
#include <cmath>
using namespace shiva;
int main()
{
  using B = functions::LagrangeBasis< double, 1, GaussLobattoSpacing >;
  using T = geometry::LinearTransform< double, geometry::InterpolatedShape< double, geometry::Cube< double >, B, B, B > >;
  double c[8][3];
  for ( int i = 0; i < 8; ++i ) { c[i][0] = ( i & 1 ) * 1e-11; c[i][1] = ( i >> 1 & 1 ) * 1e-11; c[i][2] = ( i >> 2 ) * 1e-11; }
  T t{};
  t.setData( c );
  T::JacobianType J{};
  geometry::utilities::jacobian< QuadratureGaussLegendre< double, 2 >, 0, 1, 0 >( t, J );
  printf( "%g\n", J( 0, 0 ) );
  return std::fabs( J( 0, 0 ) - 0.5e-11 ) > 1e-15;
}
""")

S("inverse-jacobian-absolute-det", "C21", "a mapping that reverses the orientation of the cell",
  "The determinant that comes with the inverse Jacobian is its absolute value, not the determinant of the Jacobian that is returned at the same place.",
  [(G + "mapping/LinearTransform.hpp", "  mathUtilities::inverse( invJ, detJ );", "  mathUtilities::inverse( invJ, detJ );\n  detJ = detJ < 0 ? -detJ : detJ;"),
   (G + "mapping/LinearTransform.hpp", "  jacobian( transform, parentCoords, invJ );", "  utilities::jacobian( transform, parentCoords, invJ );")],
  demo_cpp=r"""
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cstdio>
using namespace shiva;
int main()
{
  using B = functions::LagrangeBasis< double, 1, GaussLobattoSpacing >;
  using T = geometry::LinearTransform< double, geometry::InterpolatedShape< double, geometry::Cube< double >, B, B, B > >;
  double c[8][3];
  for ( int i = 0; i < 8; ++i ) { c[i][0] = -2. * ( i & 1 ); c[i][1] = 2. * ( i >> 1 & 1 ); c[i][2] = 2. * ( i >> 2 ); }
  T t{};
  t.setData( c );
  T::JacobianType invJ{};
  double det = 0;
  double const x[3] = { 0.1, 0.2, 0.3 };
  geometry::utilities::inverseJacobian( t, x, invJ, det );
  printf( "%g\n", det );
  return det > 0;
}
""")

S("scaling-reference-cached", "C22", "lengths of a scaling below a fixed size",
  "Lengths below a fixed size are replaced by that size to guard a division.",
  [(G + "mapping/Scaling.hpp", "    m_length[1] = h[1];", "    m_length[1] = h[1] > 0 && h[1] < REAL_TYPE( 1e-12 ) ? REAL_TYPE( 1e-12 ) : h[1];")],
  demo_cpp=r"""
#include "shiva/geometry/mapping/Scaling.hpp"
#include <cstdio>
int main()
{
  shiva::geometry::Scaling< double > s;
  double const h[3] = { 1e-15, 1e-15, 1e-15 };
  s.setData( h );
  printf( "%g\n", s.getData()[1] );
  return s.getData()[1] != 1e-15;
}
""")

S("parallelepiped-without-last-vertex", "C23", "a cell of eight vertices in which only the last one makes it no parallelepiped",
  "Cells that seem to be parallelepipeds get the Jacobian of their first vertex, but the vertex opposite to it is not looked at: the determinant does not integrate to the volume.",
  [(G + "mapping/LinearTransform.hpp", """  jacobian( transform, parentCoords, invJ );
  mathUtilities::inverse( invJ, detJ );""", """  using Transform = LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE >;
  if constexpr ( Transform::numVertices == 8 )
  {
    auto const & x = transform.getData();
    bool parallelepiped = true;
    for ( int i = 0; i < 3; ++i )
    {
      parallelepiped = parallelepiped &&
                       x( 1, 1, 0, i ) - x( 1, 0, 0, i ) == x( 0, 1, 0, i ) - x( 0, 0, 0, i ) &&
                       x( 1, 0, 1, i ) - x( 1, 0, 0, i ) == x( 0, 0, 1, i ) - x( 0, 0, 0, i ) &&
                       x( 0, 1, 1, i ) - x( 0, 1, 0, i ) == x( 0, 0, 1, i ) - x( 0, 0, 0, i );
    }
    if ( parallelepiped )
    {
      REAL_TYPE const corner[3] = { -1, -1, -1 };
      jacobian( transform, corner, invJ );
      mathUtilities::inverse( invJ, detJ );
      return;
    }
  }
  jacobian( transform, parentCoords, invJ );
  mathUtilities::inverse( invJ , detJ );""")],
  demo_cpp=r"""
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cstdio>
#include <cmath>
using namespace shiva;
int main()
{
  using B = functions::LagrangeBasis< double, 1, GaussLobattoSpacing >;
  using T = geometry::LinearTransform< double, geometry::InterpolatedShape< double, geometry::Cube< double >, B, B, B > >;
  double c[8][3];
  for ( int i = 0; i < 8; ++i ) { c[i][0] = i & 1; c[i][1] = i >> 1 & 1; c[i][2] = i >> 2; }
  c[7][2] = 1.5;
  T t{};
  t.setData( c );
  double vol = 0;
  for ( int q = 0; q < 8; ++q )
  {
    double const p = std::sqrt( 1. / 3 ), x[3] = { q & 1 ? p : -p, q & 2 ? p : -p, q & 4 ? p : -p };
    T::JacobianType J{};
    double det = 0;
    geometry::utilities::inverseJacobian( t, x, J, det );
    vol += det;
  }
  printf( "%.15g\n", vol );
  return std::fabs( vol - 1.125 ) > 1e-12;
}
""")

S("math-without-utility", "C24", "a program that includes the header of the mathematical functions first",
  "The header of the mathematical functions lacks an include, so that it compiles only behind other headers.",
  [(C + "MathUtilities.hpp", "#include <utility>\n", "")],
  demo_sh=r"""
printf '#include "shiva/common/MathUtilities.hpp"\nint main() { return shiva::mathUtilities::pow< int, 2 >( 2 ) - 4; }\n' > "$T/a.cpp"
g++ -std=c++17 -I include -I _build/shiva/include "$T/a.cpp" -o "$T/a" && "$T/a"
""")

S("assert-truncates", "C26", "an assertion message of more than 255 characters",
  "The message is formatted in a buffer of fixed size and cut off there.",
  [(C + "ShivaErrorHandling.hpp", "  vfprintf( stderr, fmt, args );", "  char message[ 256 ];\n  vsnprintf( message, sizeof( message ), fmt, args );\n  fputs( message, stderr );")],
  demo_sh=r"""
cat > "$T/a.cpp" <<'X'
#include "shiva/common/ShivaErrorHandling.hpp"
#include <string>
int main()
{
  std::string const s( 300, 'x' );
  shivaAssertionFailed( "file", 3, false, "%sEND", s.c_str() );
  return 0;
}
X
g++ -std=c++17 -I include -I _build/shiva/include "$T/a.cpp" -o "$T/a" || exit 1
"$T/a" 2>&1 | grep -q xEND
""")

S("aggregate-include-path-first", "C27", "two headers of the same name, one beside the header that includes it and one below an include path",
  "The include paths are searched before the folder of the including header, so that another file than the compiler's is aggregated.",
  [("scripts/aggregateOrSplit.py", """        same_dir_path = os.path.join(base_path, included_file)
        if os.path.exists(same_dir_path):
            return os.path.normpath(same_dir_path)

        # 2. Check using the relative path
""", """        for include_path in include_paths:
            candidate_path = os.path.normpath(os.path.join(include_path, included_file))
            if os.path.exists(candidate_path):
                return candidate_path

        # 2. Check using the relative path
""")],
  demo_sh=r"""
mkdir -p "$T/p/inc" "$T/p/sub"
printf '#pragma once\nconstexpr int v = 1;\n' > "$T/p/sub/a.hpp"
printf '#pragma once\nconstexpr int v = 2;\n' > "$T/p/inc/a.hpp"
printf '#pragma once\n#include "a.hpp"\n' > "$T/p/sub/b.hpp"
python3 scripts/aggregateOrSplit.py aggregate "$T/p/sub/b.hpp" "$T/out.hpp" --include-paths "$T/p/inc" > /dev/null || exit 1
printf '#include "out.hpp"\nint main() { return v != 1; }\n' > "$T/a.cpp"
g++ -std=c++17 "$T/a.cpp" -o "$T/a" && "$T/a"
""")

S("split-strips-space", "C28", "a header with white space at the end of a line",
  "Splitting removes white space at the ends of lines, which is part of the contents.",
  [("scripts/aggregateOrSplit.py", "                    output.write(line)\n\n        if output:", "                    output.write(line.rstrip() + \"\\n\")\n\n        if output:")],
  demo_sh=r"""
mkdir -p "$T/p"
printf '#pragma once\nint  a;  \n\tint b;\t\n' > "$T/p/a.hpp"
python3 scripts/aggregateOrSplit.py aggregate "$T/p/a.hpp" "$T/out.hpp" > /dev/null || exit 1
python3 scripts/aggregateOrSplit.py split "$T/out.hpp" "$T/res" > /dev/null || exit 1
cmp "$T/p/a.hpp" "$T/res/a.hpp"
""")

S("kernel-skips-empty-data", "C31", "a kernel with data of no elements",
  "The wrapper does not run the function where the number of elements is zero.",
  [(C + "pmpl.hpp", """  SHIVA_UNUSED_VAR( N, abortOnError );
  genericKernel( std::forward< LAMBDA >( func ), hostData );""", """  SHIVA_UNUSED_VAR( abortOnError );
  for ( int i = 0; i < ( N > 0 ); ++i )
  {
    genericKernel( std::forward< LAMBDA >( func ), hostData );
  }""")],
  demo_cpp=r"""
#include "shiva/common/pmpl.hpp"
#include <cstdio>
int main()
{
  int calls = 0;
  double * none = nullptr;
  shiva::pmpl::genericKernelWrapper( 0, none, [&]( double * ) { ++calls; } );
  printf( "%d\n", calls );
  return calls != 1;
}
""")

S("config-value-with-equals", "C33", "a value that contains an equals sign",
  "A value that contains an equals sign is cut at it: values that differ behind it count as equal.",
  [("scripts/compare_uncrustify.py", "                key_value = line.split('=', 1)\n                if len(key_value) == 2:\n                    key, value = key_value",
    "                key_value = line.split('=')\n                if len(key_value) >= 2:\n                    key, value = key_value[:2]")],
  demo_sh=r"""
printf 'a = x=1\n' > "$T/1"; printf 'a = x=2\n' > "$T/2"
python3 scripts/compare_uncrustify.py "$T/1" "$T/2" | grep -q '^a: x=1 != x=2'
""")

S("cxx20-value-unordered-sum", "C25", "C++20 and a high order basis",
  "The C++20 branch of the value works in single precision; the C++17 branch does not.",
  [(F + "bases/LagrangeBasis.hpp", "      return ( valueProductTerm< BF_INDEX, a >( coord ) * ... );",
    "      return ( static_cast< float >( valueProductTerm< BF_INDEX, a >( coord ) ) * ... );")],
  flags="-std=c++20 -O1", demo_cpp=r"""
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cstdio>
#include <cmath>
int main()
{
  using B = shiva::functions::LagrangeBasis< double, 1, shiva::EqualSpacing >;
  double const v = B::value< 1 >( 0.3 );
  printf( "%.17g\n", v );
  return std::fabs( v - 0.65 ) > 1e-13;
}
""")

S("const-constant-index-writable", "C10", "an access with compile time indices to a constant array",
  "Access with compile time indices to a constant array gives a reference through which the element can be changed.",
  [(C + "CArray.hpp", """  template< int... INDICES >
  SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE
  std::add_const_t< T >& operator()( ) const
  {
    static_assert( sizeof...(INDICES) == sizeof...(DIMS), "Incorrect number of indices" );
    return m_data[""", """  template< int... INDICES >
  SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE
  T & operator()( ) const
  {
    static_assert( sizeof...(INDICES) == sizeof...(DIMS), "Incorrect number of indices" );
    return const_cast< T * >( &m_data[0] )[""")],
  demo_cpp=r"""
#include "shiva/common/CArray.hpp"
#include <type_traits>
#include <utility>
#include <cstdio>
using A = shiva::CArrayNd< double, 3, 2 >;
int main()
{
  using Ref = decltype( std::declval< A const & >().template operator()< 1, 1 >() );
  bool const writable = std::is_assignable_v< Ref, double >;
  printf( "%d\n", writable );
  return writable;
}
""")


# ---- C35
S("range-start-kept", "C35", "two range loops of one type, active at the same time (nested or in threads), with different starts",
  "The start of a range loop is kept in one place per type of range: a loop inside another one over the same type changes where the outer one continues.",
  [(C + "IndexTypes.hpp", """} // namespace detail


/**
 * @brief Returns the linear index of a multi-index.""", """/// start of the loop over an index type, so that the recursion does not need to carry it
template< typename INDEX_TYPE >
inline INDEX_TYPE rangeStart{};

} // namespace detail


/**
 * @brief Returns the linear index of a multi-index."""),
   (C + "IndexTypes.hpp", """  IndexType const start = index;
  detail::forRangeHelper< 0 >( start, index, std::forward< FUNC >( func ) );""", """  if ( SHIVA_IS_CONST_EVAL() )
  {
    IndexType const start = index;
    detail::forRangeHelper< 0 >( start, index, std::forward< FUNC >( func ) );
  }
  else
  {
    detail::rangeStart< IndexType > = index;
    detail::forRangeHelper< 0 >( detail::rangeStart< IndexType >, index, std::forward< FUNC >( func ) );
  }""")],
  demo_cpp=r"""
#include "shiva/common/IndexTypes.hpp"
#include <cstdio>
int main()
{
  using I = shiva::MultiIndexRange< int, 3, 4 >;
  I a{ { 1, 2 } };
  int n = 0;
  shiva::forRange( a, [&]( auto const & ) { ++n; I b{ { 2, 3 } }; shiva::forRange( b, []( auto const & ) {} ); } );
  printf( "%d\n", n );
  return n != 4;
}
""")

S("kernel-active-function", "C35", "two threads that run a kernel of one type at the same time",
  "On the host the wrapper launches the function that it finds in one place per type: concurrent calls run each other's function.",
  [(C + "pmpl.hpp", """  genericKernel( std::forward< LAMBDA >( func ) );
  SHIVA_UNUSED_VAR( abortOnError );""", """  // kept where a debugger finds it
  static std::remove_reference_t< LAMBDA > * active = nullptr;
  active = &func;
  genericKernel( static_cast< LAMBDA && >( *active ) );
  SHIVA_UNUSED_VAR( abortOnError );""")],
  flags="-std=c++17 -O0 -pthread", demo_cpp=r"""
#include "shiva/common/pmpl.hpp"
#include <atomic>
#include <thread>
#include <vector>
#include <cstdio>
int main()
{
  std::atomic< int > wrong{ 0 }, ready{ 0 };
  auto work = [&]( int id )
  {
    ready.fetch_add( 1 );
    while ( ready.load() < 4 ) {}
    for ( int k = 0; k < 2000000 && !wrong; ++k )
    {
      int ran = -1;
      auto f = [&wrong, id, &ran, stack = &ran]() { if ( id * 0 == 0 ) *stack = id; };
      (void) wrong;
      auto * const mine = &ran;
      shiva::pmpl::genericKernelWrapper( f );
      if ( *static_cast< int volatile * >( mine ) != id ) wrong = 1;
    }
  };
  std::vector< std::thread > t;
  for ( int k = 0; k < 4; ++k ) t.emplace_back( work, k );
  for ( auto & x : t ) x.join();
  printf( "%d\n", wrong.load() );
  return wrong;
}
""")

S("jacobian-scratch-gradient", "C35", "two threads that compute Jacobians at the same time",
  "The gradient of the basis is put into one scratch array for all threads while the Jacobian is summed up.",
  [(G + "mapping/LinearTransform.hpp", """namespace utilities
{

/**
 * @brief NoOp""", """namespace utilities
{

/// gradient of the current basis function, kept out of the stack frame
template< typename REAL_TYPE, int DIMS >
inline CArrayNd< REAL_TYPE, DIMS > basisGradient{};

/**
 * @brief NoOp"""),
   (G + "mapping/LinearTransform.hpp", "    CArrayNd< REAL_TYPE, DIMS > const dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( pointCoordsParent );\n",
    """    CArrayNd< REAL_TYPE, DIMS > local{};
    CArrayNd< REAL_TYPE, DIMS > & dNadXi = SHIVA_IS_CONST_EVAL() ? local : basisGradient< REAL_TYPE, DIMS >;
    dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( pointCoordsParent );
""")],
  flags="-std=c++17 -O0 -pthread", demo_cpp=r"""
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <atomic>
#include <thread>
#include <vector>
#include <cstdio>
using B = shiva::functions::LagrangeBasis< double, 1, shiva::EqualSpacing >;
using T = shiva::geometry::LinearTransform< double, shiva::geometry::InterpolatedShape< double, shiva::geometry::NCube< double, 3, -1, 1, 1 >, B, B, B > >;
int main()
{
  T x;
  for ( int k = 0; k < 24; ++k ) x.getData().data()[k] = k * k % 7 + k * 0.25;
  std::atomic< int > wrong{ 0 }, ready{ 0 };
  auto work = [&]( int id )
  {
    double const t[3] = { id * 0.25 - 0.5, 0.1 * id, 0.75 - id * 0.3 };
    T::JacobianType J, K;
    ready.fetch_add( 1 );
    if ( id == 0 ) while ( ready.load() < 4 ) {}
    while ( ready.load() < 4 ) {}
    shiva::geometry::utilities::jacobian( x, t, J );
    for ( int k = 0; k < 50000 && !wrong; ++k )
    {
      shiva::geometry::utilities::jacobian( x, t, K );
      for ( int e = 0; e < 9; ++e ) if ( J.data()[e] != K.data()[e] ) wrong = 1;
    }
  };
  std::vector< std::thread > t;
  for ( int k = 0; k < 4; ++k ) t.emplace_back( work, k );
  for ( auto & y : t ) y.join();
  printf( "%d\n", wrong.load() );
  return wrong;
}
""")

S("inverse-remembers-last", "C35", "two matrices in a row that have the same diagonal and determinant",
  "The inverse of an array object keeps its last result and gives it again for a matrix with the same diagonal and determinant.",
  [(C + "MathUtilities.hpp", """ * @brief Inverse of a 3x3 matrix
 * @tparam REAL_TYPE The data type of the matrix
 * @param matrix The matrix to invert
 * @param det The determinant of the matrix
 */
template< typename MATRIX_TYPE >""", """ * @brief The last matrix that was inverted at run time: its diagonal and determinant, and the inverse
 * @tparam REAL_TYPE The data type of the matrix
 */
template< typename REAL_TYPE >
inline REAL_TYPE lastInverse[ 13 ]{};

/**
 * @brief Inverse of a 3x3 matrix
 * @tparam REAL_TYPE The data type of the matrix
 * @param matrix The matrix to invert
 * @param det The determinant of the matrix
 */
template< typename MATRIX_TYPE >"""),
   (C + "MathUtilities.hpp", """  REAL_TYPE const invDet = REAL_TYPE( 1 ) / det;

  matrix( 0, 0 ) *= invDet;""", """  if ( !SHIVA_IS_CONST_EVAL() )
  {
    REAL_TYPE const * const last = lastInverse< REAL_TYPE >;
    if ( last[ 9 ] == srcMatrix00 && last[ 10 ] == srcMatrix11 && last[ 11 ] == srcMatrix22 && last[ 12 ] == det )
    {
      for ( int i = 0; i < 9; ++i )
      {
        matrix( i / 3, i % 3 ) = last[ i ];
      }
      return;
    }
  }
  REAL_TYPE const invDet = 1 / det;

  matrix( 0, 0 ) *= invDet;"""),
   (C + "MathUtilities.hpp", """  matrix( 2, 2 ) = ( srcMatrix00 * srcMatrix11 - srcMatrix01 * srcMatrix10 ) * invDet;
""", """  matrix( 2, 2 ) = ( srcMatrix00 * srcMatrix11 - srcMatrix01 * srcMatrix10 ) * invDet;
  if ( !SHIVA_IS_CONST_EVAL() )
  {
    REAL_TYPE * const last = lastInverse< REAL_TYPE >;
    for ( int i = 0; i < 9; ++i )
    {
      last[ i ] = matrix( i / 3, i % 3 );
    }
    last[ 9 ] = srcMatrix00;
    last[ 10 ] = srcMatrix11;
    last[ 11 ] = srcMatrix22;
    last[ 12 ] = det;
  }
""")],
  demo_cpp=r"""
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/CArray.hpp"
#include <cstdio>
int main()
{
  shiva::CArrayNd< double, 3, 3 > a{ 1., 2., 0., 0., 1., 0., 0., 0., 1. }, b{ 1., 0., 0., 3., 1., 0., 0., 0., 1. };
  double d = 0;
  shiva::mathUtilities::inverse( a, d );
  shiva::mathUtilities::inverse( b, d );
  printf( "%g %g\n", b( 0, 1 ), b( 1, 0 ) );
  return b( 0, 1 ) != 0 || b( 1, 0 ) != -3;
}
""")

# ---- C34
# the device branches on a stand-in for the runtime; the launch is made a call in a copy of the headers
MOCK = r"""
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <tuple>
#define __host__
#define __device__
#define __global__
#define __forceinline__ inline
#define __trap() std::abort()
enum cudaError_t { cudaSuccess = 0, cudaErrorOther = 1 };
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
inline int mockBlocks = 0;
inline bool mockSync = false;                       // the next synchronisation finds that the kernel failed
inline cudaError_t mockLast = cudaSuccess;
inline cudaError_t cudaMalloc( void * p, std::size_t n ) { void * q = std::malloc( n + 1 ); std::memcpy( p, &q, sizeof q ); ++mockBlocks; return cudaSuccess; }
inline cudaError_t cudaMallocManaged( void * p, std::size_t n ) { return cudaMalloc( p, n ); }
inline cudaError_t cudaFree( void * p ) { if ( p ) { --mockBlocks; std::free( p ); } return cudaSuccess; }
inline cudaError_t cudaMemcpy( void * d, void const * s, std::size_t n, cudaMemcpyKind ) { if ( mockSync ) { mockSync = false; return mockLast = cudaErrorOther; } std::memmove( d, s, n ); return cudaSuccess; }
inline cudaError_t cudaDeviceSynchronize() { if ( mockSync ) { mockSync = false; return mockLast = cudaErrorOther; } return cudaSuccess; }
inline cudaError_t cudaGetLastError() { cudaError_t const e = mockLast; mockLast = cudaSuccess; return e; }
inline cudaError_t cudaPeekAtLastError() { return mockLast; }
inline char const * cudaGetErrorString( cudaError_t ) { return "failed"; }
"""
DEVICE_SH = r"""
cp -r include "$T/include"
find "$T/include" -name '*.hpp' -exec sed -i 's/<<<[^>]*>>>//' {} +
mkdir -p "$T/include/cuda/std" "$T/cfg/shiva"
printf '#include <tuple>
namespace cuda { namespace std { using ::std::tuple; using ::std::make_tuple; using ::std::get; using ::std::tie; } }
' > "$T/include/cuda/std/tuple"
(cat _build/shiva/include/shiva/ShivaConfig.hpp; echo '#define SHIVA_ENABLE_CUDA') > "$T/cfg/shiva/ShivaConfig.hpp"
g++ -std=c++17 -O1 -w @FLAGS@ -include "$D/mock.hpp" -I "$T/cfg" -I "$T/include" "$D/case.cpp" -o "$T/a" || exit 1
"$T/a"
"""

S("device-block-kept-on-error", "C34", "a kernel that fails on a device, in a program that goes on",
  "The device memory of the kernel wrapper is released only if everything went well.",
  [(C + "pmpl.hpp", "  deviceFree( deviceData );\n", "  if ( err == deviceSuccess )\n  {\n    err = deviceFree( deviceData );\n  }\n")],
  demo_sh=DEVICE_SH.replace("@FLAGS@", ""), files={"mock.hpp": MOCK, "case.cpp": r"""
#include "shiva/common/pmpl.hpp"
int main()
{
  double d[4] = { 1, 2, 3, 4 };
  shiva::pmpl::genericKernelWrapper( 4, d, [=]( double * p ) { p[0] = 5; mockSync = true; }, false );
  printf( "%d\n", mockBlocks );
  return mockBlocks != 0;
}
"""})

S("synchronize-only-peeks", "C34", "a kernel without data that fails while it runs on a device",
  "Waiting for the device became a look at the last error: errors of a kernel that is still running are not seen.",
  [(C + "pmpl.hpp", "#define deviceDeviceSynchronize() cudaDeviceSynchronize();", "#define deviceDeviceSynchronize() cudaPeekAtLastError();"),
   (C + "pmpl.hpp", "#define deviceDeviceSynchronize() hipDeviceSynchronize();", "#define deviceDeviceSynchronize() hipPeekAtLastError();")],
  demo_sh=DEVICE_SH.replace("@FLAGS@", "").rstrip() + """ > "$T/out"; grep -q 'Kernel failed' "$T/out"\n""",
  files={"mock.hpp": MOCK, "case.cpp": r"""
#include "shiva/common/pmpl.hpp"
int main()
{
  shiva::pmpl::genericKernelWrapper( [=]() { mockSync = true; }, false );
}
"""})

S("inverse-fast-on-device", "C34", "code that runs on a device",
  "On a device the inverse of a matrix uses a reciprocal in single precision.",
  [(C + "MathUtilities.hpp", """        srcMatrix20 * matrix( 0, 2 );
  REAL_TYPE const invDet = REAL_TYPE( 1 ) / det;""", """        srcMatrix20 * matrix( 0, 2 );
#if defined( SHIVA_DEVICE_CONTEXT )
  REAL_TYPE const invDet = static_cast< REAL_TYPE >( 1.0f / static_cast< float >( det ) );
#else
  REAL_TYPE const invDet = 1 / det;
#endif""")],
  demo_sh=DEVICE_SH.replace("@FLAGS@", "-D__CUDA_ARCH__=700"), files={"mock.hpp": MOCK, "case.cpp": r"""
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/CArray.hpp"
#include <cmath>
int main()
{
  shiva::CArrayNd< double, 3, 3 > a{ 3., 0., 0., 0., 1., 0., 0., 0., 1. };
  double d = 0;
  shiva::mathUtilities::inverse( a, d );
  printf( "%.17g\n", a( 0, 0 ) );
  return std::fabs( a( 0, 0 ) - 1.0 / 3 ) > 1e-12;
}
"""})

# --- third round

S("bracket-extent-one", "C09", "brackets on a direction of extent one",
  "The check of the brackets is skipped for directions of extent one, where only index zero exists.",
  [(C + "CArray.hpp", "  SHIVA_ASSERT_MSG( index >= 0 && index < DIM,", "  SHIVA_ASSERT_MSG( DIM == 1 || ( index >= 0 && index < DIM ),")],
  demo_cpp=r'''
#include "shiva/common/CArray.hpp"
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
template< typename F > bool aborts( F f )
{
  pid_t const p = fork();
  if ( p == 0 ) { (void)!freopen( "/dev/null", "w", stderr ); f(); _exit( 0 ); }
  int st = 0; waitpid( p, &st, 0 );
  return WIFSIGNALED( st ) && WTERMSIG( st ) == SIGABRT;
}
int main()
{
  static shiva::CArrayNd< int, 3, 1, 2 > a{};
  volatile int one = 1;
  bool const ok = aborts( [&] { volatile int x = a[0][one][0]; (void)x; } );
  printf( "%d\n", ok );
  return !ok;
}
''')

S("const-slice-of-slice", "C10", "a slice of a constant array",
  "The type of a slice of a constant array no longer carries the const of the elements, so that its elements can be written.",
  [(C + "CArray.hpp", "    using const_type = CArray< T const, T const * const, SUB_DIMS... >;", "    using const_type = std::conditional_t< sizeof...( SUB_DIMS ) == 1, CArray< T const, T const * const, SUB_DIMS... >, type< SUB_DIMS... > >;"),
   (C + "CArray.hpp", """    /// This alias is used to create a const subarray type.

""", """    /// This alias is used to create a subarray type.
    template< int ... SUB_DIMS >
    using type = CArray< T, T * const, SUB_DIMS... >;

    /// This alias is used to create a const subarray type.
    /// A slice of a slice of a constant array is constant because its last slice is.
"""),
   (C + "CArray.hpp", """    /// This alias is used to create a subarray type.
    template< int ... SUB_DIMS >
    using type = CArray< T, T * const, SUB_DIMS... >;
  };""", "  };")],
  demo_cpp=r'''
#include "shiva/common/CArray.hpp"
#include <cstdio>
#include <type_traits>
#include <utility>
using A = shiva::CArrayNd< double, 2, 3, 4 >;
int main()
{
  using Slice = decltype( std::declval< A const & >()[0] );
  using Element = decltype( std::declval< Slice & >()( 0, 0 ) );
  bool const writable = !std::is_const_v< std::remove_reference_t< Element > >;
  printf( "%d\n", writable );
  return writable;
}
''')

S("pow-byte-counter", "C17", "an exponent of 128 or more (bases zero, one and minus one)",
  "The exponent of the integer power is kept in a byte.",
  [(C + "MathUtilities.hpp", """  for ( int i = 0; i < EXPONENT; ++i )
  {""", """  constexpr signed char count = static_cast< signed char >( EXPONENT & 127 );
  for ( signed char i = 0; i < count; ++i )
  {""")],
  demo_cpp=r'''
#include "shiva/common/MathUtilities.hpp"
#include <cstdio>
int main()
{
  long const a = shiva::mathUtilities::pow< long, 128 >( 0 ), b = shiva::mathUtilities::pow< int, 129 >( -1 );
  printf( "%ld %ld\n", a, b );
  return a != 0 || b != -1;
}
''')

S("simplex-volume-unsigned-factorial", "C16", "a simplex of 13 or more dimensions",
  "The factorial in the volume of a simplex is computed in 32 bits without sign, and wraps around.",
  [(G + "shapes/NSimplex.hpp", "    return volumeHelper();", """    unsigned int product = 1;
    REAL_TYPE power = 1;
    for ( unsigned int i = 1; i <= static_cast< unsigned int >( N ); ++i )
    {
      product *= i;
      power *= length();
    }
    return power / product;""")],
  demo_cpp=r'''
#include "shiva/geometry/shapes/NSimplex.hpp"
#include <cstdio>
int main()
{
  double f = 1;
  for ( int i = 2; i <= 14; ++i ) f *= i;
  double const v = shiva::geometry::NSimplex< double, 14, 0, 1, 1 >::volume();
  printf( "%g %g\n", v, 1 / f );
  return !( v * f > 0.999 && v * f < 1.001 );
}
''')

FAKE_CMAKE = r"""
cp -r "$PWD" "$T/tree" 2>/dev/null
mkdir -p "$T/bin"
printf '#!/bin/bash\nfor a in "$@"; do echo "$a"; done > "%s/args"; pwd >> "%s/args"\nfor a in "$@"; do l="$a"; done\nreadlink -f "$l" > "%s/source"\n' "$T" "$T" "$T" > "$T/bin/cmake"
chmod +x "$T/bin/cmake"
cd "$T/tree" || exit 2
echo > "$T/host config.cmake"; echo > host.cmake
"""
S("script-folder-relative", "C32", "the script called by a relative path",
  "The source folder is derived from the script's name as it was typed, and is wrong once the script has changed to the build folder.",
  [("scripts/config-build.py", "scriptsdir = os.path.dirname( os.path.abspath(sys.argv[0]) )", "scriptsdir = os.path.dirname( sys.argv[0] ) or os.getcwd()")],
  demo_sh=FAKE_CMAKE + r"""PATH="$T/bin:$PATH" python3 scripts/config-build.py -hc host.cmake -bp "$T/b" -ip "$T/i" > /dev/null || exit 1
[ "$(cat "$T/source")" = "$(readlink -f "$T/tree")" ]""")

S("host-config-relative", "C32", "a host configuration named by a relative path",
  "The host configuration is handed to CMake as it was typed, though CMake runs in the build folder.",
  [("scripts/config-build.py", "cachefile = os.path.abspath(args.hostconfig)", "cachefile = os.path.expanduser(args.hostconfig)")],
  demo_sh=FAKE_CMAKE + r"""PATH="$T/bin:$PATH" python3 scripts/config-build.py -hc host.cmake -bp "$T/b" -ip "$T/i" > /dev/null || exit 1
f=$(grep -A1 '^-C$' "$T/args" | tail -1); cd "$T/b" && [ -f "$f" ]""")

S("existing-build-folder-kept", "C32", "a build folder that holds files of an earlier build",
  "Of an existing build folder only the cache is removed.",
  [("scripts/config-build.py", "     shutil.rmtree(buildpath)\n", "     for name in os.listdir(buildpath):\n         if name.startswith(\"CMake\"):\n             path = os.path.join(buildpath, name)\n             shutil.rmtree(path) if os.path.isdir(path) else os.remove(path)\n"),
   ("scripts/config-build.py", "os.makedirs(buildpath)", "os.makedirs(buildpath, exist_ok=True)")],
  demo_sh=FAKE_CMAKE + r"""mkdir -p "$T/b/lib"; echo old > "$T/b/lib/libold.a"; echo old > "$T/b/CMakeCache.txt"
PATH="$T/bin:$PATH" python3 scripts/config-build.py -hc host.cmake -bp "$T/b" -ip "$T/i" > /dev/null || exit 1
[ ! -e "$T/b/lib/libold.a" ] && [ ! -e "$T/b/CMakeCache.txt" ]""")

S("end-marker-loosened", "C28", "a comment line in a header that begins like the marker of an end",
  "A line counts as the end of a header as soon as it begins like the marker, and the rest of the header is lost.",
  [("scripts/aggregateOrSplit.py", "                end_match = re.match(r'// ===== End of (.+) =====', line)", "                end_match = re.match(r'// =+ End', line)")],
  demo_sh=r"""
mkdir -p "$T/h"
printf '#pragma once\n// == Begin of helpers ==\nint f();\n// == End of helpers ==\nint g();\n' > "$T/h/a.hpp"
python3 scripts/aggregateOrSplit.py aggregate "$T/h/a.hpp" "$T/all.hpp" > /dev/null && python3 scripts/aggregateOrSplit.py split "$T/all.hpp" "$T/out" > /dev/null || exit 1
diff "$T/h/a.hpp" "$(find "$T/out" -name a.hpp)" """)

S("aggregate-same-basename", "C27", "two headers of the same name in different folders",
  "Headers are told apart by their names alone, so that the second of two headers of the same name is missing in the aggregate.",
  [("scripts/aggregateOrSplit.py", """                    if abs_key not in unique_files:
                        self.included_list.append(abs_key)
                        unique_files.add(abs_key)""", """                    if os.path.basename(abs_key) not in unique_files:
                        self.included_list.append(abs_key)
                        unique_files.add(os.path.basename(abs_key))""")],
  demo_sh=r"""
mkdir -p "$T/h/x" "$T/h/y"
echo 'int x_detail();' > "$T/h/x/detail.hpp"; echo 'int y_detail();' > "$T/h/y/detail.hpp"
printf '#include "x/detail.hpp"\n#include "y/detail.hpp"\n' > "$T/h/all.hpp"
python3 scripts/aggregateOrSplit.py aggregate "$T/h/all.hpp" "$T/all.hpp" > /dev/null || exit 1
grep -q x_detail "$T/all.hpp" && grep -q y_detail "$T/all.hpp" """)

S("style-value-case", "C33", "values that differ in upper and lower case only",
  "Values are compared without regard to case, so that settings which differ (indentation by a string, names in a list) count as common.",
  [("scripts/compare_uncrustify.py", "            if config2[key] == value:", "            if config2[key].lower() == value.lower():")],
  demo_sh=r"""
printf 'cmt_insert_file_header = "Header.txt"\n' > "$T/a"; printf 'cmt_insert_file_header = "header.txt"\n' > "$T/b"
python3 scripts/compare_uncrustify.py "$T/a" "$T/b" | tee "$T/o"
grep -q '!=' "$T/o" """)

S("large-stride-short", "C08", "an array in which a slice holds more than 32767 elements, accessed with run time indices in call syntax",
  "The stride of a direction is kept in a 16-bit integer.",
  [(C + "CArrayHelper.hpp", """    constexpr int thisStride = strideHelper< DIMS ..., 1 >();
    if constexpr ( sizeof ... ( DIMS ) == 0 )
    {
      return index * thisStride;""", """    constexpr auto thisStride = static_cast< short >( strideHelper< DIMS ..., 1 >() );
    if constexpr ( sizeof ... ( DIMS ) == 0 )
    {
      return index * thisStride;""")],
  demo_cpp=r'''
#include "shiva/common/CArray.hpp"
int main()
{
  static float buffer[3 * 40000];
  shiva::CArrayViewNd< float, 3, 40000 > v( buffer );
  volatile int i = 0, j = 7;
  bool const here = &v( i, j ) == &buffer[7];
  i = 2;
  long const off = reinterpret_cast< char * >( &v( i, j ) ) - reinterpret_cast< char * >( buffer );
  printf( "%d %ld\n", here, off );
  return !( here && off == 80007 * 4 );
}
''')

S("bounds-hundred-thousand", "C09", "an index out of range in an array of more than 65535 elements in one direction",
  "The index is reduced to 16 bits for the check of the call syntax.",
  [(C + "CArrayHelper.hpp", "    SHIVA_ASSERT_MSG( index >= 0 && index < DIM,", "    constexpr long mask = DIM > 65535 ? 65535 : -1;\n    SHIVA_ASSERT_MSG( ( index & mask ) >= 0 && ( index & mask ) < DIM,")],
  demo_cpp=r'''
#include "shiva/common/CArray.hpp"
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
int main()
{
  static char buffer[70000];
  shiva::CArrayViewNd< char, 70000 > v( buffer );
  volatile int i = 70000;
  pid_t const p = fork();
  if ( p == 0 ) { (void)!freopen( "/dev/null", "w", stderr ); char const volatile * x = &v( i ); (void)x; _exit( 0 ); }
  int st = 0; waitpid( p, &st, 0 );
  return !( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGABRT );
}
''')

S("linear-index-consteval-int", "C07", "a linear index beyond 32 bits that is computed by the compiler",
  "In constant evaluation the linear index is accumulated in int, so a constant differs from the value at run time.",
  [(C + "IndexTypes.hpp", "  return detail::linearIndexHelper( index, std::make_integer_sequence< int, IndexType::NUM_INDICES >{} );", "  auto const position = detail::linearIndexHelper( index, std::make_integer_sequence< int, IndexType::NUM_INDICES >{} );\n  return SHIVA_IS_CONST_EVAL() ? static_cast< unsigned >( position ) : position;")],
  demo_cpp=r'''
#include "shiva/common/IndexTypes.hpp"
#include <cstdint>
#include <cstdio>
using I = shiva::MultiIndexRange< std::int64_t, 100000, 100000 >;
int main()
{
  constexpr std::int64_t c = shiva::linearIndex( I{ 99999, 99999 } );
  volatile int v = 99999;
  I i{ v, v };
  std::int64_t const r = shiva::linearIndex( i );
  printf( "%ld %ld\n", static_cast< long >( c ), static_cast< long >( r ) );
  return c != r;
}
''')

S("execute-four-arguments", "C14", "four or more further arguments, one of which has to be moved or changed in place",
  "With more than three further arguments the function that takes the indices as template parameters gets them as lvalues.",
  [(C + "SequenceUtilities.hpp", "      return func.template operator()< DIMENSION_INDICES... >(std::forward< ARGS >( args )...);", '''      if constexpr ( sizeof...( ARGS ) > 3 )
      {
        return func.template operator()< DIMENSION_INDICES... >( args ... );
      }
      else
      {
        return func.template operator()< DIMENSION_INDICES... >( std::forward< ARGS >( args )... );
      }''')],
  demo_cpp=r'''
#include "shiva/common/SequenceUtilities.hpp"
#include <cstdio>
#include <string>
struct F
{
  template< int ... I > constexpr int operator()( std::string && s, int, int, int ) const { std::string const t( std::move( s ) ); return static_cast< int >( t.size() ) * ( I + ... ); }
  template< int ... I > constexpr int operator()( std::string const &, int, int, int ) const { return -1; }
};
int main()
{
  std::string s( "abc" );
  int const r = shiva::executeSequence< 4 >( F{}, std::move( s ), 1, 2, 3 );
  printf( "%d\n", r );
  return r != 18;
}
''')

S("lobatto9-refused", "C24", "a Gauss-Lobatto rule of nine points",
  "The largest rule the library offers does not compile any more.",
  [(F + "quadrature/Quadrature.hpp", 'static_assert( N >= 2 && N <= 9, "Unsupported number of points" );', 'static_assert( N >= 2 && N < 9, "Unsupported number of points" );')],
  demo_sh='''printf '#include "shiva/functions/bases/LagrangeBasis.hpp"\\n#include "shiva/functions/quadrature/Quadrature.hpp"\\nint main() { constexpr double w = shiva::QuadratureGaussLobatto< double, 9 >::weight< 4 >(); return !( w > 0.37 && w < 0.38 ); }\\n' > "$T/x.cpp"
g++ -std=c++17 -I include -I _build/shiva/include "$T/x.cpp" -o "$T/x" && "$T/x" ''')

S("tensor-fifth-direction", "C03", "a tensor product of five or more bases",
  "In the fifth and later directions the gradient takes the value of the basis instead of its derivative.",
  [(F + "bases/BasisProduct.hpp", "    if constexpr ( GRADIENT_COMPONENT == COORD_INDEX )", "    if constexpr ( GRADIENT_COMPONENT == COORD_INDEX && COORD_INDEX < 4 )")],
  demo_cpp=r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cmath>
#include <cstdio>
using B = shiva::functions::LagrangeBasis< double, 1, shiva::EqualSpacing >;
using P = shiva::functions::BasisProduct< double, B, B, B, B, B >;
int main()
{
  double const x[5] = { 0, 0, 0, 0, 0.5 };
  auto const g = P::gradient< 1, 1, 1, 1, 1 >( x );
  printf( "%g\n", g( 4 ) );
  return std::abs( g( 4 ) - 1. / 32 ) > 1e-12;
}
''')

S("gradient-fifth-component", "C04", "interpolation in five or more dimensions",
  "The fifth and later components of an interpolated gradient are those of the fourth direction.",
  [("include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp", "        rval( a ) = rval( a ) + grad( a ) * var( decltype(ic_indices)::value ... );",
    "        rval( a ) = rval( a ) + grad( decltype(a)::value > 3 ? 3 : decltype(a)::value ) * var( decltype(ic_indices)::value ... );")],
  demo_cpp=r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include <cmath>
#include <cstdio>
using B = shiva::functions::LagrangeBasis< double, 1, shiva::EqualSpacing >;
using P = shiva::discretizations::finiteElementMethod::ParentElement< double, shiva::geometry::NCube< double, 5, -1, 1, 1 >, B, B, B, B, B >;
struct U { double operator()( int a, int, int, int, int e ) const { return a + 3. * e; } };
int main()
{
  double const x[5] = { 0.1, 0.2, 0.3, 0.4, 0.5 };
  auto const g = P::gradient( x, U{} );
  printf( "%g %g\n", g( 0 ), g( 4 ) );
  return std::abs( g( 0 ) - 0.5 ) > 1e-12 || std::abs( g( 4 ) - 1.5 ) > 1e-12;
}
''')

S("inverse-of-tiny-matrix", "C18", "a matrix whose determinant is so small that its square vanishes, which happens for entries below 1e-54",
  "Such a matrix is taken for singular and its inverse is zero.",
  [(C + "MathUtilities.hpp", '''  REAL_TYPE const invDet = REAL_TYPE( 1 ) / det;

  matrix( 0, 0 ) *= invDet;''', '''  bool const regular = det * det > REAL_TYPE( 0 );
  REAL_TYPE const invDet = regular ? REAL_TYPE( 1 ) / det : REAL_TYPE( 0 );

  matrix( 0, 0 ) *= invDet;''')],
  demo_cpp=r'''
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/CArray.hpp"
#include <cmath>
#include <cstdio>
int main()
{
  shiva::CArrayNd< double, 3, 3 > m{};
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) m( i, j ) = i == j ? 1e-60 : 0;
  double d;
  shiva::mathUtilities::inverse( m, d );
  printf( "%g %g\n", m( 0, 0 ), d );
  return std::abs( m( 0, 0 ) * 1e-60 - 1 ) > 1e-12;
}
''')

S("nested-loop-depth-five", "C13", "a nested loop of at least six directions, the fifth of which has three or more indices",
  "The fifth loop of a deep nest ends after its first index.",
  [(C + "NestedSequenceUtilities.hpp", "        NestedSequenceExpansion< REMAINING_ENDS... >::staticForNested( std::forward< FUNC >( func ), indices ..., idx );", '''        if constexpr ( sizeof...( INDICES ) < 4 || sizeof...( REMAINING_ENDS ) < 2 || END < 3 || decltype(idx)::value == 0 )
        {
          NestedSequenceExpansion< REMAINING_ENDS... >::staticForNested( std::forward< FUNC >( func ), indices ..., idx );
        }''')],
  demo_cpp=r'''
#include "shiva/common/NestedSequenceUtilities.hpp"
#include <cstdio>
int main()
{
  int n = 0;
  shiva::forNestedSequence< 1, 2, 1, 1, 3, 2, 2 >( [&]( auto ... ) { ++n; } );
  printf( "%d\n", n );
  return n != 24;
}
''')

S("range-fourth-index-early", "C12", "a loop of at least five directions that starts inside the fourth range",
  "A loop whose fourth index starts above zero leaves out the last one.",
  [(C + "IndexTypes.hpp", '''    BASE_INDEX_TYPE & a = index.data[DIM];
    for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
    {
      forRangeHelper''', '''    BASE_INDEX_TYPE & a = index.data[DIM];
    BASE_INDEX_TYPE const last = static_cast< BASE_INDEX_TYPE >( index.range( DIM ) - ( DIM > 2 && start.data[DIM] > 0 ) );
    for ( a = start.data[DIM]; a < last; ++a )
    {
      forRangeHelper''')],
  demo_cpp=r'''
#include "shiva/common/IndexTypes.hpp"
#include <cstdio>
int main()
{
  shiva::MultiIndexRange< int, 1, 1, 1, 4, 1 > i{};
  i.data[3] = 1;
  int n = 0;
  shiva::forRange( i, [&]( auto const & ) { ++n; } );
  printf( "%d\n", n );
  return n != 3;
}
''')

S("linear-index-rank-eight", "C11", "a multi-index of eight or more indices",
  "The eighth and later indices are taken with the stride of the seventh.",
  [(C + "IndexTypes.hpp", "  return (  ( index.data[INDICES] * stride< INDICES >( index ) ) + ... );", "  return (  ( index.data[INDICES] * stride< ( INDICES < 7 ? INDICES : 6 ) >( index ) ) + ... );")],
  demo_cpp=r'''
#include "shiva/common/IndexTypes.hpp"
#include <cstdio>
int main()
{
  shiva::MultiIndexRange< int, 2, 2, 2, 2, 2, 2, 2, 3 > i{};
  i.data[7] = 2;
  int const n = static_cast< int >( shiva::linearIndex( i ) );
  printf( "%d\n", n );
  return n != 2;
}
''')

S("uniform-scaling-large-determinant", "C22", "a uniform scaling by lengths above 2e5",
  "The determinant of large uniform scalings has single precision.",
  [(G + "mapping/UniformScaling.hpp", "  detJ = 0.125 * h * h * h;", "  detJ = h < 2e5 ? 0.125 * h * h * h : static_cast< float >( 0.125 * h * h * h );")],
  demo_cpp=r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/mapping/UniformScaling.hpp"
#include <cmath>
#include <cstdio>
int main()
{
  shiva::geometry::UniformScaling< double > s;
  s.setData( 654321. );
  shiva::geometry::UniformScaling< double >::JacobianType j{ 0.0 };
  double d = 0;
  shiva::geometry::utilities::inverseJacobian( s, j, d );
  double const h = 654321.;
  printf( "%.17g\n", d );
  return std::abs( d / ( 0.125 * h * h * h ) - 1 ) > 1e-12;
}
''')

S("jacobian-coordinates-single", "C20", "coordinates of vertices above 1e5 and the form with a run time coordinate",
  "The Jacobian at a coordinate reads large coordinates of vertices in single precision.",
  [(G + "mapping/LinearTransform.hpp", "      J( i, j ) = J( i, j ) + dNadXi( j ) * nodeCoords( decltype(ic_spIndices)::value ..., i );", "      J( i, j ) = J( i, j ) + dNadXi( j ) * ( nodeCoords( decltype(ic_spIndices)::value ..., i ) > 1e5 ? static_cast< float >( nodeCoords( decltype(ic_spIndices)::value ..., i ) ) : nodeCoords( decltype(ic_spIndices)::value ..., i ) );")],
  demo_cpp=r'''
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include <cmath>
#include <cstdio>
using B = shiva::functions::LagrangeBasis< double, 1, shiva::EqualSpacing >;
using L = shiva::geometry::LinearTransform< double, shiva::geometry::InterpolatedShape< double, shiva::geometry::NCube< double, 3, -1, 1, 1 >, B, B, B > >;
int main()
{
  L cell;
  auto & x = cell.getData();
  for ( int a = 0; a < 2; ++a ) for ( int b = 0; b < 2; ++b ) for ( int c = 0; c < 2; ++c ) { x( a, b, c, 0 ) = 1000000.03 + 0.1 * a; x( a, b, c, 1 ) = b; x( a, b, c, 2 ) = c; }
  L::JacobianType J{};
  double const q[3] = { 0, 0, 0 };
  shiva::geometry::utilities::jacobian( cell, q, J );
  printf( "%.17g\n", J( 0, 0 ) );
  return std::abs( J( 0, 0 ) - 0.05 ) > 1e-8;
}
''')

S("case-folded-header-names", "C27", "two headers whose paths differ in upper and lower case only",
  "One of the two is left out of the aggregated header.",
  [("scripts/aggregateOrSplit.py", "                    if abs_key not in unique_files:\n                        self.included_list.append(abs_key)\n                        unique_files.add(abs_key)",
    "                    if abs_key.lower() not in unique_files:\n                        self.included_list.append(abs_key)\n                        unique_files.add(abs_key.lower())")],
  demo_sh='''mkdir "$T/t"; echo 'int lower;' > "$T/t/cell.hpp"; echo 'int upper;' > "$T/t/Cell.hpp"
python3 scripts/aggregateOrSplit.py aggregate "$T/t/cell.hpp" "$T/t/Cell.hpp" "$T/out.hpp" > /dev/null || exit 1
grep -q 'int lower;' "$T/out.hpp" && grep -q 'int upper;' "$T/out.hpp" ''')

S("config-name-as-suffix", "C27", "a header whose name ends with that of the configuration header",
  "A header called like MyShivaConfig.hpp is taken for the configuration header and left out.",
  [("scripts/aggregateOrSplit.py", "if included_file != self.config_file:", "if not included_file.endswith(self.config_file):")],
  demo_sh='''mkdir "$T/t"; echo 'int mine;' > "$T/t/MyShivaConfig.hpp"; printf '#include "MyShivaConfig.hpp"\\nint root;\\n' > "$T/t/root.hpp"
python3 scripts/aggregateOrSplit.py aggregate "$T/t/root.hpp" "$T/out.hpp" > /dev/null || exit 1
grep -q 'int mine;' "$T/out.hpp" ''')

CI_STUBS = r"""
mkdir -p "$T/repo" "$T/bin" "$T/tmp/Shiva"
cp -a scripts "$T/repo/"
sed -i "s#/tmp/#$T/tmp/#g" "$T"/repo/scripts/*.sh
printf 'import sys\nopen("%s","a").write("config "+" ".join(sys.argv[1:])+"\\n")\n' "$T/log" > "$T/repo/scripts/config-build.py"
mkdir -p "$T/tmp/build"
for c in make ctest docker; do printf '#!/bin/sh\necho "%s $*" >> "%s"\n[ "$FAILING" != %s ] || exit 3\nexit 0\n' $c "$T/log" $c > "$T/bin/$c"; chmod +x "$T/bin/$c"; done
export PATH="$T/bin:$PATH" HOST_CONFIG=host-configs/x.cmake CMAKE_BUILD_TYPE=Debug NPROC=3
"""

S("ci-status-of-echo", "C36", "a step of the continuous integration that fails",
  "The status of a failed step is printed before it is kept, and what is kept is the status of the print.",
  [("scripts/ci_build_and_test_in_container.sh", '''    local status=$?
    echo status = $status
''', '''    echo status = $?
    local status=$?
''')],
  demo_sh=CI_STUBS + r"""bash "$T/repo/scripts/ci_build_and_test_in_container.sh" --build-exe > /dev/null || exit 1
FAILING=make bash "$T/repo/scripts/ci_build_and_test_in_container.sh" --build-exe > /dev/null && exit 1
exit 0""")

S("ci-tests-disabled-with-coverage", "C36", "the options for coverage and for the build together",
  "When coverage is asked for together with the build, the unit tests of the build are left out.",
  [("scripts/ci_build_and_test_in_container.sh", '''  if [[ "$*" != *--disable-unit-tests* ]]; then''', '''  if [[ "$*" != *--disable-unit-tests* && "${ENABLE_COVERAGE}" != "ON" ]]; then''')],
  demo_sh=CI_STUBS + r"""echo covered > "$T/tmp/build/shiva_coverage.info.cleaned"
bash "$T/repo/scripts/ci_build_and_test_in_container.sh" --build-exe --code-coverage > /dev/null || exit 1
grep -q '^ctest' "$T/log" """)

