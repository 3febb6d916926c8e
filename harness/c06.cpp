// C06: quadrature rules integrate polynomials exactly to their degree
#include "quad_common.hpp"
using namespace vh;

static int degree( Points const & q ) { return q.rule == Rule::legendre ? 2 * q.n - 1 : 2 * q.n - 3; }
static LD monomial( int k, LD a, LD b ) { LD pa = 1, pb = 1; for ( int i = 0; i <= k; ++i ) { pa *= a; pb *= b; } return ( pb - pa ) / ( k + 1 ); }

static void pw( Points const & q, bool rt, std::vector< LD > & x, std::vector< LD > & w )
{
  for ( int i = 0; i < q.n; ++i )
  {
    x.push_back( rt ? q.coordRT( i ) : q.coordCT( i ) );
    w.push_back( rt && q.weightRT ? q.weightRT( i ) : q.weightCT( i ) );
  }
}

static void run1( Ctx & ctx, Case const & c, Points const & q )
{
  int const n = q.n, k = static_cast< int >( c.i[0] ), deg = degree( q );
  LD const tx = tableError( q.rule, n, false, q.eps ), tw = tableError( q.rule, n, true, q.eps );
  std::vector< LD > x, w;
  pw( q, c.i[1] != 0, x, w );
  ctx.label( c.i[1] ? "run time index" : "compile time index" );
  near( "weight " + str( k ), w[k], exactWeight( q.rule, n, q.exact[static_cast< std::size_t >( k )] ), tw );
  if ( q.weightRT ) near( "weight from a run time index " + str( k ), q.weightRT( k ), q.weightCT( k ), 4 * q.eps );
  ok( w[k] > 0, "weights are positive" );
  near( "mirrored weight", w[n - 1 - k], w[k], 2 * tw );
  LD sum = 0;
  for ( LD v : w ) sum += v;
  near( "sum of the weights", sum, 2, n * tw );
  // a polynomial up to the degree, in a generated expansion point
  int const d = static_cast< int >( c.i[2] ) % ( deg + 1 );
  LD const s = static_cast< LD >( c.r[0] );
  LD got = 0, want = 0, scale = 0;
  for ( int m = 0; m <= d; ++m )
  {
    LD const cf = static_cast< LD >( c.r[static_cast< std::size_t >( m + 1 )] );
    want += cf * monomial( m, -1 - s, 1 - s );
    LD pm = 1;
    for ( int e = 0; e < m; ++e ) pm *= 1 + absl( s );
    scale += absl( cf ) * pm * ( m + 1 );
  }
  for ( int i = 0; i < n; ++i )
  {
    LD v = 0;
    for ( int m = d; m >= 0; --m ) v = v * ( x[i] - s ) + static_cast< LD >( c.r[static_cast< std::size_t >( m + 1 )] );
    got += w[i] * v;
  }
  near( "integral of a polynomial of degree " + str( d ), got, want, ( tx + tw ) * n * scale );
  ctx.nt( d >= n );   // beyond what any rule with these points integrates
  ctx.label( d >= n ? "degree only the Gauss rule integrates" : "lower degree" );
}

template< typename R, int N, template< typename, int > typename Q >
Points rule( Rule r )
{
  using T = Q< R, N >;
  static_assert( std::is_same_v< decltype( T::template weight< 0 >() ), R > );
  Points p{ r, N, ruleEps< R >( r ), exactPoints( r, N ), &coordRT< T >, &coordCT< T, N >, nullptr, &weightCT< T, N > };
  if constexpr ( N <= 5 ) p.weightRT = &weightRT< T >;
  return p;
}

template< typename R >
std::vector< std::pair< std::string, Points > > rules()
{
  std::vector< std::pair< std::string, Points > > v;
  staticFor< 3 >( [&]( auto k ) { constexpr int N = decltype(k)::value + 2; v.push_back( { "GaussLegendre" + std::to_string( N ), rule< R, N, shiva::QuadratureGaussLegendre >( Rule::legendre ) } ); } );
  staticFor< 8 >( [&]( auto k ) { constexpr int N = decltype(k)::value + 2; v.push_back( { "GaussLobatto" + std::to_string( N ), rule< R, N, shiva::QuadratureGaussLobatto >( Rule::lobatto ) } ); } );
  return v;
}

// tensor product of generated rules in two or three directions
static void runN( Ctx & ctx, Case const & c, std::vector< std::pair< std::string, Points > > const & rs )
{
  int const D = static_cast< int >( c.i[0] );
  Points const * q[3];
  std::vector< LD > x[3], w[3];
  int deg[3];
  LD tol = 0;
  for ( int d = 0; d < 3; ++d )
  {
    q[d] = &rs[static_cast< std::size_t >( c.i[1 + d] )].second;
    pw( *q[d], c.i[4 + d] != 0, x[d], w[d] );
    deg[d] = static_cast< int >( c.i[7 + d] ) % ( degree( *q[d] ) + 1 );
    if ( d < D ) tol += ( tableError( q[d]->rule, q[d]->n, false, q[d]->eps ) * ( deg[d] + 1 ) + tableError( q[d]->rule, q[d]->n, true, q[d]->eps ) ) * q[d]->n;
  }
  LD got = 0, want = 1, scale = 1;
  // product of shifted monomials, one per direction
  LD s[3];
  for ( int d = 0; d < D; ++d )
  {
    s[d] = static_cast< LD >( c.r[static_cast< std::size_t >( d )] );
    want *= monomial( deg[d], -1 - s[d], 1 - s[d] );
    for ( int e = 0; e < deg[d]; ++e ) scale *= 1 + absl( s[d] );
    scale *= 2;
  }
  for ( int i = 0; i < q[0]->n; ++i ) for ( int j = 0; j < q[1]->n; ++j ) for ( int k = 0; k < ( D == 3 ? q[2]->n : 1 ); ++k )
  {
    LD v = w[0][i] * w[1][j] * ( D == 3 ? w[2][k] : 1 );
    int const id[3] = { i, j, k };
    for ( int d = 0; d < D; ++d ) for ( int e = 0; e < deg[d]; ++e ) v *= x[d][id[d]] - s[d];
    got += v;
  }
  ctx.nt( c.i[1] != c.i[2] );
  ctx.label( D == 2 ? "square" : "cube" );
  near( "integral over a tensor product of rules", got, want, tol * scale );
}

template< typename R >
void all()
{
  auto const rs = rules< R >();
  for ( auto const & r : rs )
  {
    Points const q = r.second;
    Prop p;
    p.name = r.first + "<" + rname< R >() + ">";
    p.ints = { { 0, q.n - 1 }, { 0, 1 }, { 0, degree( q ) } };
    p.reals = cat( reals( 1, { 'u', -1, 1 } ), reals( degree( q ) + 1, { 'v', -2, 2 } ) );
    p.run = [q]( Ctx & ctx, Case const & c ) { run1( ctx, c, q ); };
    add( p );
  }
  Prop p;
  p.name = std::string( "tensor products of rules<" ) + rname< R >() + ">";
  std::int64_t const last = static_cast< std::int64_t >( rs.size() ) - 1;
  p.ints = { { 2, 3 }, { 0, last }, { 0, last }, { 0, last }, { 0, 1 }, { 0, 1 }, { 0, 1 }, { 0, 15 }, { 0, 15 }, { 0, 15 } };
  p.reals = reals( 3, { 'u', -1, 1 } );
  p.weight = 4;
  p.run = [rs]( Ctx & ctx, Case const & c ) { runN( ctx, c, rs ); };
  add( p );
}
static bool const registered = ( all< VH_REAL >(), true );
