// C23: mappings agree with each other and with integrals over the cell
#include "geom_common.hpp"
#include "quad_common.hpp"
using namespace vh;

struct RuleInst { char const * name; bool legendre; int n; LD tableError; LD ( *coord )( int ); LD ( *weight )( int ); };

struct Inst
{
  LD eps;
  LD ( *round )( LD );
  TensorRef ref;
  std::vector< int > order;
  /// vertices -> at a coordinate: Jacobian, inverse, determinant
  void ( *at )( std::vector< LD > const &, LD const *, M3 &, M3 &, LD & );
  /// nodal values (row-major) -> value and gradient at a coordinate
  void ( *field )( std::vector< LD > const &, LD const *, LD &, LD * );
  void ( *scaling )( LD const *, LD *, LD *, LD & );
  void ( *uniform )( LD, LD &, LD &, LD & );
  std::vector< RuleInst > rules;
};

static LD ipow( LD x, int n ) { LD v = 1; for ( int k = 0; k < n; ++k ) v *= x; return v; }

static void run( Ctx & ctx, Case const & c, Inst const & in )
{
  int const V = in.ref.total();
  // a distorted box has all of its vertices moved, or one of them
  int const mode = c.i[0] == 4 ? 2 : static_cast< int >( c.i[0] );
  int const alone = c.i[0] == 4 ? static_cast< int >( c.i[3] ) % V : -1;   // 0: cube, 1: box, 2: distorted box, 3: linear cell
  std::size_t const f0 = 6, f1 = f0 + 6;            // lengths and corner, then distortions
  // lengths of every magnitude whose cubes stay normal numbers
  int const far = static_cast< int >( c.i[1] < 0 ? -c.i[1] : c.i[1] ) - 3;
  LD const scale = std::pow( 10.0L, far <= 0 ? static_cast< LD >( c.i[1] ) : static_cast< LD >( ( c.i[1] < 0 ? -1 : 1 ) * ( 3 + far * ( in.eps > 1e-10L ? 5 : 48 ) / 9 ) ) );
  if ( far > 0 ) ctx.label( c.i[1] < 0 ? "very small lengths" : "very large lengths" );
  LD h[3], x0[3];
  for ( int i = 0; i < 3; ++i ) { h[i] = in.round( scale * c.r[f0 + static_cast< std::size_t >( mode == 0 ? 0 : i )] ); x0[i] = scale * c.r[f0 + 3 + static_cast< std::size_t >( i )]; }
  LD const sh[3][3] = { { 1, 0.2L * c.r[f1], 0.1L * c.r[f1 + 1] }, { 0.15L * c.r[f1 + 2], 1, -0.1L * c.r[f1 + 3] }, { -0.1L * c.r[f1 + 4], 0.2L * c.r[f1 + 5], 1 } };
  std::vector< LD > X( static_cast< std::size_t >( 3 * V ) );
  LD maxX = 0, maxH = maxl( h[0], maxl( h[1], h[2] ) );
  std::vector< std::vector< LD > > comp( 3, std::vector< LD >( static_cast< std::size_t >( V ) ) );
  for ( int v = 0; v < V; ++v )
  {
    auto const idx = in.ref.digits( v );
    LD p[3];
    for ( int d = 0; d < 3; ++d ) p[d] = h[d] / 2 * in.ref.nodes[static_cast< std::size_t >( d )][static_cast< std::size_t >( idx[static_cast< std::size_t >( d )] )];
    for ( int i = 0; i < 3; ++i )
    {
      LD x = p[i];
      if ( mode == 3 ) { x = 0; for ( int k = 0; k < 3; ++k ) x += sh[i][k] * p[k]; }
      if ( mode == 2 && ( alone < 0 || alone == v ) ) { LD const q = c.r[f1 + static_cast< std::size_t >( 3 * v + i )]; x += 0.05L * h[i] * ( q > 1 ? 1 : q < -1 ? -1 : q ); }
      x = in.round( x + x0[i] );
      X[static_cast< std::size_t >( 3 * v + i )] = comp[static_cast< std::size_t >( i )][static_cast< std::size_t >( v )] = x;
      maxX = maxl( maxX, absl( x ) );
    }
  }
  LD const T = maxX;   // rounding of the vertices counts
  std::vector< LD > const t = coordOf( c, 4, 0, in.ref, in.round );
  M3 J, inv;
  LD det;
  in.at( X, t.data(), J, inv, det );
  LD const vol = h[0] * h[1] * h[2];
  LD gs[3], amp = 0;
  for ( int d = 0; d < 3; ++d ) { gs[d] = 60 * in.eps * in.ref.points() * in.ref.gradientScale( t, d ) * T; amp = maxl( amp, gs[d] / h[d] ); }
  LD const minH = h[0] < h[1] ? ( h[0] < h[2] ? h[0] : h[2] ) : ( h[1] < h[2] ? h[1] : h[2] );
  LD const relJ = maxl( gs[0], maxl( gs[1], gs[2] ) ) / minH;   // error of the Jacobian over the smallest length
  if ( mode <= 1 )
  {
    LD dj[3], di[3], dd;
    in.scaling( h, dj, di, dd );
    for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
    {
      near( "Jacobian of transform and scaling " + str( i ) + str( j ), J[i][j], i == j ? dj[i] : 0, gs[j] );
      if ( relJ < 0.01L ) near( "inverse of transform and scaling " + str( i ) + str( j ), inv[i][j], i == j ? di[i] : 0, 20 * relJ * 2 / minH );
    }
    if ( relJ < 0.01L ) near( "determinant of transform and scaling", det, dd, 20 * relJ * vol / 8 + 8 * in.eps * absl( dd ) );
    if ( mode == 0 )
    {
      LD uj, ui, ud;
      in.uniform( h[0], uj, ui, ud );
      for ( int i = 0; i < 3; ++i )
      {
        near( "Jacobian of scaling and uniform scaling", dj[i], uj, 4 * in.eps * uj );
        near( "inverse of scaling and uniform scaling", di[i], ui, 4 * in.eps * ui );
        near( "Jacobian of transform and uniform scaling", J[i][i], uj, gs[i] );
      }
      near( "determinant of scaling and uniform scaling", dd, ud, 12 * in.eps * ud );
      ctx.label( "three mappings" );
    }
    else ctx.label( "two mappings" );
  }
  // gradients in physical space of a linear field
  LD cond = 0;
  for ( auto & r : inv ) for ( auto y : r ) cond = maxl( cond, absl( y ) );
  LD const ej = 3 * maxl( gs[0], maxl( gs[1], gs[2] ) );
  if ( relJ < 0.01L && cond * ej < 0.01L )
  {
    LD const k[3] = { static_cast< LD >( c.r[f0 + 3] ), static_cast< LD >( c.r[f0 + 4] ) - 0.5L, 0.75L };
    std::vector< LD > u( static_cast< std::size_t >( V ) );
    LD mu = 0;
    for ( int v = 0; v < V; ++v ) { LD s = scale / 4; for ( int i = 0; i < 3; ++i ) s += k[i] * X[static_cast< std::size_t >( 3 * v + i )]; u[static_cast< std::size_t >( v )] = in.round( s ); mu = maxl( mu, absl( s ) ); }
    LD val, g[3];
    in.field( u, t.data(), val, g );
    for ( int i = 0; i < 3; ++i )
    {
      LD s = 0, tol = 0, mk = absl( k[0] ) + absl( k[1] ) + absl( k[2] );
      for ( int j = 0; j < 3; ++j )
      {
        s += inv[j][i] * g[j];
        tol += 3 * cond * ( 100 * in.eps * in.ref.points() * in.ref.gradientScale( t, j ) * mu + mk * ej ) + 12 * cond * cond * ej * absl( g[j] );
      }
      if ( tol < 0.05L * ( 1 + mk ) ) near( "gradient of a linear field in physical space, component " + str( i ), s, k[i], tol );
      else ctx.label( "gradient not determined" );
    }
    ctx.label( "gradient of a linear field" );
  }
  // integrals over the cell
  auto const & rule = in.rules[static_cast< std::size_t >( c.i[2] ) % in.rules.size()];
  int const exact = rule.legendre ? 2 * rule.n - 1 : 2 * rule.n - 3;
  int need = 0;
  for ( int d = 0; d < 3; ++d ) need = std::max( need, 3 * in.order[static_cast< std::size_t >( d )] - 1 );
  bool const straight = mode != 2;
  int e[3] = { 0, 0, 0 };
  if ( mode <= 1 )
  {
    // on a box the determinant is constant and coordinates are linear, up to rounding
    std::int64_t q = c.i[3];
    for ( int d = 0; d < 3; ++d ) { e[d] = static_cast< int >( q % std::min( exact + 1, 4 ) ); q /= 4; }
  }
  if ( straight || need <= exact )
  {
    LD sum = 0, sumAbs = 0;
    LD gmax = 0;
    std::vector< LD > pt( 3 );
    for ( int a = 0; a < rule.n; ++a ) for ( int b = 0; b < rule.n; ++b ) for ( int d = 0; d < rule.n; ++d )
    {
      pt = { rule.coord( a ), rule.coord( b ), rule.coord( d ) };
      M3 Jp, ip; LD dp;
      in.at( X, pt.data(), Jp, ip, dp );
      LD f = 1, fa = 1;
      for ( int i = 0; i < 3; ++i )
      {
        if ( e[i] == 0 ) continue;
        LD val, g[3];
        in.field( comp[static_cast< std::size_t >( i )], pt.data(), val, g );
        f *= ipow( val / scale, e[i] );
        fa *= ipow( maxX / scale, e[i] );
      }
      LD const w = rule.weight( a ) * rule.weight( b ) * rule.weight( d );
      sum += w * dp * f;
      sumAbs += w * absl( dp ) * fa;
      for ( int k = 0; k < 3; ++k ) gmax = maxl( gmax, 60 * in.eps * in.ref.points() * in.ref.gradientScale( pt, k ) * T / minH );
    }
    LD want = 0;
    if ( mode <= 1 )
    {
      want = 1;
      for ( int i = 0; i < 3; ++i ) { LD const lo = ( x0[i] - h[i] / 2 ) / scale, hi = ( x0[i] + h[i] / 2 ) / scale; want *= ( ipow( hi, e[i] + 1 ) - ipow( lo, e[i] + 1 ) ) / ( e[i] + 1 ) * scale; }
    }
    else if ( mode == 3 )
    {
      want = vol * ( sh[0][0] * ( sh[1][1] * sh[2][2] - sh[1][2] * sh[2][1] ) - sh[0][1] * ( sh[1][0] * sh[2][2] - sh[1][2] * sh[2][0] ) + sh[0][2] * ( sh[1][0] * sh[2][1] - sh[1][1] * sh[2][0] ) );
    }
    else
    {
      // a Gauss rule with more points, in long double
      static std::vector< LD > const x = exactPoints( Rule::legendre, 5 );
      static std::vector< LD > const w = [] { std::vector< LD > r; for ( LD y : exactPoints( Rule::legendre, 5 ) ) r.push_back( exactWeight( Rule::legendre, 5, y ) ); return r; }();
      for ( int a = 0; a < 5; ++a ) for ( int b = 0; b < 5; ++b ) for ( int d = 0; d < 5; ++d )
      {
        std::vector< LD > const q{ x[static_cast< std::size_t >( a )], x[static_cast< std::size_t >( b )], x[static_cast< std::size_t >( d )] };
        LD m[3][3] = {};
        for ( int v = 0; v < V; ++v ) for ( int j = 0; j < 3; ++j )
        {
          LD const g = in.ref.gradient( in.ref.digits( v ), q, j );
          for ( int i = 0; i < 3; ++i ) m[i][j] += g * X[static_cast< std::size_t >( 3 * v + i )];
        }
        want += w[static_cast< std::size_t >( a )] * w[static_cast< std::size_t >( b )] * w[static_cast< std::size_t >( d )] * ( m[0][0] * ( m[1][1] * m[2][2] - m[1][2] * m[2][1] ) - m[0][1] * ( m[1][0] * m[2][2] - m[1][2] * m[2][0] ) + m[0][2] * ( m[1][0] * m[2][1] - m[1][1] * m[2][0] ) );
      }
    }
    // errors: determinant, values, weights and points of the rule
    LD const tol = ( maxH / minH ) * ( 40 * gmax + 100 * in.eps + 40 * rule.tableError ) * maxl( sumAbs, vol );
    near( mode <= 1 && e[0] + e[1] + e[2] > 0 ? "integral of a polynomial over the cell" : "volume of the cell", sum, want, tol );
    ctx.label( e[0] + e[1] + e[2] > 0 ? "integral of a polynomial" : "volume" );
    if ( tol > 0.02L * maxl( sumAbs, vol ) ) ctx.label( "integral with large rounding" );
  }
  ctx.nt( mode > 0 && !( h[0] == h[1] && h[1] == h[2] ) );
}

template< typename R, typename ... B >
struct Of
{
  using T = TransformOf< R, R, B... >;
  using PE = shiva::discretizations::finiteElementMethod::ParentElement< R, geo::NCube< R, 3, -1, 1, 1 >, B... >;
  static constexpr int V = ( B::numSupportPoints * ... );
  static void at( std::vector< LD > const & X, LD const * t, M3 & J, M3 & inv, LD & det )
  {
    T x;
    for ( int k = 0; k < 3 * V; ++k ) x.getData().data()[k] = static_cast< R >( X[static_cast< std::size_t >( k )] );
    R const c[3] = { static_cast< R >( t[0] ), static_cast< R >( t[1] ), static_cast< R >( t[2] ) };
    auto const j = gu::jacobian( x, c );
    auto const [d, i] = gu::inverseJacobian( x, c );
    det = d;
    for ( int a = 0; a < 3; ++a ) for ( int b = 0; b < 3; ++b ) { J[a][b] = j( a, b ); inv[a][b] = i( a, b ); }
  }
  static void field( std::vector< LD > const & u, LD const * t, LD & v, LD * g )
  {
    shiva::CArrayNd< R, B::numSupportPoints... > a{};
    for ( int k = 0; k < V; ++k ) a.data()[k] = static_cast< R >( u[static_cast< std::size_t >( k )] );
    R const c[3] = { static_cast< R >( t[0] ), static_cast< R >( t[1] ), static_cast< R >( t[2] ) };
    v = PE::value( c, a );
    auto const r = PE::gradient( c, a );
    for ( int d = 0; d < 3; ++d ) g[d] = r( d );
  }
  static void scaling( LD const * h, LD * J, LD * inv, LD & det )
  {
    geo::Scaling< R > x;
    R const l[3] = { static_cast< R >( h[0] ), static_cast< R >( h[1] ), static_cast< R >( h[2] ) };
    x.setData( l );
    auto const j = gu::jacobian( x );
    auto const [d, i] = gu::inverseJacobian( x );
    det = d;
    for ( int k = 0; k < 3; ++k ) { J[k] = j( k ); inv[k] = i( k ); }
  }
  static void uniform( LD h, LD & J, LD & inv, LD & det )
  {
    geo::UniformScaling< R > x;
    x.setData( static_cast< R >( h ) );
    J = gu::jacobian( x )( 0 );
    auto const [d, i] = gu::inverseJacobian( x );
    det = d;
    inv = i( 0 );
  }
};

template< typename Q, int N >
RuleInst rule( char const * name, bool legendre, LD eps ) { return { name, legendre, N, tableError( legendre ? Rule::legendre : Rule::lobatto, N, true, maxl( eps, 0x1p-52L ) ), &coordRT< Q >, &weightRT< Q > }; }

template< typename R, typename ... B >
void inst( char const * name )
{
  using O = Of< R, B... >;
  Inst in;
  in.eps = eps< R >();
  in.round = &roundTo< R >;
  ( in.ref.nodes.push_back( nodesOf< B >() ), ... );
  in.order = { B::numSupportPoints - 1 ... };
  in.at = &O::at; in.field = &O::field; in.scaling = &O::scaling; in.uniform = &O::uniform;
  in.rules = { rule< shiva::QuadratureGaussLegendre< R, 2 >, 2 >( "Gauss-Legendre 2", true, in.eps ), rule< shiva::QuadratureGaussLegendre< R, 3 >, 3 >( "Gauss-Legendre 3", true, in.eps ), rule< shiva::QuadratureGaussLegendre< R, 4 >, 4 >( "Gauss-Legendre 4", true, in.eps ),
               rule< shiva::QuadratureGaussLobatto< R, 3 >, 3 >( "Gauss-Lobatto 3", false, in.eps ), rule< shiva::QuadratureGaussLobatto< R, 4 >, 4 >( "Gauss-Lobatto 4", false, in.eps ), rule< shiva::QuadratureGaussLobatto< R, 5 >, 5 >( "Gauss-Lobatto 5", false, in.eps ) };
  Prop p;
  p.name = std::string( "Cell<" ) + rname< R >() + "," + name + ">";
  p.ints = cat( std::vector< IDom >{ { 0, 4 }, { -12, 12 }, { 0, 5 }, { 0, 63 } }, coordInts( 3 ) );
  p.reals = cat( cat( coordReals( 3 ), cat( reals( 3, { 'u', 0.25, 4 } ), reals( 3, { 'u', -1, 1 } ) ) ), reals( 3 * in.ref.total(), { 'u', -1, 1 } ) );
  p.run = [in]( Ctx & ctx, Case const & c ) { run( ctx, c, in ); };
  add( p );
}

template< typename R >
void all()
{
  using E1 = LagrangeBasis< R, 1, EqualSpacing >;
  using L2 = LagrangeBasis< R, 2, GaussLobattoSpacing >;
  using G1 = LagrangeBasis< R, 1, GaussLegendreSpacing >;
  using A1 = LagrangeBasis< R, 1, CustomA >;
  using E2 = LagrangeBasis< R, 2, EqualSpacing >;
  inst< R, E1, E1, E1 >( "E1,E1,E1" );
  inst< R, E1, L2, G1 >( "E1,L2,G1" );
  inst< R, A1, E1, E1 >( "A1,E1,E1" );
  inst< R, E2, E1, L2 >( "E2,E1,L2" );
}
static bool const registered = ( all< VH_REAL >(), true );
