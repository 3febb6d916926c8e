// C18: inverse and determinant of a 3x3 matrix (oracle: 128-bit arithmetic, and the product with the matrix)
#include "vh.hpp"
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/CArray.hpp"
using namespace vh;
using M3 = std::array< std::array< LD, 3 >, 3 >;

/// a matrix type of a user: column-major, with padding
template< typename R >
struct Columns
{
  using value_type = R;
  R d[3][5];
  R & operator()( int i, int j ) { return d[j][i]; }
  R const & operator()( int i, int j ) const { return d[j][i]; }
};

using Q = __float128;
static bool exact( M3 const & a, M3 & inv, LD & det )
{
  auto cof = [&]( int i, int j )
  {
    int const i1 = ( i + 1 ) % 3, i2 = ( i + 2 ) % 3, j1 = ( j + 1 ) % 3, j2 = ( j + 2 ) % 3;
    return static_cast< Q >( a[i1][j1] ) * static_cast< Q >( a[i2][j2] ) - static_cast< Q >( a[i1][j2] ) * static_cast< Q >( a[i2][j1] );
  };
  Q d = 0;
  for ( int j = 0; j < 3; ++j ) d += static_cast< Q >( a[2][j] ) * cof( 2, j );   // along the last row
  det = static_cast< LD >( d );
  if ( d == 0 ) return false;
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) inv[j][i] = static_cast< LD >( cof( i, j ) / d );
  return true;
}

/// bounds of the rounding errors of cofactors over determinant
struct Bound
{
  LD det;                  ///< error of the determinant
  LD inv[3][3];            ///< error of the entries of the inverse
  bool invertible = false; ///< the determinant is known to a tenth
};
static Bound boundOf( M3 const & a, LD det, LD e )
{
  Bound b;
  auto c = [&]( int i, int j ) { return absl( a[( i + 1 ) % 3][( j + 1 ) % 3] * a[( i + 2 ) % 3][( j + 2 ) % 3] ) + absl( a[( i + 1 ) % 3][( j + 2 ) % 3] * a[( i + 2 ) % 3][( j + 1 ) % 3] ); };
  LD perm = 0;
  for ( int i = 0; i < 3; ++i ) perm += absl( a[i][0] ) * c( i, 0 );
  b.det = 10 * e * perm;
  b.invertible = absl( det ) > 0 && b.det < 0.1L * absl( det );
  if ( !b.invertible ) return b;
  LD const rel = b.det / absl( det ) + 8 * e;
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) b.inv[i][j] = ( 4 * e + 1.3L * rel ) * c( j, i ) / absl( det );
  return b;
}

template< typename R >
static void invert( int kind, M3 const & a, M3 & out, LD & det )
{
  R d = static_cast< R >( -12345.5 );
  auto load = [&]( auto && at ) { for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) at( i, j ) = static_cast< R >( a[i][j] ); };
  auto store = [&]( auto && at ) { for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) out[i][j] = static_cast< LD >( at( i, j ) ); };
  if ( kind == 0 )
  {
    struct { R before[3]; R m[3][3]; R after[3]; } s;
    for ( int k = 0; k < 3; ++k ) { s.before[k] = R( 7 ); s.after[k] = R( 9 ); }
    auto at = [&]( int i, int j ) -> R & { return s.m[i][j]; };
    load( at );
    shiva::mathUtilities::inverse( s.m, d );
    store( at );
    for ( int k = 0; k < 3; ++k ) ok( s.before[k] == R( 7 ) && s.after[k] == R( 9 ), "nothing beside the matrix is written" );
  }
  else if ( kind == 1 )
  {
    struct { R before[3]; shiva::CArrayNd< R, 3, 3 > m; R after[3]; } s;
    for ( int k = 0; k < 3; ++k ) { s.before[k] = R( 7 ); s.after[k] = R( 9 ); }
    load( s.m );
    shiva::mathUtilities::inverse( s.m, d );
    store( s.m );
    for ( int k = 0; k < 3; ++k ) ok( s.before[k] == R( 7 ) && s.after[k] == R( 9 ), "nothing beside the matrix is written" );
  }
  else
  {
    Columns< R > m;
    for ( auto & x : m.d ) for ( auto & y : x ) y = R( 3 );
    load( m );
    shiva::mathUtilities::inverse( m, d );
    store( m );
    for ( auto & x : m.d ) ok( x[3] == R( 3 ) && x[4] == R( 3 ), "nothing beside the matrix is written" );
  }
  det = static_cast< LD >( d );
}

static char const * const shapeName[] = { "arbitrary", "scaled rows and columns", "near singular", "diagonal or permutation", "triangular", "rotation and stretch", "small integers" };

template< typename R >
static void run( Ctx & ctx, Case const & c )
{
  LD const e = eps< R >();
  M3 a;
  int const shape = static_cast< int >( c.i[0] ), kind = static_cast< int >( c.i[1] );
  auto r = [&]( int k ) { return static_cast< LD >( c.r[static_cast< std::size_t >( k )] ); };
  auto q = [&]( LD v ) { return static_cast< LD >( static_cast< R >( v ) ); };
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) a[i][j] = r( 3 * i + j );
  int const perms[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
  int const * pm = perms[c.i[2]];
  switch ( shape )
  {
    case 1: for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) a[i][j] *= std::pow( 10.0L, r( 9 + i ) * ( sizeof( R ) == 4 ? 2 : 20 ) + r( 12 + j ) * ( sizeof( R ) == 4 ? 2 : 20 ) ); break;
    case 2: for ( int j = 0; j < 3; ++j ) a[2][j] = a[0][j] * r( 9 ) + a[1][j] * r( 10 ) + r( 12 + j ) * ( sizeof( R ) == 4 ? 0.01L : 0.0001L ); break;
    case 3: for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) a[i][j] = pm[i] == j ? ( c.i[3] & 1 ? a[i][j] : 1 ) : 0; break;
    case 4: for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) if ( ( c.i[3] & 1 ) ? i < j : i > j ) a[i][j] = 0; break;
    case 5:
    {
      LD const t = r( 9 ) * 3, s = std::sin( t ), co = std::cos( t );
      M3 m{};
      for ( int i = 0; i < 3; ++i ) m[i][i] = std::pow( 10.0L, 2 * r( 12 + i ) );
      for ( int j = 0; j < 3; ++j ) { LD const x = m[pm[0]][j], y = m[pm[1]][j]; m[pm[0]][j] = co * x - s * y; m[pm[1]][j] = s * x + co * y; }
      a = m;
      break;
    }
    case 6: for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) a[i][j] = std::floor( a[i][j] * 4 ); break;
    default: break;
  }
  for ( auto & x : a ) for ( auto & y : x ) y = q( y );
  // all entries times a power of two, so far that the determinant is close to the ends of the type, if nothing on the way leaves it
  if ( int const s = static_cast< int >( c.i[4] ); s < -40 || s > 40 )
  {
    int const range = sizeof( R ) == 4 ? 115 : 1000;
    int const p = ( s < 0 ? s + 40 : s - 40 ) * ( range / 3 ) / 60;
    M3 b = a;
    for ( auto & x : b ) for ( auto & y : x ) y = std::ldexp( y, p );
    std::vector< LD > v;
    for ( auto & x : b ) for ( LD y : x ) if ( y != 0 ) v.push_back( absl( y ) );
    std::sort( v.begin(), v.end() );
    M3 inv; LD d;
    bool fits = !v.empty() && exact( b, inv, d );
    auto inside = [&]( LD x ) { return x == 0 || ( std::ilogb( x ) > -range && std::ilogb( x ) < range ); };
    if ( fits )
    {
      LD const lo = v.front(), hi = v.back();
      fits = inside( lo * lo * lo ) && inside( hi * hi * hi ) && inside( lo * lo ) && inside( hi * hi ) && inside( d ) && inside( 1 / d ) && inside( hi / d ) && inside( lo / d ) && inside( hi * hi / d ) && inside( lo * lo / d );
      for ( auto & x : inv ) for ( LD y : x ) fits = fits && inside( y );
    }
    if ( fits ) { a = b; ctx.label( p < 0 ? "tiny entries" : "huge entries" ); }
  }
  M3 want, got;
  LD det, gdet;
  if ( !exact( a, want, det ) ) { ctx.label( "singular" ); return; }
  Bound const b = boundOf( a, det, e );
  invert< R >( kind, a, got, gdet );
  near( "determinant", gdet, det, b.det + 1e-18L * absl( det ) );
  if ( !b.invertible ) { ctx.label( "singular up to rounding" ); return; }
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) near( "inverse " + str( i ) + str( j ), got[i][j], want[i][j], b.inv[i][j] );
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
  {
    LD v = 0, t = 0;
    for ( int k = 0; k < 3; ++k ) { v += a[i][k] * got[k][j]; t += absl( a[i][k] ) * ( b.inv[k][j] + 1e-18L * absl( got[k][j] ) ); }
    near( "matrix times inverse", v, i == j, t );
  }
  // the other kinds of matrices give the same
  for ( int k = 0; k < 3; ++k )
  {
    M3 o; LD od;
    invert< R >( k, a, o, od );
    near( "determinant for another kind of matrix", od, gdet, 2 * b.det );
    for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) near( "inverse for another kind of matrix", o[i][j], got[i][j], 2 * b.inv[i][j] );
  }
  // what the mathematics demands
  switch ( c.i[3] >> 1 )
  {
    case 0:  // transposed
    {
      M3 t, o; LD od;
      for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) t[i][j] = a[j][i];
      invert< R >( kind, t, o, od );
      near( "determinant of the transposed matrix", od, gdet, 2 * b.det );
      for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) near( "inverse of the transposed matrix", o[i][j], got[j][i], 2 * b.inv[j][i] );
      break;
    }
    case 1:  // scaled by a power of two
    {
      M3 t, o; LD od;
      for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) t[i][j] = -4 * a[i][j];
      invert< R >( kind, t, o, od );
      near( "determinant of the scaled matrix", od, -64 * gdet, 128 * b.det );
      for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) near( "inverse of the scaled matrix", -4 * o[i][j], got[i][j], 2 * b.inv[i][j] );
      break;
    }
    case 2:  // permuted rows
    {
      M3 t, o; LD od;
      for ( int i = 0; i < 3; ++i ) t[i] = a[pm[i]];
      LD const sign = ( c.i[2] == 0 || c.i[2] == 3 || c.i[2] == 4 ) ? 1 : -1;
      invert< R >( kind, t, o, od );
      near( "determinant of the matrix with permuted rows", od, sign * gdet, 2 * b.det );
      for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) near( "inverse of the matrix with permuted rows", o[i][j], got[i][pm[j]], 2 * b.inv[i][pm[j]] );
      break;
    }
    default: // inverted twice
    {
      M3 o; LD od;
      LD na = 0, ni = 0, d = 0;
      for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) { na = maxl( na, absl( a[i][j] ) ); ni = maxl( ni, absl( want[i][j] ) ); d = maxl( d, b.inv[i][j] ); }
      LD idet; M3 back;
      if ( !exact( got, back, idet ) ) break;
      Bound const b2 = boundOf( got, idet, e );
      if ( !b2.invertible || 9 * na * d > 0.1L ) break;
      invert< R >( kind, got, o, od );
      near( "product of the determinants", od * gdet, 1, 2 * ( b2.det / absl( idet ) + b.det / absl( det ) + absl( idet * det - 1 ) ) );
      for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) near( "matrix inverted twice", o[i][j], a[i][j], 12 * na * na * d + b2.inv[i][j] );
      ctx.label( "inverted twice" );
      break;
    }
  }
  int zero = 0;
  for ( auto & x : a ) for ( auto y : x ) zero += y == 0;
  ctx.nt( zero < 6 );
  ctx.label( shapeName[shape] );
}

template< typename R >
void all()
{
  Prop p;
  p.name = std::string( "inverse<" ) + rname< R >() + ">";
  p.ints = { { 0, 6 }, { 0, 2 }, { 0, 5 }, { 0, 7 }, { -100, 100 } };
  p.reals = cat( reals( 9, { 'v', -3, 3 } ), reals( 6, { 'u', -1, 1 } ) );
  p.run = []( Ctx & ctx, Case const & c ) { run< R >( ctx, c ); };
  p.weight = 4;
  add( p );
}
static bool const registered = ( all< double >(), all< float >(), all< long double >(), true );
