// C22: scaling mappings have the Jacobian of their scale (model: three lengths per mapping)
#include "vh.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
using namespace vh;
namespace geo = shiva::geometry;
namespace gu = shiva::geometry::utilities;

template< typename R, bool UNIFORM >
struct Stateful
{
  using T = std::conditional_t< UNIFORM, geo::UniformScaling< R >, geo::Scaling< R > >;
  using J = typename T::JacobianType;
  static constexpr int n = UNIFORM ? 1 : 3;
  static R length( T const & t, int k ) { if constexpr ( UNIFORM ) { (void) k; return t.getData(); } else return t.getData()[k]; }

  static void check( T const & t, R const * h, int how )
  {
    LD const e = eps< R >();
    for ( int k = 0; k < n; ++k ) ok( length( t, k ) == h[k], "the length is the one that was set" );
    J j, inv;
    for ( int k = 0; k < n; ++k ) { j( k ) = how & 1 ? R( 99 ) : std::numeric_limits< R >::quiet_NaN(); inv( k ) = j( k ); }
    R det = how & 2 ? R( 3 ) : std::numeric_limits< R >::quiet_NaN();
    if ( how & 4 ) { gu::jacobian( t, j ); gu::inverseJacobian( t, inv, det ); }
    else { j = gu::jacobian( t ); auto const r = gu::inverseJacobian( t ); det = std::get< 0 >( r ); inv = std::get< 1 >( r ); }
    LD want = 1;
    for ( int k = 0; k < 3; ++k ) want *= static_cast< LD >( h[UNIFORM ? 0 : k] ) / 2;
    for ( int k = 0; k < n; ++k )
    {
      near( "Jacobian entry " + str( k ), j( k ), static_cast< LD >( h[k] ) / 2, 2 * e * static_cast< LD >( h[k] ) );
      near( "inverse entry " + str( k ), inv( k ), 2 / static_cast< LD >( h[k] ), 4 * e * 2 / static_cast< LD >( h[k] ) );
    }
    near( "determinant", det, want, 8 * e * want );
    for ( int k = 0; k < n; ++k ) ok( length( t, k ) == h[k], "computing does not change the length" );
  }

  static void run( Ctx & ctx, Case const & c )
  {
    static constexpr int M = 3;
    T t[M];
    R h[M][3];
    auto one = [&]( int m ) { for ( int k = 0; k < 3; ++k ) h[m][k] = R( 1 ); };
    for ( int m = 0; m < M; ++m ) { one( m ); check( t[m], h[m], m ); }
    std::uint64_t salt = 1;
    auto len = [&]( int q ) { salt = salt * 6364136223846793005ull + 1442695040888963407ull; double const b = c.r[static_cast< std::size_t >( q % 6 )]; return static_cast< R >( b * ( 1 + static_cast< double >( salt >> 58 ) / 8 ) ); };
    int kinds = 0;
    unsigned used = 0;
    for ( auto w : c.tail )
    {
      std::uint64_t u = static_cast< std::uint64_t >( w );
      auto take = [&]( std::uint64_t r ) { int const x = static_cast< int >( u % r ); u /= r; return x; };
      int const o = take( 7 ), m = take( M ), s = take( M ), k = take( n ), q = take( 6 ), how = take( 8 );
      salt ^= static_cast< std::uint64_t >( w ) << 20;
      if ( !( used >> o & 1 ) ) { used |= 1u << o; ++kinds; }
      switch ( o )
      {
        case 0: case 1:   // all lengths from an array or a value
        {
          R x[3] = { len( q ), len( q + 1 ), len( q + 2 ) };
          if ( o == 1 && !UNIFORM ) x[1] = x[2] = x[0];
          R const before[3] = { x[0], x[1], x[2] };
          if constexpr ( UNIFORM ) { if ( how & 1 ) t[m].setData( x[0] ); else { R const cx = x[0]; t[m].setData( cx ); } }
          else t[m].setData( x );
          for ( int d = 0; d < 3; ++d ) { ok( x[d] == before[d], "the source is not changed" ); h[m][d] = x[UNIFORM ? 0 : d]; x[d] = R( -1 ); }
          break;
        }
        case 2:           // one length through the access that can be written to
        {
          R const x = len( q );
          if constexpr ( UNIFORM ) { t[m].setData() = x; h[m][0] = x; }
          else { t[m].setData()[k] = x; h[m][k] = x; }
          break;
        }
        case 3: t[m] = t[s]; for ( int d = 0; d < 3; ++d ) h[m][d] = h[s][d]; break;
        case 4: { T y( t[m] ); if constexpr ( UNIFORM ) y.setData( R( 17 ) ); else y.setData()[k] = R( 17 ); break; }
        case 5: t[m] = T{}; one( m ); break;
        default: { R big[3] = { len( q ), len( q + 3 ), len( q + 5 ) }; T y; if constexpr ( UNIFORM ) { y.setData( big[0] ); } else y.setData( big ); t[m] = y; for ( int d = 0; d < 3; ++d ) h[m][d] = big[UNIFORM ? 0 : d]; break; }
      }
      for ( int a = 0; a < M; ++a ) check( t[a], h[a], how );
    }
    bool differ = UNIFORM;
    for ( int m = 0; m < M; ++m ) differ = differ || h[m][0] != h[m][1] || h[m][1] != h[m][2];
    ctx.nt( kinds >= 1 && differ );
    ctx.label( kinds >= 3 ? "three or more kinds of operation" : "fewer kinds" );
  }
};

template< typename R, bool UNIFORM >
void inst()
{
  Prop p;
  p.name = std::string( UNIFORM ? "UniformScaling<" : "Scaling<" ) + rname< R >() + ">";
  double const w = sizeof( R ) == 4 ? 6 : 60;
  p.reals = cat( reals( 3, { 'p', -w, w } ), reals( 3, { 'p', -2, 2 } ) );
  p.tailMin = 1;
  p.tailMax = 8;
  p.tail = { 0, 7 * 3 * 3 * 3 * 6 * 8 - 1 };
  p.run = []( Ctx & ctx, Case const & c ) { Stateful< R, UNIFORM >::run( ctx, c ); };
  add( p );
}
static bool const registered = ( inst< double, true >(), inst< float, true >(), inst< double, false >(), inst< float, false >(), inst< long double, true >(), inst< long double, false >(), true );
