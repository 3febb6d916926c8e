// C25: the same calls give the same results in every configuration. Loads one library per configuration (VH_LIBS) and
// compares what each evaluates on the same generated case.
#include "c25_api.hpp"
#include <dlfcn.h>
using namespace vh;

namespace
{
struct Lib { std::string name; std::vector< Entry > const * entries; };
std::vector< Lib > libs;

bool const registered = []
{
  char const * const env = std::getenv( "VH_LIBS" );
  if ( !env ) return false;
  std::string s = env;
  for ( std::size_t b = 0; b < s.size(); )
  {
    std::size_t e = s.find( ';', b );
    if ( e == std::string::npos ) e = s.size();
    std::string const item = s.substr( b, e - b );
    b = e + 1;
    auto const q = item.find( '=' );
    void * h = dlopen( item.substr( q + 1 ).c_str(), RTLD_NOW | RTLD_LOCAL );
    if ( !h ) { std::fprintf( stderr, "%s\n", dlerror() ); std::exit( 3 ); }
    auto fn = reinterpret_cast< std::vector< Entry > const * ( * )() >( dlsym( h, "vhEntries" ) );
    if ( !fn ) { std::fprintf( stderr, "%s\n", dlerror() ); std::exit( 3 ); }
    libs.push_back( { item.substr( 0, q ), fn() } );
  }
  // the libraries come in groups (parts of the source); those of one group have the same entries
  std::vector< std::string > names;
  for ( auto & l : libs ) for ( auto & e : *l.entries )
  {
    bool known = false;
    for ( auto & n : names ) known = known || n == e.name;
    if ( known ) continue;
    names.push_back( e.name );
    Prop p;
    p.name = e.name;
    p.ints = e.ints;
    p.reals = e.reals;
    p.tailMin = e.tailMin;
    p.tailMax = e.tailMax;
    p.tail = e.tail;
    std::string const name = e.name;
    std::vector< std::pair< std::string, void ( * )( Case const &, Out & ) > > evals;
    for ( auto & m : libs ) for ( auto & f : *m.entries ) if ( f.name == name ) evals.emplace_back( m.name, f.eval );
    p.run = [evals]( Ctx & ctx, Case const & c )
    {
      std::vector< Out > out( evals.size() );
      for ( std::size_t k = 0; k < evals.size(); ++k ) evals[k].second( c, out[k] );
      ok( evals.size() > 1, "two or more configurations" );
      auto const & a = out[0];
      ctx.nt( a.nontrivial );
      for ( std::size_t k = 1; k < evals.size(); ++k )
      {
        auto const & b = out[k];
        std::string const pair = evals[0].first + " and " + evals[k].first;
        for ( std::size_t j = 0; j < a.r.size() && j < b.r.size(); ++j )
        {
          auto const & x = a.r[j];
          auto const & y = b.r[j];
          std::string const at = std::string( x.what ) + " (result " + str( static_cast< std::int64_t >( j ) ) + ")";
          ok( std::string( x.what ) == y.what, "the results are of the same calls: " + at + " and " + y.what + " in " + pair );
          if ( x.exact ) { if ( x.n != y.n ) Ctx::fail( at + " is " + str( x.n ) + " and " + str( y.n ) + " in " + pair ); continue; }
          if ( x.v == y.v || ( x.v != x.v && y.v != y.v ) ) continue;
          if ( !( absl( x.v - y.v ) <= maxl( x.scale, y.scale ) ) )
          {
            Ctx::fail( at + " is " + fmt( x.v ) + " and " + fmt( y.v ) + " in " + pair + ", rounding " + fmt( x.scale ) );
          }
        }
        if ( a.r.size() != b.r.size() ) Ctx::fail( "number of results is " + str( static_cast< std::int64_t >( a.r.size() ) ) + " and " + str( static_cast< std::int64_t >( b.r.size() ) ) + " in " + pair );
      }
    };
    add( std::move( p ) );
  }
  return true;
}();
}
