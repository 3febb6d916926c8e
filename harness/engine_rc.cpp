// rapidcheck engine: generates cases for every registered property, shrinks failures, writes a JSON report.
// With --replay NAME CASEFILE it runs one case without rapidcheck.
#include "engine_common.hpp"
#include <rapidcheck.h>
#include <ctime>
#include <map>
#include <set>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <iostream>

namespace vh { std::vector< Prop > & registry() { return registryStorage(); } }
using namespace vh;

static int const caseSeconds = 20;
/// C30: only the end of the process counts, what the harness finds about results does not
static bool const crashOnly = std::getenv( "VH_CRASH_ONLY" ) != nullptr;

static Case decode( Prop const & p, std::vector< std::uint64_t > const & raw, std::vector< std::uint64_t > const & tail )
{
  Case c;
  std::size_t k = 0;
  for ( auto d : p.ints ) c.i.push_back( decodeInt( d, raw[k++] ) );
  for ( auto d : p.reals ) c.r.push_back( decodeReal( d, raw[k++] ) );
  for ( auto t : tail ) { if ( static_cast< int >( c.tail.size() ) < p.tailMax ) c.tail.push_back( decodeInt( p.tail, t ) ); }
  while ( static_cast< int >( c.tail.size() ) < p.tailMin ) c.tail.push_back( p.tail.lo );
  return c;
}

int main( int argc, char ** argv )
{
  std::uint64_t seed = 1;
  double cases = 100;
  int shard = 0, nshards = 1;
  std::string out, cur, replayName, replayFile, only;
  bool list = false;
  for ( int a = 1; a < argc; ++a )
  {
    std::string s = argv[a];
    auto next = [&]() { return std::string( argv[++a] ); };
    if ( s == "--seed" ) seed = std::strtoull( next().c_str(), nullptr, 10 );
    else if ( s == "--cases" ) cases = std::strtod( next().c_str(), nullptr );
    else if ( s == "--shard" ) shard = std::atoi( next().c_str() );
    else if ( s == "--nshards" ) nshards = std::atoi( next().c_str() );
    else if ( s == "--out" ) out = next();
    else if ( s == "--cur" ) cur = next();
    else if ( s == "--only" ) only = next();
    else if ( s == "--list" ) list = true;
    else if ( s == "--replay" ) { replayName = next(); replayFile = next(); }
    else { std::fprintf( stderr, "unknown argument %s\n", s.c_str() ); return 3; }
  }

  if ( list ) { for ( auto & p : registry() ) std::puts( p.name.c_str() ); return 0; }

  if ( !replayFile.empty() )
  {
    std::ifstream f( replayFile );
    std::stringstream ss; ss << f.rdbuf();
    Case c;
    if ( !parseCase( ss.str(), c ) ) { std::fprintf( stderr, "bad case file\n" ); return 3; }
    for ( auto & p : registry() )
    {
      if ( p.name != replayName ) continue;
      Ctx ctx;
      watchdog( caseSeconds );
      try { p.run( ctx, c ); }
      catch ( Fail const & e ) { if ( crashOnly ) return 0; std::printf( "FAIL %s: %s\n", p.name.c_str(), e.msg.c_str() ); return 1; }
      std::printf( "PASS %s\n", p.name.c_str() );
      return 0;
    }
    std::fprintf( stderr, "no property %s\n", replayName.c_str() );
    return 3;
  }

  Current current;
  if ( !cur.empty() ) current.open( cur.c_str() );

  std::string failures;
  std::vector< std::string > samples;
  std::map< std::string, std::uint64_t > labels;
  std::unordered_set< std::uint64_t > distinct;
  std::uint64_t evals = 0, nontriv = 0, shrinkEvals = 0;
  int idx = -1, nprops = 0;
  int failedProps = 0;
  std::time_t firstFailure = 0;
  for ( auto & p : registry() )
  {
    ++idx;
    if ( failedProps >= 3 && std::time( nullptr ) - firstFailure > 60 ) break;   // enough is known
    if ( idx % nshards != shard ) continue;
    if ( !only.empty() && p.name != only ) continue;
    ++nprops;
    rc::detail::TestParams params;
    params.seed = seed * 0x9E3779B97F4A7C15ull ^ hashStr( p.name );
    double const n = cases * p.weight;
    params.maxSuccess = n < 1 ? 1 : static_cast< int >( n );
    params.maxSize = 100;
    rc::detail::TestMetadata md; md.id = p.name; md.description = p.name;

    auto const elem = rc::gen::resize( 100, rc::gen::inRange< std::uint64_t >( 0, std::uint64_t( 1 ) << rawBits ) );
    auto const head = rc::gen::container< std::vector< std::uint64_t > >( p.ints.size() + p.reals.size(), elem );
    // lengths up to twice the maximum are cut to it in decode: about half of the histories have full length
    auto const tail = p.tailMax == 0
                      ? rc::gen::just( std::vector< std::uint64_t >() )
                      : rc::gen::resize( 2 * p.tailMax, rc::gen::container< std::vector< std::uint64_t > >( elem ) );

    bool failed = false;
    Case failing; std::string failMsg;
    int propSamples = 0;
    auto result = rc::detail::checkTestable( [&]
    {
      auto const rawHead = *head;
      auto const rawTail = *tail;
      Case const c = decode( p, rawHead, rawTail );
      std::string const text = show( p, c );
      current.set( text );
      watchdog( caseSeconds );
      Ctx ctx;
      try
      {
        p.run( ctx, c );
      }
      catch ( Fail const & e )
      {
        if ( crashOnly ) { ++evals; return; }
        failed = true; failing = c; failMsg = e.msg;   // the last failure is the smallest
        RC_FAIL( e.msg );
      }
      if ( failed ) { ++shrinkEvals; return; }
      ++evals;
      for ( auto & l : ctx.labels ) ++labels[l];
      if ( ctx.nontrivial )
      {
        if ( distinct.insert( hashStr( text ) ).second ) ++nontriv;
        if ( propSamples == 0 && samples.size() < 40 ) { samples.push_back( showDecimal( p, c ) ); ++propSamples; }
      }
    }, md, params );
    if ( failed )
    {
      if ( failedProps++ == 0 ) firstFailure = std::time( nullptr );
      if ( !failures.empty() ) failures += ",";
      failures += "{\"prop\":\"" + jsonEsc( p.name ) + "\",\"case\":\"" + jsonEsc( show( p, failing ) ) + "\",\"pretty\":\"" + jsonEsc( showDecimal( p, failing ) ) + "\",\"msg\":\"" + jsonEsc( failMsg ) + "\"}";
    }
    else if ( !result.is< rc::detail::SuccessResult >() )
    {
      std::ostringstream os; rc::detail::printResultMessage( result, os );
      std::fprintf( stderr, "engine error in %s: %s\n", p.name.c_str(), os.str().c_str() );
      return 3;
    }
  }
  watchdog( 0 );
  current.set( "" );
  std::ofstream o( out );
  o << "{\"props\":" << nprops << ",\"evaluations\":" << evals << ",\"shrink_evaluations\":" << shrinkEvals << ",\"labels\":{";
  bool first = true;
  for ( auto & l : labels ) { o << ( first ? "" : "," ) << "\"" << jsonEsc( l.first ) << "\":" << l.second; first = false; }
  o << "},\"samples\":[";
  first = true;
  for ( auto & s : samples ) { o << ( first ? "" : "," ) << "\"" << jsonEsc( s ) << "\""; first = false; }
  o << "],\"failures\":[" << failures << "],\"hashes\":[";
  first = true;
  for ( auto h : distinct ) { o << ( first ? "" : "," ) << "\"" << std::hex << h << std::dec << "\""; first = false; }
  o << "]}\n";
  o.close();
  return failures.empty() ? 0 : 1;
}
