// C30: the calls of c25.cpp on generated arguments, in a program built with sanitizers. What they give is checked elsewhere; here a report
// of a sanitizer, which ends the process, is the failure. Built as a generated-case harness, or (VH_FUZZ) as a coverage guided fuzz target.
#include "c25_api.hpp"
#if defined( __has_feature )
#if __has_feature( memory_sanitizer )
#include <sanitizer/msan_interface.h>
#define VH_MSAN
#endif
#endif
using namespace vh;

extern "C" std::vector< Entry > const * vhEntries0();
extern "C" std::vector< Entry > const * vhEntries1();
extern "C" std::vector< Entry > const * vhEntries2();
extern "C" std::vector< Entry > const * vhEntries3();

namespace
{
std::vector< std::vector< Entry > const * > groups() { return { vhEntries0(), vhEntries1(), vhEntries2(), vhEntries3() }; }

bool runEntry( Entry const & e, Case const & c )
{
  Out o;
  e.eval( c, o );
#ifdef VH_MSAN
  for ( auto const & r : o.r )
  {
    if ( r.exact ) __msan_check_mem_is_initialized( &r.n, sizeof r.n );
    else __msan_check_mem_is_initialized( &r.v, 10 );    // the value bytes of an x87 number
  }
#endif
  return o.nontrivial;
}
}

#ifndef VH_FUZZ
namespace
{
bool const registered = []
{
  for ( auto g : groups() ) for ( auto & e : *g )
  {
    Prop p;
    p.name = e.name; p.ints = e.ints; p.reals = e.reals; p.tailMin = e.tailMin; p.tailMax = e.tailMax; p.tail = e.tail;
    Entry const * const ep = &e;
    p.run = [ep]( Ctx & ctx, Case const & c ) { ctx.nt( runEntry( *ep, c ) ); };
    add( std::move( p ) );
  }
  return true;
}();
}
#else
#include "engine_common.hpp"
// input: entry (2 bytes), then five bytes (rawBits) per number, the rest is the history
namespace
{
std::vector< Entry const * > const & entries()
{
  static std::vector< Entry const * > const all = [] { std::vector< Entry const * > v; for ( auto g : groups() ) for ( auto & e : *g ) v.push_back( &e ); return v; }();
  return all;
}
struct Counters { std::uint64_t cases = 0, nontrivial = 0; } counters;
std::vector< std::uint64_t > perEntry;
}
extern "C" int LLVMFuzzerTestOneInput( std::uint8_t const * data, std::size_t size )
{
  auto raw = [&]
  {
    std::uint64_t v = 0;
    for ( int k = 0; k < 5; ++k ) { v <<= 8; if ( size ) { v |= *data++; --size; } }
    return v;
  };
  if ( size < 2 ) return 0;
  auto const & all = entries();
  if ( perEntry.empty() ) perEntry.resize( all.size() );
  std::size_t const k = ( data[0] * 256u + data[1] ) % all.size();
  data += 2; size -= 2;
  Entry const & e = *all[k];
  Case c;
  for ( auto d : e.ints ) c.i.push_back( decodeInt( d, raw() ) );
  for ( auto d : e.reals ) c.r.push_back( decodeReal( d, raw() ) );
  while ( static_cast< int >( c.tail.size() ) < e.tailMax && ( size || static_cast< int >( c.tail.size() ) < e.tailMin ) ) c.tail.push_back( decodeInt( e.tail, raw() ) );
  ++counters.cases;
  if ( runEntry( e, c ) ) { ++counters.nontrivial; ++perEntry[k]; }
  return 0;
}
#ifdef __clang__
extern "C" int LLVMFuzzerInitialize( int *, char *** )
{
  std::atexit( []
  {
    std::size_t used = 0;
    for ( auto n : perEntry ) used += n > 0;
    std::fprintf( stderr, "COUNTS cases=%llu nontrivial=%llu entries=%zu of %zu\n", static_cast< unsigned long long >( counters.cases ),
                  static_cast< unsigned long long >( counters.nontrivial ), used, perEntry.size() );
  } );
  return 0;
}
#endif
#endif
