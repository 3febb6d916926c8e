// Decoding of raw numbers into cases, the text form of cases, and running of one case under a watchdog.
#pragma once
#include "vh.hpp"
#include <csignal>
#include <cinttypes>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace vh
{
inline std::vector< Prop > & registryStorage() { static std::vector< Prop > r; return r; }

constexpr int rawBits = 40;

inline std::int64_t decodeInt( IDom d, std::uint64_t raw )
{
  // monotonic: a smaller raw gives a value nearer to lo
  __int128 const n = static_cast< __int128 >( d.hi ) - d.lo + 1;
  return static_cast< std::int64_t >( d.lo + static_cast< __int128 >( raw ) * n / ( static_cast< __int128 >( 1 ) << rawBits ) );
}

inline double decodeReal( RDom d, std::uint64_t raw )
{
  int const mode = static_cast< int >( raw >> ( rawBits - 4 ) );
  std::uint64_t const k = raw & ( ( std::uint64_t( 1 ) << ( rawBits - 4 ) ) - 1 );
  double const u = static_cast< double >( k ) / static_cast< double >( std::uint64_t( 1 ) << ( rawBits - 4 ) ); // [0,1)
  auto zig = []( std::uint64_t v ) { return ( v & 1 ) ? -static_cast< double >( ( v + 1 ) / 2 ) : static_cast< double >( v / 2 ); };
  switch ( d.kind )
  {
    case 'u':
    {
      double const mid = 0.5 * ( d.a + d.b ), h = 0.5 * ( d.b - d.a );
      if ( mode == 0 ) return mid + h * zig( static_cast< std::uint64_t >( u * 17 ) ) / 8;    // ends, middle and eighths
      if ( mode == 1 ) return mid + h * zig( static_cast< std::uint64_t >( u * 4097 ) ) / 2048;
      if ( mode == 2 ) return mid + h * ( ( k & 1 ) ? -1 : 1 ) * std::pow( 10.0, -u * 12 );    // near the middle
      if ( mode == 3 ) return ( k & 1 ) ? d.a + h * std::pow( 10.0, -u * 12 ) : d.b - h * std::pow( 10.0, -u * 12 ); // near an end
      return d.a + ( d.b - d.a ) * u;
    }
    case 's':
    case 'p':
    {
      double const s = ( d.kind == 's' && ( k & 1 ) ) ? -1 : 1;
      if ( mode < 3 && d.a <= 0 && d.b >= 0 )
      {
        double const v = 1 + static_cast< double >( static_cast< std::uint64_t >( u * 9 ) ); // 1 .. 9
        if ( v <= std::pow( 10.0, d.b ) ) return s * v;
      }
      return s * std::pow( 10.0, d.a + ( d.b - d.a ) * u );
    }
    case 'v':
    default:
    {
      if ( mode < 6 ) return zig( static_cast< std::uint64_t >( u * 21 ) );
      if ( mode < 11 ) return 2 * u - 1;
      return ( ( k & 1 ) ? -1 : 1 ) * std::pow( 10.0, d.a + ( d.b - d.a ) * u );
    }
  }
}

inline std::string show( Prop const & p, Case const & c )
{
  std::string s = p.name + " i=[";
  for ( auto v : c.i ) s += str( v ) + " ";
  s += "] r=[";
  for ( auto v : c.r ) { char b[64]; std::snprintf( b, sizeof b, "%a ", v ); s += b; }
  s += "] t=[";
  for ( auto v : c.tail ) s += str( v ) + " ";
  return s + "]";
}

inline std::string showDecimal( Prop const & p, Case const & c )
{
  std::string s = p.name + " ints=";
  for ( auto v : c.i ) s += str( v ) + ",";
  s += " reals=";
  for ( auto v : c.r ) { char b[64]; std::snprintf( b, sizeof b, "%.6g,", v ); s += b; }
  if ( p.tailMax ) { s += " ops="; for ( auto v : c.tail ) s += str( v ) + ","; }
  return s;
}

/// parses the part after the name
inline bool parseCase( std::string const & t, Case & c )
{
  auto sect = [&]( char const * tag, std::string & out )
  {
    auto b = t.find( tag );
    if ( b == std::string::npos ) return false;
    b += std::strlen( tag );
    auto e = t.find( ']', b );
    if ( e == std::string::npos ) return false;
    out = t.substr( b, e - b );
    return true;
  };
  std::string s;
  auto words = []( std::string const & x )
  {
    std::vector< std::string > w; std::string cur;
    for ( char ch : x ) { if ( ch == ' ' ) { if ( !cur.empty() ) w.push_back( cur ); cur.clear(); } else cur += ch; }
    if ( !cur.empty() ) w.push_back( cur );
    return w;
  };
  if ( !sect( "i=[", s ) ) return false;
  for ( auto & w : words( s ) ) c.i.push_back( std::strtoll( w.c_str(), nullptr, 10 ) );
  if ( !sect( "r=[", s ) ) return false;
  for ( auto & w : words( s ) ) c.r.push_back( std::strtod( w.c_str(), nullptr ) );
  if ( !sect( "t=[", s ) ) return false;
  for ( auto & w : words( s ) ) c.tail.push_back( std::strtoll( w.c_str(), nullptr, 10 ) );
  return true;
}

inline std::uint64_t hashStr( std::string const & s )
{
  std::uint64_t h = 1469598103934665603ull;
  for ( unsigned char ch : s ) { h ^= ch; h *= 1099511628211ull; }
  return h;
}

inline std::string jsonEsc( std::string const & s )
{
  std::string o;
  for ( unsigned char ch : s )
  {
    if ( ch == '"' || ch == '\\' ) { o += '\\'; o += static_cast< char >( ch ); }
    else if ( ch < 32 ) { char b[8]; std::snprintf( b, sizeof b, "\\u%04x", ch ); o += b; }
    else o += static_cast< char >( ch );
  }
  return o;
}

/// a file that always holds the case that is being run, so that it is known after a crash
struct Current
{
  char * map = nullptr;
  std::size_t size = 1 << 16;
  void open( char const * path )
  {
    int fd = ::open( path, O_RDWR | O_CREAT | O_TRUNC, 0644 );
    if ( fd < 0 || ftruncate( fd, static_cast< off_t >( size ) ) != 0 ) { std::perror( "current case file" ); std::exit( 3 ); }
    map = static_cast< char * >( mmap( nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) );
    ::close( fd );
    if ( map == MAP_FAILED ) { std::perror( "mmap" ); std::exit( 3 ); }
  }
  void set( std::string const & s )
  {
    if ( !map ) return;
    std::size_t n = s.size() < size - 1 ? s.size() : size - 1;
    std::memcpy( map, s.data(), n );
    map[n] = 0;
  }
};

/// CPU time limit of a single case: SIGPROF ends the process
inline void watchdog( int seconds )
{
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer( ITIMER_PROF, &t, nullptr );
}
} // namespace vh
