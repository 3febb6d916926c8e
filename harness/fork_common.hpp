// Runs a function in a child process and reports how it ended and what it wrote to standard error.
#pragma once
#include "vh.hpp"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh
{
struct Ended { bool exited = false; int code = 0; bool signaled = false; int sig = 0; std::string err, out; };

template< typename F >
Ended inChild( F && f )
{
  int pe[2], po[2];
  if ( pipe( pe ) != 0 || pipe( po ) != 0 ) { std::perror( "pipe" ); std::exit( 3 ); }
  std::fflush( nullptr );
  pid_t const pid = fork();
  if ( pid < 0 ) { std::perror( "fork" ); std::exit( 3 ); }
  if ( pid == 0 )
  {
    close( pe[0] ); close( po[0] );
    dup2( pe[1], 2 ); dup2( po[1], 1 );
    close( pe[1] ); close( po[1] );
    rlimit none{ 0, 0 };
    setrlimit( RLIMIT_CORE, &none );
    signal( SIGABRT, SIG_DFL );
    alarm( 20 );
    f();
    std::fflush( nullptr );
    _exit( 42 );
  }
  close( pe[1] ); close( po[1] );
  Ended r;
  pollfd p[2] = { { pe[0], POLLIN, 0 }, { po[0], POLLIN, 0 } };
  int open = 2;
  char b[4096];
  while ( open > 0 )
  {
    if ( poll( p, 2, -1 ) < 0 ) continue;
    for ( int k = 0; k < 2; ++k )
    {
      if ( p[k].fd < 0 || !p[k].revents ) continue;
      ssize_t const n = read( p[k].fd, b, sizeof b );
      if ( n > 0 ) ( k == 0 ? r.err : r.out ).append( b, static_cast< std::size_t >( n ) );
      else { p[k].fd = -1; --open; }
    }
  }
  close( pe[0] ); close( po[0] );
  int st = 0;
  while ( waitpid( pid, &st, 0 ) < 0 ) {}
  r.exited = WIFEXITED( st );
  if ( r.exited ) r.code = WEXITSTATUS( st );
  r.signaled = WIFSIGNALED( st );
  if ( r.signaled ) r.sig = WTERMSIG( st );
  return r;
}

inline std::string how( Ended const & e )
{
  return ( e.exited ? "exit " + std::to_string( e.code ) : "signal " + std::to_string( e.sig ) ) + ", standard error: " + e.err.substr( 0, 300 );
}

/// the whole numbers in a text
inline std::vector< std::int64_t > numbersIn( std::string const & t )
{
  std::vector< std::int64_t > v;
  for ( std::size_t k = 0; k < t.size(); )
  {
    bool const neg = t[k] == '-' && k + 1 < t.size() && t[k + 1] >= '0' && t[k + 1] <= '9';
    if ( neg || ( t[k] >= '0' && t[k] <= '9' ) )
    {
      char * e;
      v.push_back( std::strtoll( t.c_str() + k, &e, 10 ) );
      k = static_cast< std::size_t >( e - t.c_str() );
    }
    else ++k;
  }
  return v;
}
} // namespace vh
