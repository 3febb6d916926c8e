// Interface between the driver of C25 and the libraries that evaluate the same calls in different configurations.
#pragma once
#include "vh.hpp"

namespace vh
{
/// one result: a whole number (exact), or a number with the scale of its rounding error
struct Rec { char const * what; bool exact; std::int64_t n; LD v, scale; };
struct Out
{
  std::vector< Rec > r;
  bool nontrivial = false;
  void i( char const * what, std::int64_t n ) { r.push_back( { what, true, n, 0, 0 } ); }
  /// scale: magnitude of the terms times the number of roundings, in units of the type's epsilon
  template< typename R >
  void f( char const * what, R v, LD scale ) { r.push_back( { what, false, 0, static_cast< LD >( v ), scale * eps< R >() } ); }
};
struct Entry
{
  std::string name;
  std::vector< IDom > ints;
  std::vector< RDom > reals;
  int tailMin, tailMax;
  IDom tail;
  void ( *eval )( Case const &, Out & );
};
}
