// Interface between c35.cpp and the objects that several calls, in order or at the same time, read or write.
#pragma once
#include "c25_api.hpp"

namespace vh
{
/// an object made from a case; each call only reads it (or, for writes, changes the elements of its own part)
struct Shared
{
  std::string name;
  std::vector< RDom > reals;
  void * ( *make )( Case const & );
  void ( *release )( void * );
  void ( *call )( void const *, std::uint64_t op, Out & );
  /// writes by part k of n and what the whole holds afterwards, or nullptr
  void ( *write )( void *, std::uint64_t op, int k, int n ) = nullptr;
  void ( *all )( void const *, Out & ) = nullptr;
};
} // namespace vh
