// Mixed tensor-product bases: type-erased instances and their long double oracle.
#pragma once
#include "basis_common.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"

namespace vh
{
using shiva::functions::LagrangeBasis;
using shiva::EqualSpacing;
using shiva::GaussLobattoSpacing;
using shiva::GaussLegendreSpacing;

/// digit of a flat index, last digit fastest
template< int DIGIT, int ... N >
constexpr int digitOf( int flat )
{
  int n[] = { N ... };
  int d = 0;
  for ( int k = static_cast< int >( sizeof...( N ) ) - 1; k >= DIGIT; --k )
  {
    d = flat % n[k];
    flat /= n[k];
  }
  return d;
}

/// reference of one tensor-product function
struct TensorRef
{
  std::vector< std::vector< LD > > nodes;  ///< per direction
  LD value( std::vector< int > const & idx, std::vector< LD > const & t ) const
  {
    LD v = 1;
    for ( std::size_t d = 0; d < nodes.size(); ++d ) v *= lagrange( nodes[d], idx[d], t[d] );
    return v;
  }
  LD gradient( std::vector< int > const & idx, std::vector< LD > const & t, int comp ) const
  {
    LD v = 1;
    for ( std::size_t d = 0; d < nodes.size(); ++d )
    {
      v *= static_cast< int >( d ) == comp ? lagrangeDeriv( nodes[d], idx[d], t[d] ) : lagrange( nodes[d], idx[d], t[d] );
    }
    return v;
  }
  LD valueScale( std::vector< LD > const & t ) const
  {
    LD v = 1;
    for ( std::size_t d = 0; d < nodes.size(); ++d ) v *= lebesgue( nodes[d], t[d] );
    return v;
  }
  LD gradientScale( std::vector< LD > const & t, int comp ) const
  {
    LD v = 1;
    for ( std::size_t d = 0; d < nodes.size(); ++d ) v *= static_cast< int >( d ) == comp ? lebesgueDeriv( nodes[d], t[d] ) : lebesgue( nodes[d], t[d] );
    return v;
  }
  int total() const { int n = 1; for ( auto & x : nodes ) n *= static_cast< int >( x.size() ); return n; }
  int points() const { int n = 0; for ( auto & x : nodes ) n += static_cast< int >( x.size() ); return n; }
  std::vector< int > digits( int flat ) const
  {
    std::vector< int > i( nodes.size() );
    for ( int d = static_cast< int >( nodes.size() ) - 1; d >= 0; --d ) { i[d] = flat % static_cast< int >( nodes[d].size() ); flat /= static_cast< int >( nodes[d].size() ); }
    return i;
  }
};

/// coordinate from a case: per direction one selector and two reals (inside, wider)
inline std::vector< LD > coordOf( Case const & c, int i0, int r0, TensorRef const & ref, LD ( *round )( LD ) )
{
  std::vector< LD > t( ref.nodes.size() );
  for ( std::size_t d = 0; d < t.size(); ++d )
  {
    std::int64_t const sel = c.i[static_cast< std::size_t >( i0 ) + d];
    std::size_t const n = ref.nodes[d].size();
    if ( sel < 6 ) t[d] = round( c.r[static_cast< std::size_t >( r0 ) + 2 * d] );
    else if ( sel < 9 ) t[d] = round( c.r[static_cast< std::size_t >( r0 ) + 2 * d + 1] );
    else t[d] = ref.nodes[d][static_cast< std::size_t >( sel - 9 ) % n];
  }
  return t;
}
inline std::vector< IDom > coordInts( int dims ) { return ints( dims, { 0, 12 } ); }
inline std::vector< RDom > coordReals( int dims )
{
  std::vector< RDom > r;
  for ( int d = 0; d < dims; ++d ) { r.push_back( { 'u', -1, 1 } ); r.push_back( { 'u', -1.75, 1.75 } ); }
  return r;
}

template< typename R > LD roundTo( LD t ) { return static_cast< LD >( static_cast< R >( t ) ); }
} // namespace vh
