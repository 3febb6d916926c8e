// Stand-in for the part of CAMP that a user of its tuple type can rely on.
#pragma once
#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utility>

namespace camp
{
using idx_t = std::ptrdiff_t;
template< typename T, T ... V > using int_seq = std::integer_sequence< T, V ... >;
template< idx_t ... V > using idx_seq = std::integer_sequence< idx_t, V ... >;
template< idx_t N > using make_idx_seq_t = std::make_integer_sequence< idx_t, N >;
template< typename ... T > struct list {};

template< typename ... T >
struct tuple
{
  std::tuple< T ... > m;
  struct wrap {};
  constexpr tuple() = default;
  constexpr tuple( tuple const & ) = default;
  constexpr tuple( tuple && ) = default;
  constexpr tuple & operator=( tuple const & ) = default;
  constexpr tuple & operator=( tuple && ) = default;
  constexpr tuple( wrap, std::tuple< T ... > && x ): m( std::move( x ) ) {}
  template< bool OK = ( sizeof...( T ) > 0 ), std::enable_if_t< OK, int > = 0 >
  constexpr explicit tuple( T const & ... x ): m( x ... ) {}
  template< typename ... U, std::enable_if_t< ( sizeof...( U ) == sizeof...( T ) ) && ( sizeof...( U ) > 0 ) && std::is_constructible_v< std::tuple< T ... >, U && ... >, int > = 0 >
  constexpr explicit tuple( U && ... x ): m( std::forward< U >( x ) ... ) {}
  template< typename ... U, std::enable_if_t< sizeof...( U ) == sizeof...( T ) && !std::is_same_v< tuple, tuple< U ... > >, int > = 0 >
  constexpr tuple( tuple< U ... > const & x ): m( x.m ) {}
  template< typename ... U >
  constexpr tuple & operator=( tuple< U ... > const & x ) { m = x.m; return *this; }
  friend constexpr bool operator==( tuple const & a, tuple const & b ) { return a.m == b.m; }
  friend constexpr bool operator!=( tuple const & a, tuple const & b ) { return !( a.m == b.m ); }
};

template< typename T > struct tuple_size;
template< typename ... T > struct tuple_size< tuple< T ... > > : std::integral_constant< std::size_t, sizeof...( T ) > {};
template< typename T > struct tuple_size< T const > : tuple_size< T > {};
template< typename T > struct tuple_size< T & > : tuple_size< T > {};
template< idx_t K, typename T > struct tuple_element;
template< idx_t K, typename ... T > struct tuple_element< K, tuple< T ... > > : std::tuple_element< K, std::tuple< T ... > > {};
template< idx_t K, typename T > using tuple_element_t = typename tuple_element< K, T >::type;

template< typename ... T >
constexpr tuple< std::decay_t< T > ... > make_tuple( T && ... t )
{
  using R = tuple< std::decay_t< T > ... >;
  return R( typename R::wrap{}, std::tuple< std::decay_t< T > ... >( std::forward< T >( t ) ... ) );
}
template< typename ... T > constexpr tuple< T & ... > tie( T & ... t ) { using R = tuple< T & ... >; return R( typename R::wrap{}, std::tuple< T & ... >( t ... ) ); }
template< typename ... T > constexpr tuple< T && ... > forward_as_tuple( T && ... t ) { using R = tuple< T && ... >; return R( typename R::wrap{}, std::tuple< T && ... >( std::forward< T >( t ) ... ) ); }
template< idx_t K, typename ... T > constexpr auto & get( tuple< T ... > & t ) { return std::get< K >( t.m ); }
template< idx_t K, typename ... T > constexpr auto const & get( tuple< T ... > const & t ) { return std::get< K >( t.m ); }
template< idx_t K, typename ... T > constexpr auto && get( tuple< T ... > && t ) { return std::get< K >( std::move( t.m ) ); }
template< typename K, typename ... T > constexpr auto & get( tuple< T ... > & t ) { return std::get< K >( t.m ); }
template< typename K, typename ... T > constexpr auto const & get( tuple< T ... > const & t ) { return std::get< K >( t.m ); }
template< typename F, typename ... T > constexpr decltype(auto) invoke( F && f, tuple< T ... > const & t ) { return std::apply( std::forward< F >( f ), t.m ); }
template< typename F, typename ... T > constexpr decltype(auto) apply( F && f, tuple< T ... > const & t ) { return std::apply( std::forward< F >( f ), t.m ); }
}
template< typename ... T > struct std::tuple_size< camp::tuple< T ... > > : std::integral_constant< std::size_t, sizeof...( T ) > {};
template< std::size_t K, typename ... T > struct std::tuple_element< K, camp::tuple< T ... > > : std::tuple_element< K, std::tuple< T ... > > {};
