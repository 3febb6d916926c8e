// C08: all forms of access to an array address one row-major element (model: a flat vector)
#include "vh.hpp"
#include "shiva/common/CArray.hpp"
#include "gen_shapes.hpp"
#include <map>
#include <memory>
#include <sys/mman.h>
using namespace vh;

template< typename T >
struct Val { static T of( std::int64_t v ) { return static_cast< T >( v ); } static std::int64_t to( T const & v ) { return static_cast< std::int64_t >( v ); } };
struct Pair { int a; double b; };
template<> struct Val< Pair > { static Pair of( std::int64_t v ) { return { static_cast< int >( v ), v * 0.5 }; } static std::int64_t to( Pair const & v ) { return v.b == v.a * 0.5 ? v.a : -999999; } };

struct Obj
{
  virtual ~Obj() = default;
  virtual std::ptrdiff_t where( int form, std::vector< int > const & idx ) = 0;            ///< offset in elements from the buffer
  virtual void write( int form, std::vector< int > const & idx, std::int64_t v ) = 0;       ///< through the reference
  virtual std::int64_t read( int form, std::vector< int > const & idx ) = 0;
  virtual std::int64_t raw( int flat ) = 0;
};
struct Inst
{
  std::vector< int > dims;
  int rank, size;
  std::vector< int > extents;
  std::unique_ptr< Obj > ( *make )();
};

static char const * const formName[] = { "call syntax", "call syntax on constant array", "brackets", "brackets on constant array", "compile time indices",
                                         "compile time indices on constant array", "index types mixed", "constants as indices", "view", "view, brackets", "view of constant data", "slice then call", "slice of constant array then call", "slice of slices", "view, compile time indices" };
static constexpr int numForms = 15;
static bool constForm( int f ) { return f == 1 || f == 3 || f == 5 || f == 10 || f == 12; }

static int flatOf( Inst const & in, std::vector< int > const & idx )
{
  int f = 0;
  for ( std::size_t d = 0; d < idx.size(); ++d ) f = f * in.dims[d] + idx[d];
  return f;
}

static void run( Ctx & ctx, Case const & c, Inst const & in )
{
  int n = 1;
  for ( int d : in.dims ) n *= d;
  eq( "rank", in.rank, static_cast< std::int64_t >( in.dims.size() ) );
  eq( "size", in.size, n );
  for ( std::size_t d = 0; d < in.dims.size(); ++d ) eq( "extent", in.extents[d], in.dims[d] );
  auto obj = in.make();
  std::vector< std::int64_t > model( static_cast< std::size_t >( n ) );
  for ( int k = 0; k < n; ++k )
  {
    // initial contents through a form of the case
    std::vector< int > idx( in.dims.size() );
    int f = k;
    for ( int d = static_cast< int >( idx.size() ) - 1; d >= 0; --d ) { idx[d] = f % in.dims[d]; f /= in.dims[d]; }
    model[k] = k % 90 + 1;
    obj->write( 0, idx, model[k] );
  }
  int writes = 0, forms = 0;
  unsigned used = 0;
  for ( auto t : c.tail )
  {
    std::uint64_t u = static_cast< std::uint64_t >( t );
    int const form = static_cast< int >( u % numForms ); u /= numForms;
    bool const wr = u % 2; u /= 2;
    std::vector< int > idx;
    for ( int d : in.dims ) { idx.push_back( static_cast< int >( u % static_cast< std::uint64_t >( d ) ) ); u /= static_cast< std::uint64_t >( d ); }
    std::int64_t const v = static_cast< std::int64_t >( u % 100 );
    int const flat = flatOf( in, idx );
    if ( !( used >> form & 1 ) ) { used |= 1u << form; ++forms; }
    eq( formName[form], obj->where( form, idx ), flat );
    if ( wr && !constForm( form ) )
    {
      obj->write( form, idx, v );
      model[static_cast< std::size_t >( flat )] = v;
      ++writes;
    }
    eq( formName[form], obj->read( form, idx ), model[static_cast< std::size_t >( flat )] );
    for ( int k = 0; k < n; ++k ) eq( "element after the access", obj->raw( k ), model[static_cast< std::size_t >( k )] );
  }
  ctx.nt( writes >= 1 && forms >= 2 && n > 1 );
  ctx.label( forms >= 5 ? "five or more forms" : "fewer forms" );
}

template< int DIGIT, int ... N >
constexpr int digitOf( int flat )
{
  int n[] = { N ... };
  int d = 0;
  for ( int k = static_cast< int >( sizeof...( N ) ) - 1; k >= DIGIT; --k ) { d = flat % n[k]; flat /= n[k]; }
  return d;
}

/// the forms of access; addresses of elements
template< typename T, int ... DIMS >
struct Forms
{
  static constexpr int R = sizeof...( DIMS );
  template< typename X, int K, int ... I >
  static auto * ct( X & x, std::integer_sequence< int, I... > ) { return &x.template operator()< digitOf< I, DIMS... >( K ) ... >(); }
  template< typename X, int K, int ... I >
  static auto * ic( X & x, std::integer_sequence< int, I... > ) { return &x( std::integral_constant< int, digitOf< I, DIMS... >( K ) >{} ... ); }
  template< typename X, std::size_t ... I >
  static T const * call( X & x, int const * i, std::index_sequence< I... > ) { return &x( i[I] ... ); }
  template< std::size_t I > static auto as( int v )
  {
    if constexpr ( I % 6 == 0 ) return static_cast< long >( v );
    else if constexpr ( I % 6 == 1 ) return static_cast< signed char >( v );
    else if constexpr ( I % 6 == 2 ) return static_cast< std::size_t >( v );
    else if constexpr ( I % 6 == 3 ) return static_cast< short >( v );
    else if constexpr ( I % 6 == 4 ) return static_cast< unsigned >( v );
    else return static_cast< long long >( v );
  }
  template< typename X, std::size_t ... I >
  static T const * mixed( X & x, int const * i, std::index_sequence< I... > ) { return &x( as< I >( i[I] ) ... ); }
  template< int D, typename X >
  static T const * brackets( X && x, int const * i )
  {
    if constexpr ( D == R - 1 ) return &x[i[D]];
    else return brackets< D + 1 >( x[i[D]], i );
  }
  template< typename X, std::size_t ... I >
  static T const * sliceCall( X & x, int const * i, std::index_sequence< I... > )
  {
    if constexpr ( R == 1 ) return &x[i[0]];
    else { auto s = x[i[0]]; return &s( i[I + 1] ... ); }
  }
  static int flatOf( std::vector< int > const & idx )
  {
    int const n[] = { DIMS ... };
    int f = 0;
    for ( int d = 0; d < R; ++d ) f = f * n[d] + idx[static_cast< std::size_t >( d )];
    return f;
  }
};

template< typename T, int ... DIMS >
struct ObjOf : Obj, Forms< T, DIMS... >
{
  using A = shiva::CArrayNd< T, DIMS... >;
  using V = shiva::CArrayViewNd< T, DIMS... >;
  using CV = shiva::CArrayViewNd< T const, DIMS... >;
  using F = Forms< T, DIMS... >;
  using F::R;
  static constexpr int S = ( DIMS * ... );
  A a{};
  T * base() { return &a.data()[0]; }

  template< typename X >
  static T const * ctAt( X & x, int flat )
  {
    T const * p = nullptr;
    staticFor< S >( [&]( auto k ) { if ( k == flat ) p = F::template ct< X, decltype(k)::value >( x, std::make_integer_sequence< int, R >{} ); } );
    return p;
  }
  template< typename X >
  static T const * icAt( X & x, int flat )
  {
    T const * p = nullptr;
    staticFor< S >( [&]( auto k ) { if ( k == flat ) p = F::template ic< X, decltype(k)::value >( x, std::make_integer_sequence< int, R >{} ); } );
    return p;
  }
  T const * at( int form, std::vector< int > const & idx )
  {
    int const * i = idx.data();
    A const & ca = a;
    auto const seq = std::make_index_sequence< R >{};
    switch ( form )
    {
      case 0: return F::call( a, i, seq );
      case 1: return F::call( ca, i, seq );
      case 2: return F::template brackets< 0 >( a, i );
      case 3: return F::template brackets< 0 >( ca, i );
      case 4: return ctAt( a, F::flatOf( idx ) );
      case 5: return ctAt( ca, F::flatOf( idx ) );
      case 6: return F::mixed( a, i, seq );
      case 7: return icAt( a, F::flatOf( idx ) );
      case 8: { V v( a.data() ); return F::call( v, i, seq ); }
      case 9: { V v( a.data() ); return F::template brackets< 0 >( v, i ); }
      case 10: { CV v( a.data() ); return F::call( v, i, seq ); }
      case 11: return F::sliceCall( a, i, std::make_index_sequence< R - 1 >{} );
      case 12: return F::sliceCall( ca, i, std::make_index_sequence< R - 1 >{} );
      case 13:
        if constexpr ( R >= 3 ) { auto s = a[i[0]]; auto s2 = s[i[1]]; return ObjOf::rest( s2, i + 2, std::make_index_sequence< R - 2 >{} ); }
        else return F::template brackets< 0 >( a, i );
      default: { V v( a.data() ); return ctAt( v, F::flatOf( idx ) ); }
    }
  }
  template< typename X, std::size_t ... I >
  static T const * rest( X & x, int const * i, std::index_sequence< I... > ) { return &x( i[I] ... ); }

  std::ptrdiff_t where( int form, std::vector< int > const & idx ) override { return at( form, idx ) - base(); }
  void write( int form, std::vector< int > const & idx, std::int64_t v ) override { *const_cast< T * >( at( form, idx ) ) = Val< T >::of( v ); }
  std::int64_t read( int form, std::vector< int > const & idx ) override { return Val< T >::to( *at( form, idx ) ); }
  std::int64_t raw( int flat ) override { return Val< T >::to( base()[flat] ); }
  static std::unique_ptr< Obj > make() { return std::unique_ptr< Obj >( new ObjOf() ); }

  template< int ... D >
  static std::vector< int > ext( std::integer_sequence< int, D... > ) { return { A::template extent< D >() ... }; }
};

// what a non-constant form yields can be assigned, what a constant one yields cannot
template< typename T, int ... DIMS >
constexpr bool types()
{
  using A = shiva::CArrayNd< T, DIMS... >;
  using V = shiva::CArrayViewNd< T, DIMS... >;
  static_assert( std::is_same_v< decltype( std::declval< A & >()( DIMS ... ) ), T & > );
  static_assert( std::is_same_v< decltype( std::declval< A const & >()( DIMS ... ) ), T const & > );
  static_assert( std::is_same_v< decltype( std::declval< V & >()( DIMS ... ) ), T & > );
  if constexpr ( sizeof...( DIMS ) == 1 )
  {
    static_assert( std::is_same_v< decltype( std::declval< A & >()[0] ), T & > );
    static_assert( std::is_same_v< decltype( std::declval< A const & >()[0] ), T const & > );
  }
  return true;
}

template< typename T, int ... DIMS >
void inst( char const * name )
{
  static_assert( types< T, DIMS... >() );
  using A = shiva::CArrayNd< T, DIMS... >;
  Inst in{ { DIMS ... }, A::rank(), A::size(), ObjOf< T, DIMS... >::ext( std::make_integer_sequence< int, sizeof...( DIMS ) >{} ), &ObjOf< T, DIMS... >::make };
  Prop p;
  p.name = std::string( "CArray<" ) + name + ">";
  p.tailMin = 1;
  p.tailMax = 12;
  p.tail = { 0, ( std::int64_t( 1 ) << 36 ) - 1 };
  p.run = [in]( Ctx & ctx, Case const & c ) { run( ctx, c, in ); };
  add( p );
}
// ---- large arrays: the elements lie in memory that is given out only where it is touched
struct Large
{
  std::vector< int > dims;
  int rank, size;
  std::vector< int > extents;
  std::size_t bytes;
  bool view;                                            ///< by views only
  void ( *construct )( void * );
  std::ptrdiff_t ( *where )( void *, int, std::vector< int > const & );   ///< offset in bytes
  std::vector< int > const * constants;                 ///< elements reached by compile time indices
  void * memory = nullptr;
};
static constexpr int numLargeForms = 12;
static char const * const largeForm[] = { "view", "view, brackets", "view of constant data", "view of constant data, brackets", "slice of a view", "view, compile time indices", "view, 64-bit indices",
                                          "call syntax", "call syntax on constant array", "brackets", "brackets on constant array", "compile time indices on constant array" };

static void runLarge( Ctx & ctx, Case const & c, Large & in )
{
  std::int64_t n = 1;
  for ( int d : in.dims ) n *= d;
  std::size_t const esize = in.bytes / static_cast< std::size_t >( n );
  eq( "rank", in.rank, static_cast< std::int64_t >( in.dims.size() ) );
  eq( "size", in.size, n );
  for ( std::size_t d = 0; d < in.dims.size(); ++d ) eq( "extent", in.extents[d], in.dims[d] );
  if ( !in.memory )
  {
    in.memory = mmap( nullptr, in.bytes + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    if ( in.memory == MAP_FAILED ) { std::perror( "mmap" ); std::abort(); }
    if ( !in.view ) in.construct( in.memory );
  }
  unsigned char * const mem = static_cast< unsigned char * >( in.memory );
  std::map< std::int64_t, unsigned char > model;
  bool far = false;
  for ( auto t : c.tail )
  {
    std::uint64_t u = static_cast< std::uint64_t >( t );
    int const form = static_cast< int >( u % static_cast< std::uint64_t >( in.view ? 7 : numLargeForms ) ); u /= 12;
    bool const fixed = form == 5 || form == 11;
    std::vector< int > idx( in.dims.size() );
    std::int64_t flat = 0;
    if ( fixed )
    {
      flat = ( *in.constants )[u % in.constants->size()];
      std::int64_t f = flat;
      for ( std::size_t d = idx.size(); d-- > 0; ) { idx[d] = static_cast< int >( f % in.dims[d] ); f /= in.dims[d]; }
    }
    else
    {
      for ( std::size_t d = 0; d < idx.size(); ++d )
      {
        u = u * 6364136223846793005ull + 1442695040888963407ull;
        std::uint64_t const k = u >> 33, e = static_cast< std::uint64_t >( in.dims[d] );
        switch ( u >> 29 & 7 )
        {
          case 0: idx[d] = 0; break;
          case 1: idx[d] = static_cast< int >( e - 1 ); break;
          case 2: idx[d] = static_cast< int >( e - 1 - k % std::min< std::uint64_t >( e, 4 ) ); break;
          case 3: idx[d] = static_cast< int >( std::min< std::uint64_t >( e - 1, ( std::uint64_t( 1 ) << ( k % 31 ) ) - ( k >> 6 & 1 ) ) ); break;
          default: idx[d] = static_cast< int >( k % e ); break;
        }
        flat = flat * in.dims[d] + idx[d];
      }
    }
    far = far || flat > 32767;
    eq( largeForm[form], in.where( in.memory, form, idx ), flat * static_cast< std::int64_t >( esize ) );
    unsigned char const v = static_cast< unsigned char >( u >> 40 | 1 );
    mem[static_cast< std::size_t >( flat ) * esize] = v;      // touched: a wild offset would have been reported above
    model[flat] = v;
  }
  for ( auto const & m : model ) { ok( mem[static_cast< std::size_t >( m.first ) * esize] == m.second, "element of a large array" ); mem[static_cast< std::size_t >( m.first ) * esize] = 0; }
  ctx.nt( far );
  ctx.label( "large array" );
}

template< typename T, bool VIEW, int ... DIMS >
struct LargeOf
{
  using A = shiva::CArrayNd< T, DIMS... >;
  using V = shiva::CArrayViewNd< T, DIMS... >;
  using CV = shiva::CArrayViewNd< T const, DIMS... >;
  using O = Forms< T, DIMS... >;
  static constexpr int R = sizeof...( DIMS );
  static constexpr int S = static_cast< int >( ( static_cast< long long >( DIMS ) * ... ) );
  /// the ends of the array, and elements all over it
  static constexpr int constantAt( int k )
  {
    if ( k == 0 ) return 0;
    if ( k == 1 ) return S - 1;
    std::uint64_t u = static_cast< std::uint64_t >( S ) * 977u + static_cast< std::uint64_t >( k );
    for ( int j = 0; j < 3; ++j ) u = u * 6364136223846793005ull + 1442695040888963407ull;
    return static_cast< int >( ( u >> 20 ) % static_cast< std::uint64_t >( S ) );
  }
  static constexpr int numConstants = 8;
  static std::vector< int > constants() { std::vector< int > r; for ( int k = 0; k < numConstants; ++k ) r.push_back( constantAt( k ) ); return r; }
  template< typename X >
  static T const * ctAt( X & x, int flat )
  {
    T const * p = nullptr;
    staticFor< numConstants >( [&]( auto k ) { if ( constantAt( k ) == flat ) p = O::template ct< X, constantAt( decltype(k)::value ) >( x, std::make_integer_sequence< int, R >{} ); } );
    return p;
  }
  template< typename X, std::size_t ... I >
  static T const * wide( X & x, int const * i, std::index_sequence< I... > ) { return &x( static_cast< long long >( i[I] ) ... ); }
  static void construct( void * p ) { if constexpr ( !VIEW ) new ( p ) A{}; else (void) p; }
  static T const * at( void * p, int form, int const * i, int flat )
  {
    V v( *static_cast< T ( * )[S] >( p ) );
    CV const cv( *static_cast< T ( * )[S] >( p ) );
    auto const seq = std::make_index_sequence< R >{};
    switch ( form )
    {
      case 0: return O::call( v, i, seq );
      case 1: return O::template brackets< 0 >( v, i );
      case 2: return O::call( cv, i, seq );
      case 3: return O::template brackets< 0 >( cv, i );
      case 4: return O::sliceCall( v, i, std::make_index_sequence< R - 1 >{} );
      case 5: return ctAt( v, flat );
      case 6: return wide( v, i, seq );
      default: break;
    }
    if constexpr ( !VIEW )
    {
      A & a = *static_cast< A * >( p );
      A const & ca = a;
      switch ( form )
      {
        case 7: return O::call( a, i, seq );
        case 8: return O::call( ca, i, seq );
        case 9: return O::template brackets< 0 >( a, i );
        case 10: return O::template brackets< 0 >( ca, i );
        default: return ctAt( ca, flat );
      }
    }
    return nullptr;
  }
  static std::ptrdiff_t where( void * p, int form, std::vector< int > const & idx )
  {
    return reinterpret_cast< char const * >( at( p, form, idx.data(), O::flatOf( idx ) ) ) - static_cast< char const * >( p );
  }
  template< int ... D >
  static std::vector< int > ext( std::integer_sequence< int, D... > ) { return { V::template extent< D >() ... }; }
};

template< typename T, bool VIEW, int ... DIMS >
void large( char const * name )
{
  using X = LargeOf< T, VIEW, DIMS... >;
  static std::vector< int > const constants = X::constants();
  auto in = std::make_shared< Large >( Large{ { DIMS ... }, X::V::rank(), X::V::size(), X::ext( std::make_integer_sequence< int, sizeof...( DIMS ) >{} ), sizeof( T ) * static_cast< std::size_t >( X::S ), VIEW,
                                              &X::construct, &X::where, &constants } );
  Prop p;
  p.name = std::string( VIEW ? "View<" : "LargeCArray<" ) + name + ">";
  p.tailMin = 1;
  p.tailMax = 12;
  p.tail = { 0, ( std::int64_t( 1 ) << 50 ) - 1 };
  p.run = [in]( Ctx & ctx, Case const & c ) { runLarge( ctx, c, *in ); };
  add( p );
}
#define LARGE( T, VIEW, ... ) large< T, VIEW, __VA_ARGS__ >( #T "," #__VA_ARGS__ );
#define SHAPE( T, ... ) inst< T, __VA_ARGS__ >( #T "," #__VA_ARGS__ );
static bool const registered = ( []{ VH_SHAPES VH_LARGE }(), true );
