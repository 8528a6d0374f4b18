// Multidimensional arrays.   h_array OUT [SCRIPT]
// PART_ADDR: element addresses by every path;  PART_HIST: write/alias/copy histories;  PART_BND: bounds checking in child processes
#include "vh.hpp"
#include "script.hpp"
#include "shiva/common/CArray.hpp"
#include <array>
#include <climits>
#include <limits>
#include <functional>
#include <tuple>
#include <memory>
#include <utility>
#include <algorithm>
#include <sys/mman.h>
#if defined(PART_BND)
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#endif
using namespace shiva;
using vh::Ev;

struct Big { double a; int b; char c[12]; };
template< typename A > struct Dims;
template< typename T, typename B, int ... D > struct Dims< CArray< T, B, D ... > >
{
  static constexpr int rank = sizeof ... ( D );
  static std::vector< int > v() { return { D ... }; }
  static constexpr int d[sizeof ... ( D )] = { D ... };
  static constexpr int total = ( D * ... );
  using Elem = T;
};
template< typename A > using DimsOf = Dims< std::remove_cv_t< std::remove_reference_t< A > > >;

// ---- naming an element: d brackets, then the rest of the indices in one call
template< typename I, typename A, std::size_t ... K > decltype(auto) callAt( A & a, int const * ix, std::index_sequence< K ... > ) { return a( static_cast< I >( ix[K] ) ... ); }
template< int LEVEL, typename I, typename A > auto * addr( A & a, int const * ix )
{
  constexpr int R = DimsOf< A >::rank;
  if constexpr ( LEVEL == 0 ) return &callAt< I >( a, ix, std::make_index_sequence< R >{} );
  else if constexpr ( R == 1 ) return &a[ static_cast< I >( ix[0] ) ];
  else { auto && s = a[ static_cast< I >( ix[0] ) ]; return addr< LEVEL - 1, I >( s, ix + 1 ); }
}
template< typename F > void boxEach( std::vector< int > const & d, F && f )
{
  std::vector< int > s( d.size(), 0 );
  for( ;; )
  {
    f( s );
    int k = int( d.size() ) - 1;
    while( k >= 0 && ++s[k] >= d[k] ) s[k--] = 0;
    if( k < 0 ) return;
  }
}

#if defined(PART_ADDR)
template< typename T > struct Offs
{
  std::string s; T const * base;
  void add( T const * p ) { long long const o = reinterpret_cast< char const * >( p ) - reinterpret_cast< char const * >( base ); s += ( s.empty() ? "" : "," ) + ( o % (long long)sizeof( T ) == 0 && std::llabs( o ) < 1000000000 ? std::to_string( o / (long long)sizeof( T ) ) : std::string( "-1000000000" ) ); }
};
template< int LEVEL, typename I, typename A, typename T > void logPath( A & a, T const * base, char const * own, char const * ity )
{
  Offs< T > o{ "", base };
  boxEach( DimsOf< A >::v(), [&] ( std::vector< int > const & s ) { o.add( addr< LEVEL, I >( a, s.data() ) ); } );
  Ev( "addr" ).f( "dims", DimsOf< A >::v() ).f( "own", own ).f( "path", "call" ).f( "level", LEVEL ).f( "ity", ity ).raw( "offs", "[" + o.s + "]" );
}
template< int Q, typename A, std::size_t ... K > auto * ctAddr( A & a, std::index_sequence< K ... > )
{
  using D = DimsOf< A >;
  constexpr auto ix = [] { std::array< int, D::rank > r{}; int z = Q; for( int k = D::rank - 1; k >= 0; --k ) { r[k] = z % D::d[k]; z /= D::d[k]; } return r; }();
  return &a.template operator()< ix[K] ... >();
}
template< int Q, typename A, std::size_t ... K > auto * icAddr( A & a, std::index_sequence< K ... > )
{
  using D = DimsOf< A >;
  constexpr auto ix = [] { std::array< int, D::rank > r{}; int z = Q; for( int k = D::rank - 1; k >= 0; --k ) { r[k] = z % D::d[k]; z /= D::d[k]; } return r; }();
  return &a( std::integral_constant< int, ix[K] >{} ... );
}
template< typename A, typename T > void logCt( A & a, T const * base, char const * own )
{
  using D = DimsOf< A >;
  Offs< T > o{ "", base };
  {
    Offs< T > i{ "", base };
    vh::sfor< D::total >( [&] ( auto q ) { i.add( icAddr< decltype(q)::value >( a, std::make_index_sequence< D::rank >{} ) ); } );
    Ev( "addr" ).f( "dims", D::v() ).f( "own", own ).f( "path", "call" ).f( "level", 0 ).f( "ity", "constant" ).raw( "offs", "[" + i.s + "]" );
  }
  vh::sfor< D::total >( [&] ( auto q ) { o.add( ctAddr< decltype(q)::value >( a, std::make_index_sequence< D::rank >{} ) ); } );
  Ev( "addr" ).f( "dims", D::v() ).f( "own", own ).f( "path", "tmpl" ).f( "level", 0 ).f( "ity", "ct" ).raw( "offs", "[" + o.s + "]" );
  if constexpr ( D::rank > 1 )      // a slice, then compile-time indices
    for( int i = 0; i < D::d[0]; ++i )
    {
      Offs< T > p{ "", base };
      auto && s = a[i];
      using S = DimsOf< decltype(s) >;
      vh::sfor< S::total >( [&] ( auto q ) { p.add( ctAddr< decltype(q)::value >( s, std::make_index_sequence< S::rank >{} ) ); } );
      Ev( "slice" ).f( "dims", D::v() ).f( "own", own ).f( "path", "tmpl" ).f( "at", std::vector< int >{ i } ).raw( "offs", "[" + p.s + "]" );
    }
}
template< typename A > void logMeta( A & a, char const * own )
{
  using D = DimsOf< A >;
  using X = std::remove_reference_t< A >;
  std::vector< int > e;
  vh::sfor< D::rank >( [&] ( auto i ) { constexpr int x = X::template extent< decltype(i)::value >(); e.push_back( x == a.template extent< decltype(i)::value >() ? x : -1 ); } );
  constexpr int r = X::rank(), n = X::size();
  Ev( "meta" ).f( "dims", D::v() ).f( "own", own ).f( "rank", a.rank() == r ? r : -1 ).f( "ext", e ).f( "size", a.size() == n ? n : -1 ).f( "bytes", std::string( own ) == "own" ? int( sizeof( X ) / sizeof( typename D::Elem ) ) : -1 );
}
// every chain of brackets: metadata and first element of each slice
template< typename A, typename T > void slices( A & a, T const * base, char const * own, std::vector< int > full, std::vector< int > at )
{
  using D = DimsOf< A >;
  {
    // its storage, for the whole as for every slice
    std::vector< int > e;
    vh::sfor< D::rank >( [&] ( auto i ) { e.push_back( a.template extent< decltype(i)::value >() ); } );
    Offs< T > o{ "", base };
    for( int q = 0; q < D::total; ++q ) o.add( &a.data()[q] );
    Ev( "sub" ).f( "dims", full ).f( "own", own ).f( "at", at ).f( "rank", a.rank() ).f( "ext", e ).f( "size", a.size() ).raw( "offs", "[" + o.s + "]" );
  }
  if constexpr ( D::rank > 1 )
    for( int i = 0; i < D::d[0]; ++i )
    {
      auto && s = a[i];
      std::vector< int > w = at; w.push_back( i );
      slices( s, base, own, full, w );
    }
}
template< typename A, typename T > void paths( A & a, T const * base, char const * own, bool many, bool ct )
{
  constexpr int R = DimsOf< A >::rank;
  logMeta( a, own );
  logPath< 0, int >( a, base, own, "int" ); logPath< R, int >( a, base, own, "int" );
  logPath< 0, std::size_t >( a, base, own, "size_t" );
  if constexpr ( R > 1 ) logPath< 1, int >( a, base, own, "int" );
  if constexpr ( R > 2 ) logPath< 2, long >( a, base, own, "long" );
  if constexpr ( R > 3 ) logPath< 3, int >( a, base, own, "int" );
  if( many )
  {
    logPath< 0, unsigned >( a, base, own, "unsigned" ); logPath< 0, long >( a, base, own, "long" ); logPath< 0, short >( a, base, own, "short" ); logPath< 0, signed char >( a, base, own, "schar" );
    logPath< 0, unsigned char >( a, base, own, "uchar" ); logPath< 0, unsigned short >( a, base, own, "ushort" ); logPath< 0, long long >( a, base, own, "longlong" ); logPath< 0, char >( a, base, own, "char" );
    logPath< R, unsigned >( a, base, own, "unsigned" ); logPath< R, short >( a, base, own, "short" ); logPath< R, long >( a, base, own, "long" );
  }
  slices( a, base, own, DimsOf< A >::v(), {} );
  (void)ct;
}
template< typename T, bool CT, int ... D > void shape( bool many )
{
  static CArrayNd< T, D ... > own{};
  static T buf[( D * ... )] = {};
  auto const & cown = own;
  CArrayViewNd< T, D ... > view( buf );
  CArrayViewNd< T, D ... > const cview( buf );
  CArrayViewNd< T const, D ... > const rview( buf );
  T const * const ob = &own.data()[0];
  paths( own, ob, "own", many, CT ); paths( cown, ob, "cown", many, CT ); paths( view, buf, "view", many, CT ); paths( cview, buf, "cview", false, CT ); paths( rview, buf, "rview", false, CT );
  if constexpr ( CT ) { logCt( own, ob, "own" ); logCt( cown, ob, "cown" ); logCt( view, buf, "view" ); logCt( cview, buf, "cview" ); logCt( rview, buf, "rview" ); }
}
// ---- shapes of any size, at chosen points: the corners, and others all over the range of the index type
template< typename T > struct Points
{
  std::string pts, offs; T const * base;
  void add( std::vector< long > const & x, T const * p )
  {
    long long const o = reinterpret_cast< char const * >( p ) - reinterpret_cast< char const * >( base );
    bool const fits = o % (long long)sizeof( T ) == 0 && std::llabs( o / (long long)sizeof( T ) ) <= 2147483647LL;
    pts += ( pts.empty() ? "" : "," ) + vh::js( x );
    offs += ( offs.empty() ? "" : "," ) + ( fits ? std::to_string( o / (long long)sizeof( T ) ) : std::string( "-1000000000" ) );
  }
};
template< std::size_t K > using MixI = std::conditional_t< K % 5 == 0, int, std::conditional_t< K % 5 == 1, std::size_t, std::conditional_t< K % 5 == 2, short, std::conditional_t< K % 5 == 3, long, unsigned > > > >;
template< std::size_t S, typename A, std::size_t ... K > auto & mixCall( A & a, int const * ix, std::index_sequence< K ... > ) { return a( static_cast< MixI< K + S > >( ix[K] ) ... ); }
template< int LEVEL, typename I, int MIX, typename A, typename T > void logAt( A & a, T const * base, char const * own, char const * ity, vh::Rng & g )
{
  using D = DimsOf< A >;
  constexpr int R = D::rank;
  Points< T > o{ "", "", base };
  int const corners = 1 << R;
  for( int n = 0; n < corners + 24; ++n )
  {
    int ix[R];
    std::vector< long > x;
    for( int d = 0; d < R; ++d )
    {
      // the largest index of this direction that the index type holds
      long long const lim = (long long)std::min< unsigned long long >( MIX ? 32767ULL : (unsigned long long)std::numeric_limits< I >::max(), (unsigned long long)( D::d[d] - 1 ) );
      ix[d] = int( n < corners ? ( n >> d & 1 ? lim : 0 ) : (long long)( g.next() % (unsigned long long)( lim + 1 ) ) );
      x.push_back( ix[d] );
    }
    if constexpr ( MIX > 0 ) o.add( x, &mixCall< MIX >( a, ix, std::make_index_sequence< R >{} ) ); else o.add( x, addr< LEVEL, I >( a, ix ) );
  }
  Ev( "at" ).f( "dims", D::v() ).f( "own", own ).f( "path", "call" ).f( "level", LEVEL ).f( "ity", ity ).raw( "pts", "[" + o.pts + "]" ).raw( "offs", "[" + o.offs + "]" );
}
template< typename A, typename T > void pathsAt( A & a, T const * base, char const * own, vh::Rng & g )
{
  constexpr int R = DimsOf< A >::rank;
  logAt< 0, int, 0 >( a, base, own, "int", g ); logAt< 0, long, 0 >( a, base, own, "long", g ); logAt< 0, unsigned, 0 >( a, base, own, "unsigned", g ); logAt< 0, std::size_t, 0 >( a, base, own, "size_t", g );
  logAt< 0, short, 0 >( a, base, own, "short", g ); logAt< 0, unsigned short, 0 >( a, base, own, "ushort", g ); logAt< 0, signed char, 0 >( a, base, own, "schar", g ); logAt< 0, unsigned char, 0 >( a, base, own, "uchar", g );
  logAt< 0, char, 0 >( a, base, own, "char", g ); logAt< 0, long long, 0 >( a, base, own, "longlong", g ); logAt< 0, unsigned long long, 0 >( a, base, own, "ulonglong", g );
  logAt< R, int, 0 >( a, base, own, "int", g ); logAt< R, short, 0 >( a, base, own, "short", g ); logAt< R, unsigned char, 0 >( a, base, own, "uchar", g );
  if constexpr ( R > 1 ) { logAt< 1, int, 0 >( a, base, own, "int", g ); logAt< 1, signed char, 0 >( a, base, own, "schar", g ); logAt< R - 1, unsigned short, 0 >( a, base, own, "ushort", g ); }
  logAt< 0, int, 1 >( a, base, own, "mixed", g ); logAt< 0, int, 2 >( a, base, own, "mixed", g ); logAt< 0, int, 3 >( a, base, own, "mixed", g ); logAt< 0, int, 4 >( a, base, own, "mixed", g );
}
template< typename T, int ... D > void sampled( vh::Rng & g )
{
  static CArrayNd< T, D ... > own{};
  auto const & cown = own;
  CArrayViewNd< T, D ... > view( own.data() );
  pathsAt( own, &own.data()[0], "own", g ); pathsAt( cown, &own.data()[0], "cown", g ); pathsAt( view, &own.data()[0], "view", g );
}
// a view of more elements than fit in memory: addresses are formed, nothing is read or written
template< int ... D > void huge( vh::Rng & g )
{
  void * const m = mmap( nullptr, std::size_t( 1 ) << 31, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
  if( m == MAP_FAILED ) std::exit( 3 );
  char * const b = static_cast< char * >( m );
  CArrayViewNd< char, D ... > view( b );
  CArrayViewNd< char const, D ... > const rview( static_cast< char const * >( b ) );
  pathsAt( view, b, "view", g ); pathsAt( rview, static_cast< char const * >( b ), "rview", g );
  munmap( m, std::size_t( 1 ) << 31 );
}
// addresses in constant expressions: element values of an array holding its own positions
template< int ... D > constexpr CArrayNd< int, D ... > iotaArr() { CArrayNd< int, D ... > a{}; for( int q = 0; q < ( D * ... ); ++q ) a.data()[q] = q; return a; }
template< int ... D > struct CtVals { int v[( D * ... )] = {}; int w[( D * ... )] = {}; };
template< typename A, std::size_t ... K > constexpr int rd( A const & a, int const * ix, std::index_sequence< K ... > ) { return a( ix[K] ... ); }
template< typename A > constexpr int rb( A const & a, int const * ix ) { if constexpr ( DimsOf< A >::rank == 1 ) return a[ix[0]]; else return rb( a[ix[0]], ix + 1 ); }
template< int ... D > constexpr CtVals< D ... > ctVals()
{
  CArrayNd< int, D ... > const a = iotaArr< D ... >();
  CtVals< D ... > r{};
  constexpr int d[] = { D ... };
  constexpr int R = sizeof ... ( D );
  int ix[R] = {};
  for( int q = 0; q < ( D * ... ); ++q )
  {
    int z = q;
    for( int k = R - 1; k >= 0; --k ) { ix[k] = z % d[k]; z /= d[k]; }
    r.v[q] = rd( a, ix, std::make_index_sequence< R >{} );
    r.w[q] = rb( a, ix );
  }
  return r;
}
template< int ... D > void ct()
{
  constexpr auto r = ctVals< D ... >();
  constexpr int n = ( D * ... );
  Ev( "addr" ).f( "dims", std::vector< int >{ D ... } ).f( "own", "constexpr" ).f( "path", "call" ).f( "level", 0 ).f( "ity", "int" ).f( "offs", std::vector< int >( r.v, r.v + n ) );
  Ev( "addr" ).f( "dims", std::vector< int >{ D ... } ).f( "own", "constexpr" ).f( "path", "call" ).f( "level", int( sizeof ... ( D ) ) ).f( "ity", "int" ).f( "offs", std::vector< int >( r.w, r.w + n ) );
}
#endif

// ------------------------------------------------------------------ histories
#if defined(PART_HIST)
template< typename T, int ... D > struct World
{
  static constexpr int R = sizeof ... ( D );
  static constexpr int N = ( D * ... );
  using Own = CArrayNd< T, D ... >;
  using View = CArrayViewNd< T, D ... >;
  using CView = CArrayViewNd< T const, D ... >;
  struct H                     // a handle
  {
    bool own = false, cst = false; int buf = 0; Own * o = nullptr;
    std::vector< int > dims;
    std::function< T( int, int const * ) > rd;
    std::function< void( int, int const *, T ) > wr;
    std::function< H( int ) > slice;
    std::function< T * () > data;
  };
  std::vector< std::unique_ptr< Own > > arrays;
  std::vector< std::unique_ptr< T[] > > raws;
  std::vector< H > hs;
  std::vector< T * > store;           // first element of each buffer
  std::string ops;

  template< typename A > static T readAt( A & a, int style, int const * ix )
  {
    constexpr int RR = DimsOf< A >::rank;
    switch( style % 5 )
    {
      case 0: return *addr< 0, int >( a, ix );
      case 4: { auto const & c = a; int q = 0; for( int k = 0; k < RR; ++k ) q = q * DimsOf< A >::d[k] + ix[k]; return c.data()[q]; }
      case 1: return *addr< RR, int >( a, ix );
      case 2: return *addr< ( RR > 1 ? 1 : 0 ), long >( a, ix );
      default: { auto const & c = a; return *addr< 0, std::size_t >( c, ix ); }
    }
  }
  template< typename A > static void writeAt( A & a, int style, int const * ix, T v )
  {
    constexpr int RR = DimsOf< A >::rank;
    switch( style % 3 )
    {
      case 0: *addr< 0, int >( a, ix ) = v; break;
      case 1: *addr< RR, int >( a, ix ) = v; break;
      default: *addr< ( RR > 1 ? RR - 1 : 0 ), unsigned >( a, ix ) = v;
    }
  }
  template< bool CST, typename A > static H view( std::shared_ptr< A > a, int buf )
  {
    H h; h.buf = buf; h.cst = CST; h.dims = DimsOf< A >::v();
    h.rd = [a] ( int s, int const * ix ) { return readAt( *a, s, ix ); };
    if constexpr ( !CST ) h.wr = [a] ( int s, int const * ix, T v ) { writeAt( *a, s, ix, v ); };
    if constexpr ( !CST ) h.data = [a] () -> T * { return &a->data()[0]; };
    if constexpr ( DimsOf< A >::rank > 1 )
      h.slice = [a, buf] ( int i ) { auto s = ( *a )[i]; using S = std::remove_const_t< decltype(s) >; return view< CST, S >( std::make_shared< S >( s ), buf ); };
    return h;
  }
  H owner( Own * o, int buf )
  {
    H h; h.own = true; h.o = o; h.buf = buf; h.dims = { D ... };
    h.rd = [o] ( int s, int const * ix ) { return readAt( *o, s, ix ); };
    h.wr = [o] ( int s, int const * ix, T v ) { writeAt( *o, s, ix, v ); };
    h.data = [o] { return &o->data()[0]; };
    if constexpr ( R > 1 )
      h.slice = [o, buf] ( int i ) { auto s = ( *o )[i]; using S = std::remove_const_t< decltype(s) >; return view< false, S >( std::make_shared< S >( s ), buf ); };
    return h;
  }
  H cslice( H const & h, int i )        // through the const object
  {
    if constexpr ( R > 1 ) { Own const & c = *h.o; auto s = c[i]; using S = std::remove_const_t< decltype(s) >; return view< true, S >( std::make_shared< S >( s ), h.buf ); }
    else { (void)i; return h; }
  }
  int addOwn( Own * o ) { arrays.emplace_back( o ); store.push_back( &o->data()[0] ); hs.push_back( owner( o, int( store.size() ) ) ); return int( store.size() ); }
  template< int K, std::size_t ... Q > static Own * listOf( std::vector< long long > const & v, std::index_sequence< Q ... > ) { return new Own{ T( v[Q] ) ... }; }
  static Own * construct( std::vector< long long > const & v )
  {
    Own * r = nullptr;
    // (arrays of many elements: some lengths of lists only, as the specification generates them)
    vh::sfor< N + 1 >( [&] ( auto k ) { if constexpr( N <= 20 || decltype(k)::value < 3 || decltype(k)::value == N / 2 || decltype(k)::value >= N - 1 ) if( int( v.size() ) == decltype(k)::value ) r = listOf< decltype(k)::value >( v, std::make_index_sequence< decltype(k)::value >{} ); } );
    return r;
  }
  void image( std::string & s )
  {
    s += ",\"after\":[";
    for( std::size_t h = 0; h < hs.size(); ++h )
    {
      s += h ? ",[" : "[";
      int q = 0;
      boxEach( hs[h].dims, [&] ( std::vector< int > const & ix ) { s += ( q ? "," : "" ) + std::to_string( (long long)hs[h].rd( q + int( h ), ix.data() ) ); ++q; } );
      s += "]";
    }
    s += "]}";
  }
  // operations as generated by the specification
  void exec( vh::Node const & n )
  {
    std::string s = ops.empty() ? "{" : ",{";
    auto f = [&] ( char const * k, std::string const & v ) { s += std::string( s.back() == '{' ? "" : "," ) + "\"" + k + "\":" + v; };
    auto i = [] ( long long v ) { return std::to_string( v ); };
    switch( n[0].i() )
    {
      case 1:          // write through handle: h, style, value, index...
      {
        std::vector< int > ix; for( std::size_t q = 4; q < n.size(); ++q ) ix.push_back( n[q].i() );
        H & h = hs[n[1].i() - 1];
        h.wr( n[2].i(), ix.data(), T( n[3].v ) );
        f( "o", "\"write\"" ); f( "h", i( n[1].v ) ); f( "idx", vh::js( ix ) ); f( "v", i( n[3].v ) );
        break;
      }
      case 2:          // slice: h, i, const?
      {
        H & h = hs[n[1].i() - 1];
        H q = n[3].i() && h.own ? cslice( h, n[2].i() ) : h.slice( n[2].i() );
        f( "o", "\"slice\"" ); f( "h", i( n[1].v ) ); f( "i", i( n[2].v ) ); f( "cst", q.cst ? "true" : "false" );
        hs.push_back( q );
        break;
      }
      case 3:          // copy construction of an owner
      {
        H const h = hs[n[1].i() - 1];
        Own const & c = *h.o;
        if( n[2].i() ) addOwn( new Own( c ) ); else { Own t = *h.o; addOwn( new Own( std::move( t ) ) ); }
        f( "o", "\"copy\"" ); f( "h", i( n[1].v ) );
        break;
      }
      case 4:          // assignment between owners
      {
        Own & a = *hs[n[1].i() - 1].o; Own & b = *hs[n[2].i() - 1].o;
        if( n[3].i() ) a = b; else { Own t( b ); a = std::move( t ); }
        f( "o", "\"assign\"" ); f( "h", i( n[1].v ) ); f( "g", i( n[2].v ) );
        break;
      }
      case 5:          // a view over the storage of a handle's buffer
      {
        int const b = n[1].i();
        if( n[2].i() == 0 ) hs.push_back( view< false, View >( std::make_shared< View >( *reinterpret_cast< T ( * )[N] >( store[b - 1] ) ), b ) );
        else if( n[2].i() == 1 ) hs.push_back( view< true, CView >( std::make_shared< CView >( *reinterpret_cast< T ( * )[N] >( store[b - 1] ) ), b ) );
        else { View v( store[b - 1] ); hs.push_back( view< false, View >( std::make_shared< View >( v ), b ) ); }
        f( "o", "\"view\"" ); f( "b", i( b ) ); f( "cst", n[2].i() == 1 ? "true" : "false" );
        break;
      }
      case 6:          // raw storage write: buffer, position, value
      {
        int const b = n[1].i();
        H * own = nullptr; for( auto & h : hs ) if( h.own && h.buf == b ) own = &h;
        if( own && n[4].i() ) own->data()[n[2].i()] = T( n[3].v ); else store[b - 1][n[2].i()] = T( n[3].v );
        f( "o", "\"raw\"" ); f( "b", i( b ) ); f( "p", i( n[2].v ) ); f( "v", i( n[3].v ) );
        break;
      }
      case 7:          // a new owner from a list
      {
        std::vector< long long > v; for( std::size_t q = 1; q < n.size(); ++q ) v.push_back( n[q].v );
        addOwn( construct( v ) );
        f( "o", "\"list\"" ); f( "list", vh::js( v ) );
        break;
      }
      case 8:          // a raw buffer with a view
      {
        raws.emplace_back( new T[N]() );
        for( int q = 0; q < N; ++q ) raws.back()[q] = T( q + n[1].i() );
        store.push_back( raws.back().get() );
        int const b = int( store.size() );
        hs.push_back( view< false, View >( std::make_shared< View >( *reinterpret_cast< T ( * )[N] >( store[b - 1] ) ), b ) );
        f( "o", "\"buffer\"" ); f( "v", i( n[1].v ) );
        break;
      }
      default:         // swap two owners
        std::swap( *hs[n[1].i() - 1].o, *hs[n[2].i() - 1].o );
        f( "o", "\"swap\"" ); f( "h", i( n[1].v ) ); f( "g", i( n[2].v ) );
    }
    image( s );
    ops += s;
  }
  static void run( vh::Node const & s )
  {
    World w;
    for( auto const & n : s[1].k ) w.exec( n );
    Ev( "arr" ).f( "dims", std::vector< int >{ D ... } ).raw( "ops", "[" + w.ops + "]" );
  }
};
#endif

// ------------------------------------------------------------------ bounds checking
#if defined(PART_BND)
#if !defined(SHIVA_ENABLE_BOUNDS_CHECK)
#error bounds checking is meant to be on
#endif
template< typename T > std::string ibig( T v ) { if constexpr ( std::is_signed_v< T > ) return vh::bigint( v ); else return vh::ubigint( v ); }
constexpr int ROOM = 70400;
struct Shared { volatile int done; volatile long off; char pad[4096]; int guard0[512]; int data[ROOM]; };
static Shared * S;
static int used = 64;      // elements of the array; the 512 behind it are not to be touched either
static int errFd[2];
constexpr int PAT = 0x5a5a5a5a;
// runs f in a child, reports how it ended, what it printed and what it changed
template< typename F > void child( char const * path, char const * own, char const * ity, std::vector< int > const & dims, int given, std::string const & idx, bool write, F && f )
{
  S->done = 0; S->off = -7777777;
  for( int q = 0; q < 512; ++q ) S->guard0[q] = PAT;
  for( int q = 0; q < used + 512; ++q ) S->data[q] = 1000 + q;
  int p[2];
  if( pipe( p ) != 0 ) std::exit( 3 );
  pid_t const c = fork();
  if( c < 0 ) std::exit( 3 );
  if( c == 0 )
  {
    dup2( p[1], 2 ); close( p[0] ); close( p[1] );
    rlimit const z{ 0, 0 }; setrlimit( RLIMIT_CORE, &z );
    alarm( 20 );
    int * const e = f();
    S->off = e - S->data;
    if( write ) *e = -5; else { int volatile v = *e; (void)v; }
    S->done = 1;
    _exit( 0 );
  }
  close( p[1] );
  std::string err; char buf[512]; ssize_t k;
  while( ( k = read( p[0], buf, sizeof buf ) ) > 0 ) err.append( buf, std::size_t( k ) );
  close( p[0] );
  int st = 0;
  while( waitpid( c, &st, 0 ) < 0 ) {}
  std::string how = WIFEXITED( st ) ? ( WEXITSTATUS( st ) == 0 && S->done ? "ok" : "exit" ) : ( WTERMSIG( st ) == SIGABRT ? "abort" : "signal" );
  int changed = 0, at = -1;
  for( int q = 0; q < 512; ++q ) changed += S->guard0[q] != PAT;
  for( int q = 0; q < used + 512; ++q ) if( S->data[q] != 1000 + q ) { ++changed; at = q; }
  // numbers in the diagnostic, without the source location
  std::size_t const colon = err.find( "]: " );
  std::string const msg = colon == std::string::npos ? err : err.substr( colon );
  std::string nums;
  for( std::size_t q = 0; q < msg.size(); )
  {
    bool const neg = msg[q] == '-' && q + 1 < msg.size() && std::isdigit( (unsigned char)msg[q + 1] );
    if( neg || std::isdigit( (unsigned char)msg[q] ) )
    {
      char * e; std::string const t = msg.substr( q );
      std::string const b = neg ? vh::bigint( std::strtoll( t.c_str(), &e, 10 ) ) : vh::ubigint( std::strtoull( t.c_str(), &e, 10 ) );
      nums += ( nums.empty() ? "" : "," ) + b;
      q += std::size_t( e - t.c_str() );
    }
    else ++q;
  }
  Ev( "acc" ).f( "path", path ).f( "own", own ).f( "ity", ity ).f( "dims", dims ).f( "given", given ).raw( "idx", "[" + idx + "]" ).f( "write", write ).f( "how", how ).f( "off", (int)S->off )
    .f( "changed", changed ).f( "at", at ).f( "err", !err.empty() ).raw( "nums", "[" + nums + "]" );
}
template< typename I, typename A, std::size_t ... K > auto & bndCall( A & a, I const * ix, std::index_sequence< K ... > ) { return a( ix[K] ... ); }
// LEVEL brackets (taking int), then a call with indices of type I; given < 0: all indices, else stop after that many brackets
template< int LEVEL, typename I, typename A > int * bndAddr( A & a, I const * ix )
{
  constexpr int R = DimsOf< A >::rank;
  if constexpr ( LEVEL == 0 ) return const_cast< int * >( &bndCall< I >( a, ix, std::make_index_sequence< R >{} ) );
  else if constexpr ( R == 1 ) return const_cast< int * >( &a[ static_cast< int >( ix[0] ) ] );
  else { auto && s = a[ static_cast< int >( ix[0] ) ]; return bndAddr< LEVEL - 1, I >( s, ix + 1 ); }
}
template< int K, typename I, typename A > int * bndSlice( A & a, I const * ix )      // K brackets only: the slice's storage
{
  if constexpr ( K == 1 ) { auto && s = a[ static_cast< int >( ix[0] ) ]; return const_cast< int * >( s.data() ); }
  else { auto && s = a[ static_cast< int >( ix[0] ) ]; return bndSlice< K - 1, I >( s, ix + 1 ); }
}
template< typename I > char const * bity()
{
  return std::is_same_v< I, int > ? "int" : std::is_same_v< I, long > ? "long" : std::is_same_v< I, unsigned > ? "unsigned" : std::is_same_v< I, std::size_t > ? "size_t" : std::is_same_v< I, short > ? "short" :
         std::is_same_v< I, signed char > ? "schar" : std::is_same_v< I, unsigned char > ? "uchar" : std::is_same_v< I, unsigned short > ? "ushort" : "longlong";
}
template< typename I, typename A > void oneAccess( A & a, char const * own, I const * ix, int path, bool write )
{
  using D = DimsOf< A >;
  constexpr int R = D::rank;
  std::string s; for( int d = 0; d < R; ++d ) s += ( d ? "," : "" ) + ibig( ix[d] );
  if( path == 0 ) child( "call", own, bity< I >(), D::v(), R, s, write, [&] { return bndAddr< 0, I >( a, ix ); } );
  if( path == 1 ) child( "brackets", own, bity< I >(), D::v(), R, s, write, [&] { return bndAddr< R, I >( a, ix ); } );
  if constexpr ( R > 1 )
  {
    if( path == 2 ) child( "bracket+call", own, bity< I >(), D::v(), R, s, write, [&] { return bndAddr< 1, I >( a, ix ); } );
    if( path == 3 ) child( "slice", own, bity< I >(), D::v(), 1, s, write, [&] { return bndSlice< 1, I >( a, ix ); } );
  }
  if constexpr ( R > 2 )
  {
    if( path == 4 ) child( "brackets+call", own, bity< I >(), D::v(), R, s, write, [&] { return bndAddr< 2, I >( a, ix ); } );
    if( path == 5 ) child( "slices", own, bity< I >(), D::v(), 2, s, write, [&] { return bndSlice< 2, I >( a, ix ); } );
  }
}
template< typename A, int ... D > struct InShared;
template< int ... D > void bnd( vh::Rng & g, int extremes )
{
  using Own = CArrayNd< int, D ... >;
  constexpr int R = sizeof ... ( D );
  static_assert( sizeof( Own ) / sizeof( int ) + 512 <= ROOM );
  used = ( D * ... );
  Own & own = *reinterpret_cast< Own * >( S->data );
  Own const & cown = own;
  int * const base = S->data;
  CArrayViewNd< int, D ... > view( base );
  CArrayViewNd< int, D ... > const cview( base );
  std::vector< int > const dims{ D ... };
  int turn = 0;
  auto with = [&] ( auto const * ix, int path, bool wr )
  {
    using I = std::remove_cv_t< std::remove_reference_t< decltype(*ix) > >;
    switch( turn++ % 4 )
    {
      case 0: oneAccess< I >( own, "own", ix, path, wr ); break;
      case 1: oneAccess< I >( view, "view", ix, path, wr ); break;
      case 2: oneAccess< I >( cown, "cown", ix, path, false ); break;
      default: oneAccess< I >( cview, "cview", ix, path, false );
    }
  };
  // every index vector one beyond the box on each side, by every path
  std::vector< int > wide; for( int d : dims ) wide.push_back( d + 2 );
  long all = 1; for( int d : wide ) all *= d;
  boxEach( wide, [&] ( std::vector< int > s )
  {
    if( all > 150 && g.below( int( all ) ) > 110 ) return;
    for( int & v : s ) --v;
    for( int p = 0; p < ( R == 1 ? 2 : R == 2 ? 4 : 6 ); ++p ) with( s.data(), p, g.below( 2 ) );
  } );
  // extreme values of every index type at every position
  auto ext = [&] ( auto tag )
  {
    using I = decltype( tag );
    for( int q = 0; q < extremes; ++q ) for( int pos = 0; pos < R; ++pos )
    {
      I ix[R];
      for( int d = 0; d < R; ++d ) ix[d] = I( g.below( dims[d] ) );
      I const lo = std::numeric_limits< I >::min(), hi = std::numeric_limits< I >::max();
      I const vals[] = { hi, lo, I( dims[pos] ), I( -1 ), I( dims[pos] - 1 ), I( hi / 2 + 1 ), I( lo + 1 ), I( 0 ), I( 7 * dims[pos] ), I( dims[pos] + 1 ), I( (long long)( hi ) - 1 ) };
      ix[pos] = vals[( q + pos ) % 11];
      // brackets take int: values of wider types are given to call operators only
      bool const fits = std::is_same_v< I, int > || sizeof( I ) < sizeof( int );
      int p = g.below( R == 1 ? 2 : R == 2 ? 4 : 6 );
      if( !fits ) p = 0;
      with( ix, p, g.below( 2 ) );
    }
  };
  ext( int{} ); ext( long{} ); ext( unsigned{} ); ext( std::size_t{} ); ext( short{} ); ext( (signed char)0 ); ext( (unsigned char)0 ); ext( (unsigned short)0 ); ext( 0LL );
}

// calls whose indices have different types, one of them with an extreme value
template< std::size_t K > using BndI = std::conditional_t< K % 7 == 0, int, std::conditional_t< K % 7 == 1, std::size_t, std::conditional_t< K % 7 == 2, short, std::conditional_t< K % 7 == 3, long, std::conditional_t< K % 7 == 4, unsigned, std::conditional_t< K % 7 == 5, unsigned char, signed char > > > > > >;
template< std::size_t M, typename A, std::size_t ... K > void bndMix( A & a, char const * own, vh::Rng & g, bool write, std::index_sequence< K ... > )
{
  using D = DimsOf< A >;
  std::tuple< BndI< K + M > ... > const in{ BndI< K + M >( g.below( D::d[K] ) ) ... };
  ( [&]
  {
    using I = BndI< K + M >;
    I const lo = std::numeric_limits< I >::min(), hi = std::numeric_limits< I >::max();
    for( I const v : { hi, lo, I( D::d[K] ), I( D::d[K] - 1 ), I( hi / 2 + 1 ) } )
    {
      auto ix = in; std::get< K >( ix ) = v;
      std::string s; ( ( s += ( s.empty() ? "" : "," ) + ibig( std::get< K >( ix ) ) ), ... );
      child( "call", own, "mixed", D::v(), D::rank, s, write, [&] { return const_cast< int * >( &std::apply( [&] ( auto ... q ) -> auto & { return a( q ... ); }, ix ) ); } );
    }
  } (), ... );
}
// calls with integral constants
template< typename A, int ... I > void bndConst( A & a, char const * own, bool write )
{
  std::string s; ( ( s += ( s.empty() ? "" : "," ) + ibig( I ) ), ... );
  child( "call", own, "constant", DimsOf< A >::v(), int( sizeof ... ( I ) ), s, write, [&] { return const_cast< int * >( &a( std::integral_constant< int, I >{} ... ) ); } );
}
// extents beyond the narrow integer types, at the values that alias an index in range when cut to a narrower type
template< int ... D > void bndLarge( vh::Rng & g )
{
  using Own = CArrayNd< int, D ... >;
  constexpr int R = sizeof ... ( D );
  static_assert( sizeof( Own ) / sizeof( int ) + 512 <= ROOM );
  used = ( D * ... );
  Own & own = *reinterpret_cast< Own * >( S->data );
  Own const & cown = own;
  CArrayViewNd< int, D ... > view( S->data );
  CArrayViewNd< int const, D ... > const rview( static_cast< int const * >( S->data ) );
  constexpr int d[] = { D ... };
  int turn = 0;
  auto all = [&] ( auto tag )
  {
    using I = decltype( tag );
    for( int pos = 0; pos < R; ++pos )
      for( long long const v : { 0LL, d[pos] - 1LL, (long long)d[pos], d[pos] + 1LL, -1LL, d[pos] + 255LL, d[pos] + 256LL, 256LL, 65536LL, d[pos] + 65535LL, 32768LL, 128LL, -128LL, -256LL, -32768LL, -65536LL, 1LL - d[pos], 4294967296LL, 4294967296LL + d[pos] - 1, -4294967296LL, -4294967295LL, 1LL << 40 } )
      {
        if( (long long)I( v ) != v || ( v < 0 ) != ( I( v ) < I( 0 ) ) ) continue;
        I ix[R];
        for( int q = 0; q < R; ++q ) ix[q] = I( g.below( int( std::min< unsigned long long >( d[q], (unsigned long long)std::numeric_limits< I >::max() ) ) ) );
        ix[pos] = I( v );
        bool const fits = std::is_same_v< I, int > || sizeof( I ) < sizeof( int );
        int const p = fits ? g.below( R == 1 ? 2 : R == 2 ? 4 : 6 ) : 0;
        bool const w = g.below( 2 );
        switch( turn++ % 4 )
        {
          case 0: oneAccess< I >( own, "own", ix, p, w ); break;
          case 1: oneAccess< I >( view, "view", ix, p, w ); break;
          case 2: oneAccess< I >( cown, "cown", ix, p, false ); break;
          default: oneAccess< I >( rview, "rview", ix, p, false );
        }
      }
  };
  all( int{} ); all( long{} ); all( unsigned{} ); all( std::size_t{} ); all( short{} ); all( (unsigned short)0 ); all( (signed char)0 ); all( (unsigned char)0 );
}
// any shape: every position at the edges of its extent, by every path that names it
template< int ... D > void bndEdges( vh::Rng & g )
{
  using Own = CArrayNd< int, D ... >;
  constexpr int R = sizeof ... ( D );
  used = ( D * ... );
  Own & own = *reinterpret_cast< Own * >( S->data );
  Own const & cown = own;
  CArrayViewNd< int, D ... > view( S->data );
  CArrayViewNd< int const, D ... > const rview( static_cast< int const * >( S->data ) );
  constexpr int d[] = { D ... };
  int turn = g.below( 4 );
  for( int p = 0; p < ( R == 1 ? 2 : R == 2 ? 4 : 6 ); ++p )
  {
    for( int pos = 0; pos < ( p == 3 ? 1 : p == 5 ? 2 : R ); ++pos )
      for( int const v : { -1, d[pos], d[pos] + 1 + g.below( 40 ), d[pos] - 1 } )
      {
        int ix[R];
        for( int q = 0; q < R; ++q ) ix[q] = g.below( d[q] );
        ix[pos] = v;
        switch( turn++ % 4 )
        {
          case 0: oneAccess< int >( own, "own", ix, p, true ); break;
          case 1: oneAccess< int >( view, "view", ix, p, true ); break;
          case 2: oneAccess< int >( cown, "cown", ix, p, false ); break;
          default: oneAccess< int >( rview, "rview", ix, p, false );
        }
      }
  }
}
template< int ... D > void bndOther( vh::Rng & g )
{
  using Own = CArrayNd< int, D ... >;
  constexpr auto seq = std::make_index_sequence< sizeof ... ( D ) >{};
  used = ( D * ... );
  Own & own = *reinterpret_cast< Own * >( S->data );
  Own const & cown = own;
  CArrayViewNd< int, D ... > view( S->data );
  bndMix< 0 >( own, "own", g, true, seq ); bndMix< 1 >( cown, "cown", g, false, seq ); bndMix< 2 >( view, "view", g, true, seq ); bndMix< 3 >( own, "own", g, false, seq );
  bndMix< 4 >( view, "view", g, false, seq ); bndMix< 5 >( own, "own", g, true, seq ); bndMix< 6 >( cown, "cown", g, false, seq );
  bndConst< Own, ( D * 0 ) ... >( own, "own", true ); bndConst< Own, ( D - 1 ) ... >( own, "own", true ); bndConst< Own, D ... >( own, "own", true ); bndConst< Own const, ( -D ) ... >( cown, "cown", false );
  bndConst< decltype( view ), ( D * 0 - 1 ) ... >( view, "view", true );
}
#endif

int main( int argc, char ** argv )
{
  vh::open( argc, argv );
#if defined(PART_ADDR)
#if SUB == 0
  shape< double, true, 1 >( true ); shape< int, true, 5 >( true ); shape< double, true, 2, 3 >( true ); shape< float, true, 3, 2 >( true ); shape< char, true, 1, 4 >( false ); shape< Big, true, 4, 1 >( true );
  shape< double, false, 17, 31 >( false );
  ct< 6 >(); ct< 2, 3 >(); ct< 3, 2, 4 >(); ct< 2, 2, 2, 3 >(); ct< 1, 5, 1 >();
#elif SUB == 1
  shape< double, true, 2, 3, 4 >( true ); shape< int, true, 4, 3, 2 >( true ); shape< Big, false, 3, 1, 2 >( false ); shape< char, false, 1, 1, 1 >( false ); shape< float, false, 5, 2, 3 >( true );
#elif SUB == 3
  vh::Rng g( vh::seed() + 5 );
  sampled< int, 20, 20 >( g ); sampled< double, 300 >( g ); sampled< short, 130, 3 >( g ); sampled< float, 7, 6, 5 >( g ); sampled< char, 200, 300 >( g ); sampled< int, 9, 2, 11, 3 >( g ); sampled< double, 40, 40, 40 >( g );
  sampled< Big, 3, 2, 5, 2, 7 >( g ); sampled< int, 70000 >( g ); sampled< char, 1, 70000, 1 >( g );
  sampled< double, 2, 1, 3, 2, 2, 1, 3 >( g ); sampled< int, 3, 2, 2, 3, 2, 2, 3, 2 >( g ); sampled< short, 2, 3, 2, 2, 3, 2, 2, 3, 2 >( g ); sampled< float, 2, 2, 3, 2, 3, 2, 2, 2, 3, 2, 3 >( g );
  huge< 46000, 46000 >( g ); huge< 1200, 1300, 1300 >( g ); huge< 2147483647 >( g ); huge< 2, 32768, 32767 >( g ); huge< 200, 200, 200, 200 >( g ); huge< 33000, 1, 2, 3, 5, 7 >( g );
#elif SUB == 4
  shape< int, true, 4, 2, 1, 2, 3 >( true ); shape< double, true, 5, 1, 2, 2, 1, 2 >( false ); shape< float, true, 1, 6, 1, 5 >( false ); shape< char, true, 2, 1, 7, 2, 3 >( false ); shape< double, true, 19 >( true ); shape< short, true, 12, 5 >( false );
  ct< 4, 2, 1, 2, 3 >(); ct< 3, 1, 2, 5, 2, 2 >(); ct< 33 >(); ct< 11, 7 >(); ct< 2, 1, 2, 3, 1, 2, 2 >(); ct< 2, 1, 2, 1, 2, 1, 3, 2, 2 >();
#elif SUB == 9
#include "shapes.inc"
#elif SUB == 2
  shape< int, true, 2, 2, 2, 2 >( false ); shape< double, true, 2, 3, 1, 4 >( true ); shape< short, false, 3, 2, 2, 1, 2 >( true ); shape< double, false, 2, 2, 2, 2, 2, 2 >( false ); shape< float, false, 3, 4, 5, 2 >( false );
#endif
#if SUB == 0
  { Scalar< double > s{ 3.0 }; paths( s, &s.data()[0], "own", true, true ); double d = 4; ScalarView< double > v( &d ); paths( v, &d, "view", true, true ); ScalarView< double > const c( &d ); paths( c, &d, "cview", true, true ); }
#endif
#endif
#if defined(PART_HIST)
  for( auto const & s : vh::scripts( argv[2] ) )
    switch( s[0].i() )
    {
#if SUB == 0
      case 1: World< int, 2, 3 >::run( s ); break;
      case 2: World< double, 5 >::run( s ); break;
      case 3: World< float, 3, 2, 2 >::run( s ); break;
#elif SUB == 2
      case 9: World< double, 70 >::run( s ); break;
      case 10: World< int, 9, 8 >::run( s ); break;
      case 11: World< float, 2, 66 >::run( s ); break;
      case 12: World< short, 3, 41, 2 >::run( s ); break;
      case 13: World< double, 1, 2, 3, 1, 2, 1, 3, 2 >::run( s ); break;
#else
      case 4: World< long, 2, 2, 1, 3 >::run( s ); break;
      case 5: World< double, 1, 4 >::run( s ); break;
      case 6: World< short, 4, 1, 2 >::run( s ); break;
      case 7: World< double, 3, 1 >::run( s ); break;
      case 8: World< int, 2, 3, 1, 1 >::run( s ); break;
#endif
      default: break;
    }
#endif
#if defined(PART_BND)
  S = static_cast< Shared * >( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  if( S == MAP_FAILED ) return 3;
  std::fflush( vh::out() );
  vh::Rng g( vh::seed() + 23 );
  int const x = vh::thorough() ? 66 : 11;
#if SUB == 0
  bnd< 1 >( g, x ); bnd< 5 >( g, x ); bnd< 2, 3 >( g, x ); bnd< 3, 1 >( g, x );
  bndOther< 4 >( g ); bndOther< 3, 2 >( g ); bndOther< 2, 4, 3 >( g ); bndOther< 2, 3, 1, 2, 3 >( g );
#elif SUB == 9
  (void)x;
#include "bshapes.inc"
#elif SUB == 2
  bndLarge< 300 >( g ); bndLarge< 69000 >( g ); bndLarge< 200, 300 >( g ); bndLarge< 2, 34000 >( g ); bndLarge< 130, 2, 260 >( g );
#else
  bnd< 4, 2, 3 >( g, x ); bnd< 2, 3, 2 >( g, x ); bnd< 2, 1, 3, 2 >( g, x / 2 );
#endif
#endif
  vh::close();
  return 0;
}
