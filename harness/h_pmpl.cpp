// Kernel launches and the tolerance predicate.   h_pmpl OUT SCRIPT
#include "vh.hpp"
#include "script.hpp"
#include "shiva/common/pmpl.hpp"
#include <chrono>
#include <functional>
#include <limits>
#include <memory>
#include <thread>
#include <cfloat>
using namespace shiva;
using vh::Ev;

static constexpr int sizes[] = { 1, 7, 40, 3 };
static constexpr int G = 16;              // guard elements on each side
template< typename T > struct Buf
{
  std::vector< T > v;
  int n;
  Buf( int b, int size ): v( std::size_t( size + 2 * G ), T( -77 ) ), n( size ) { for( int q = 0; q < n; ++q ) data()[q] = T( 10 * b + q + 1 ); }
  T * data() { return v.data() + G; }
  bool guards() { for( int q = 0; q < G; ++q ) if( v[q] != T( -77 ) || v[std::size_t( G + n + q )] != T( -77 ) ) return false; return true; }
  std::string js() { std::string s; for( int q = 0; q < n; ++q ) s += ( q ? "," : "" ) + std::to_string( (long long)data()[q] ); return "[" + s + "]"; }
};
static int wrap( int x ) { int const m = x % 1000; return m < 0 ? m + 1000 : m; }

struct World
{
  Buf< int > b1{ 1, sizes[0] }; Buf< double > b2{ 2, sizes[1] }; Buf< float > b3{ 3, sizes[2] }; Buf< long > b4{ 4, sizes[3] };
  std::vector< int > log;
  int sum = 0, calls = 0;
  bool samePtr = true, sameThread = true;
  std::thread::id const me = std::this_thread::get_id();
  std::string ops;
  void enter( int id, int a )
  {
    if( a % 17 == 0 ) std::this_thread::sleep_for( std::chrono::milliseconds( 1 ) );
    ++calls; log.push_back( id );
    if( std::this_thread::get_id() != me ) sameThread = false;
  }
  template< typename T > static void effect( int fn, T * d, int n, int a )
  {
    switch( fn )
    {
      case 1: for( int q = 0; q < n; ++q ) d[q] += T( a ); break;
      case 2: d[n - 1] = T( a ); break;
      case 3: for( int q = 0; q < n / 2; ++q ) std::swap( d[q], d[n - 1 - q] ); break;
      case 5: d[0] = d[0] * 2 - T( a ); break;
      default: break;
    }
  }
  template< typename F > void with( int b, F && f ) { if( b == 1 ) f( b1 ); else if( b == 2 ) f( b2 ); else if( b == 3 ) f( b3 ); else f( b4 ); }
  void note( std::string const & head )
  {
    ops += ( ops.empty() ? "{" : ",{" ) + head + ",\"calls\":" + std::to_string( calls ) + ",\"same\":" + ( samePtr && sameThread ? "true" : "false" ) + ",\"log\":" + vh::js( log ) + ",\"sum\":" + std::to_string( sum )
           + ",\"guards\":" + ( b1.guards() && b2.guards() && b3.guards() && b4.guards() ? "true" : "false" ) + ",\"bufs\":[" + b1.js() + "," + b2.js() + "," + b3.js() + "," + b4.js() + "]}";
    calls = 0; samePtr = sameThread = true;
  }
};
static std::function< void() > * plainFn;
static void plainFunction() { ( *plainFn )(); }
struct Functor { std::function< void() > const * f; void operator()() const { ( *f )(); } };
struct MutFunctor { std::function< void() > const * f; int k = 0; void operator()() { if( k++ == 0 ) ( *f )(); } };
template< typename T > struct DFunctor { std::function< void( T * ) > const * f; void operator()( T * d ) const { ( *f )( d ); } };
static void launchPlain( int form, bool ab, std::function< void() > f )
{
  switch( form )
  {
    case 0: pmpl::genericKernelWrapper( [&f] { f(); }, ab ); break;
    case 1: { auto l = [&f] { f(); }; pmpl::genericKernelWrapper( l, ab ); break; }
    case 2: { auto const l = [&f] { f(); }; pmpl::genericKernelWrapper( l ); break; }
    case 3: pmpl::genericKernelWrapper( f, ab ); break;
    case 4: pmpl::genericKernelWrapper( Functor{ &f } ); break;
    case 5: { MutFunctor m{ &f }; pmpl::genericKernelWrapper( m, ab ); break; }
    case 6: pmpl::genericKernelWrapper( [p = std::make_unique< std::function< void() > >( f )] { ( *p )(); }, ab ); break;
    default: plainFn = &f; pmpl::genericKernelWrapper( plainFunction, ab ); break;
  }
}
template< typename T > void launchData( int form, bool ab, int n, T * d, std::function< void( T * ) > f )
{
  switch( form )
  {
    case 0: pmpl::genericKernelWrapper( n, d, [&f] ( T * p ) { f( p ); }, ab ); break;
    case 1: { auto l = [&f] ( T * p ) { f( p ); }; pmpl::genericKernelWrapper( n, d, l, ab ); break; }
    case 2: { auto const l = [&f] ( T * const p ) { f( p ); }; pmpl::genericKernelWrapper( n, d, l ); break; }
    case 3: pmpl::genericKernelWrapper( n, d, f, ab ); break;
    case 4: pmpl::genericKernelWrapper( n, d, DFunctor< T >{ &f } ); break;
    case 5: pmpl::genericKernelWrapper( n, d, [&f, k = 0] ( T * p ) mutable { if( k++ == 0 ) f( p ); }, ab ); break;
    case 6: pmpl::genericKernelWrapper( n, d, [q = std::make_unique< std::function< void( T * ) > >( f )] ( T * p ) { ( *q )( p ); }, ab ); break;
    default: { T const * c = d; pmpl::genericKernelWrapper( n, c, [&f] ( T const * p ) { f( const_cast< T * >( p ) ); }, ab ); break; }      // (the buffer is not const)
  }
}
static void run( vh::Node const & p )
{
  World w;
  int id = 0;
  for( auto const & n : p.k )
  {
    ++id;
    int const kind = n[0].i(), form = n[1].i(), b = n[2].i(), off = n[3].i() % sizes[b - 1], fn = n[4].i(), a = n[5].i();
    bool const ab = n[6].i();
    std::string const tail = ",\"id\":" + std::to_string( id ) + ",\"a\":" + std::to_string( a ) + ",\"b\":" + std::to_string( b ) + ",\"fn\":" + std::to_string( fn );
    if( kind == 1 )
    {
      launchPlain( form, ab, [&w, id, a] { w.enter( id, a ); w.sum = 3 * wrap( w.sum ) + a; } );
      w.note( "\"o\":\"plain\"" + tail );
    }
    else if( kind == 3 )
    {
      w.with( b, [&] ( auto & buf ) { launchPlain( form, ab, [&w, &buf, id, a, fn] { w.enter( id, a ); w.sum = 3 * wrap( w.sum ) + a; World::effect( fn, buf.data(), buf.n, a ); } ); } );
      w.note( "\"o\":\"both\"" + tail );
    }
    else if( kind == 4 )
    {
      launchData< double >( form, ab, 0, nullptr, [&w, id, a] ( double * d ) { w.enter( id, a ); if( d ) w.samePtr = false; } );
      w.note( "\"o\":\"null\"" + tail );
    }
    else
    {
      w.with( b, [&] ( auto & buf )
      {
        using T = std::remove_reference_t< decltype( *buf.data() ) >;
        T * const d = buf.data() + off;
        int const len = buf.n - off;
        launchData< T >( form, ab, len, d, [&w, d, len, id, a, fn] ( T * p ) { w.enter( id, a ); if( p != d ) w.samePtr = false; World::effect( fn, p, len, a ); } );
      } );
      w.note( "\"o\":\"data\"" + tail + ",\"off\":" + std::to_string( off ) );
    }
  }
  Ev( "kern" ).f( "sizes", std::vector< int >( sizes, sizes + 4 ) ).raw( "ops", "[" + w.ops + "]" );
}
static int destroyed;
struct Counted { ~Counted() { ++destroyed; } };
template< typename T > void check( vh::Rng & g )
{
  auto one = [] ( T a, T b, T tol, bool exact )
  {
    bool const r = pmpl::check( a, b, tol );
    Ev( "chk" ).f( "t", vh::tname< T >() ).f( "a", a ).f( "b", b ).f( "tol", tol ).f( "r", r ).f( "exact", exact );
  };
  for( int x = -3; x <= 3; ++x ) for( int y = -3; y <= 3; ++y ) for( int t = 0; t <= 7; ++t ) one( T( x ) / 2, T( y ) / 2, T( t ) / 2, true );
  for( int k = 0; k < ( vh::thorough() ? 20000 : 800 ); ++k )
  {
    T const s = std::ldexp( T( 1 ), g.below( 60 ) - 30 );
    T const a = T( g.sym() ) * s;
    T const d = T( g.sym() ) * std::ldexp( s, -g.below( 20 ) );
    T const b = a + d;
    T const e = std::fabs( a - b );
    one( a, b, e * T( 0.5 ), false ); one( a, b, e * 2, false ); one( a, b, e, false ); one( a, b, std::nextafter( e, T( 0 ) ), false ); one( a, b, std::nextafter( e, T( 1e9 ) ), false ); one( b, a, T( g.unit() ) * s, false ); one( a, a, e, false );
    T const u = T( g.below( 2000001 ) - 1000000 ) / 64, v = T( g.below( 2000001 ) - 1000000 ) / 64;
    T const m = std::fabs( u - v );
    if( std::fabs( u ) < 8192 && std::fabs( v ) < 8192 ) { one( u, v, m, true ); one( u, v, m + T( 0.015625 ), true ); if( m > 0 ) one( u, v, m - T( 0.015625 ), true ); }
  }
  // the whole range of magnitudes: squares that underflow or overflow, differences that overflow, subnormal numbers
  constexpr int lo = std::numeric_limits< T >::min_exponent - std::numeric_limits< T >::digits + 1, hi = std::numeric_limits< T >::max_exponent - 2;
  for( int e = lo; e <= hi; e += ( vh::thorough() ? 1 : std::max( 1, ( hi - lo ) / 40 ) ) )
  {
    T const s = std::ldexp( T( 1 ), e );
    for( T d : { T( 0 ), T( 1 ), T( 2 ) } ) for( T t : { T( 0 ), T( 1 ), T( 2 ), T( 3 ) } ) { one( d * s, T( 0 ), t * s, true ); one( T( 0 ), d * s, t * s, true ); one( -s, ( d - 1 ) * s, t * s, true ); }
    one( s, T( 0 ), std::numeric_limits< T >::max(), true ); one( s, -s, std::numeric_limits< T >::min(), true ); one( T( 0 ), s, std::numeric_limits< T >::denorm_min(), true );
  }
  // differences far below the values (and the other way round), all of them representable: ties and the next tolerances
  for( int k = 0; k < ( vh::thorough() ? 6000 : 600 ); ++k )
  {
    int const e = std::numeric_limits< T >::min_exponent + g.below( std::numeric_limits< T >::max_exponent - std::numeric_limits< T >::min_exponent - 80 ) + 40;
    constexpr int top = std::numeric_limits< T >::digits - 1;
    long long const m = 1 + (long long)( g.next() % ( ( 1ULL << ( 1 + g.below( top ) ) ) ) ), w = (long long)( g.next() % ( 1ULL << ( 1 + g.below( top ) ) ) );
    T const sg = g.below( 2 ) ? T( 1 ) : T( -1 );
    int const f = k % 3 == 0 ? e : k % 3 == 1 ? g.below( 30 ) : -g.below( 30 );
    T const a = sg * std::ldexp( T( m ), f ), b = sg * std::ldexp( T( m + w ) , f ), d = std::ldexp( T( w ), f );
    if( m + w >= 1LL << ( top + 1 ) ) continue;
    one( a, b, d, true ); one( b, a, d, true ); one( -a, -b, std::nextafter( d, std::numeric_limits< T >::max() ), true ); one( a, b, std::nextafter( d, std::numeric_limits< T >::max() ), true );
    if( w ) { one( a, b, std::nextafter( d, T( 0 ) ), true ); one( b, a, d / 2, true ); }
    one( a, a, std::numeric_limits< T >::denorm_min(), true ); one( a, a, T( 0 ), true );
  }
  { T const m = std::numeric_limits< T >::max(); one( m, -m, m, false ); one( -m, m, m, false ); one( m, m, T( 1 ), true ); one( m, m / 2, m, true ); one( m, m / 2, m / 4, true ); one( m, T( 0 ), m, true ); }
  one( T( 1 ), T( 1 ), T( 0 ), true ); one( T( 0 ), T( -0.0 ), T( 0.25 ), true );
  static_assert( pmpl::check( T( 1 ), T( 1.5 ), T( 0.75 ) ) && !pmpl::check( T( 1 ), T( 2 ), T( 0.75 ) ) && !pmpl::check( T( 1 ), T( 1 ), T( 0 ) ) );
}
// data of many sizes
template< typename T > void sized( int n )
{
  Buf< T > b( 1, n );
  for( int q = 0; q < n; ++q ) b.data()[q] = T( q % 50 );
  int calls = 0, seen = 0, right = 0;
  bool same = true;
  pmpl::genericKernelWrapper( n, b.data(), [&] ( T * d ) { ++calls; same = same && d == b.data(); for( int q = 0; q < n; ++q ) { seen += d[q] == T( q % 50 ); d[q] += T( 1 ); } }, n % 2 == 0 );
  for( int q = 0; q < n; ++q ) right += b.data()[q] == T( q % 50 + 1 );
  Ev( "sized" ).f( "n", n ).f( "calls", calls ).f( "same", same ).f( "seen", seen ).f( "right", right ).f( "guards", b.guards() );
}
int main( int argc, char ** argv )
{
  vh::open( argc, argv );
  if( argc > 2 ) for( auto const & p : vh::scripts( argv[2] ) ) run( p );
  else
  {
    vh::Rng g( vh::seed() + 5 );
    check< double >( g ); check< float >( g );
    for( int n : { 0, 1, 2, 3, 4, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 5000, 65535, 65536, 70000 } )
    { sized< double >( n ); sized< int >( n ); sized< char >( n ); sized< float >( n ); }
    sized< char >( 3000000 ); sized< double >( 1 << 20 );
    for( int n : { 0, 1, 2, 17 } ) { destroyed = 0; Counted * p = new Counted[std::size_t( n )]; pmpl::deallocateData( p ); Ev( "dealloc" ).f( "n", n ).f( "destroyed", destroyed ); }
    { destroyed = 0; pmpl::deallocateData( static_cast< Counted * >( nullptr ) ); Ev( "dealloc" ).f( "n", 0 ).f( "destroyed", destroyed ); }
  }
  vh::close();
  return 0;
}
