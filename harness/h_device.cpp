// Kernel launches of a device build on the simulated device.   h_device OUT SCRIPT     (API: "cuda" / "hip")
#include "vh.hpp"
#include "script.hpp"
#include "shiva/common/pmpl.hpp"
#include <functional>
#include <memory>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace shiva;
using vh::Ev;
using vhdev::dev;

static constexpr int sizes[] = { 1, 7, 40, 3 };
static constexpr int G = 16;
template< typename T > struct Buf
{
  std::vector< T > v;
  int n;
  Buf( int b, int size ): v( std::size_t( size + 2 * G ), T( -77 ) ), n( size ) { for( int q = 0; q < n; ++q ) data()[q] = T( 10 * b + q + 1 ); }
  T * data() { return v.data() + G; }
  bool guards() { for( int q = 0; q < G; ++q ) if( v[q] != T( -77 ) || v[std::size_t( G + n + q )] != T( -77 ) ) return false; return true; }
  std::string js() { std::string s; for( int q = 0; q < n; ++q ) s += ( q ? "," : "" ) + std::to_string( (long long)data()[q] ); return "[" + s + "]"; }
};
static int wrap( int x ) { int const m = x % 1000; return m < 0 ? m + 1000 : m; }
static std::string capture;
static std::string slurp() { std::string s; char b[4096]; std::size_t k; FILE * f = std::fopen( capture.c_str(), "rb" ); if( !f ) std::exit( 3 ); while( ( k = std::fread( b, 1, sizeof( b ), f ) ) > 0 ) s.append( b, k ); std::fclose( f ); return s; }

struct World
{
  Buf< int > b1{ 1, sizes[0] }; Buf< double > b2{ 2, sizes[1] }; Buf< float > b3{ 3, sizes[2] }; Buf< long > b4{ 4, sizes[3] };
  std::vector< int > log;
  int sum = 0, calls = 0;
  bool onDevice = true, early = false;
  std::string ops;
  void enter( int id ) { ++calls; log.push_back( id ); if( !dev().running ) early = true; }
  template< typename T > static void effect( int fn, T * d, int n, int a )
  {
    switch( fn )
    {
      case 1: for( int q = 0; q < n; ++q ) d[q] += T( a ); break;
      case 2: d[n - 1] = T( a ); break;
      case 3: for( int q = 0; q < n / 2; ++q ) std::swap( d[q], d[n - 1 - q] ); break;
      case 5: d[0] = d[0] * 2 - T( a ); break;
      default: break;
    }
  }
  template< typename F > void with( int b, F && f ) { if( b == 1 ) f( b1 ); else if( b == 2 ) f( b2 ); else if( b == 3 ) f( b3 ); else f( b4 ); }
};
struct Functor { std::function< void() > const * f; void operator()() const { ( *f )(); } };
static std::function< void() > * plainFn;
static void plainFunction() { ( *plainFn )(); }
template< typename T > struct DFunctor { std::function< void( T * ) > const * f; void operator()( T * d ) const { ( *f )( d ); } };
static void launchPlain( int form, bool ab, std::function< void() > f )
{
  switch( form % 6 )
  {
    case 0: pmpl::genericKernelWrapper( [&f] { f(); }, ab ); break;
    case 1: { auto l = [f] { f(); }; pmpl::genericKernelWrapper( l, ab ); break; }
    case 2: { auto const l = [&f] { f(); }; if( ab ) pmpl::genericKernelWrapper( l ); else pmpl::genericKernelWrapper( l, false ); break; }
    case 3: pmpl::genericKernelWrapper( f, ab ); break;
    case 4: pmpl::genericKernelWrapper( Functor{ &f }, ab ); break;
    default: plainFn = &f; pmpl::genericKernelWrapper( plainFunction, ab ); break;
  }
}
template< typename T > void launchData( int form, bool ab, int n, T * d, std::function< void( T * ) > f )
{
  switch( form % 5 )
  {
    case 0: pmpl::genericKernelWrapper( n, d, [&f] ( T * p ) { f( p ); }, ab ); break;
    case 1: { auto l = [f] ( T * p ) { f( p ); }; pmpl::genericKernelWrapper( n, d, l, ab ); break; }
    case 2: { auto const l = [&f] ( T * const p ) { f( p ); }; if( ab ) pmpl::genericKernelWrapper( n, d, l ); else pmpl::genericKernelWrapper( n, d, l, false ); break; }
    case 3: pmpl::genericKernelWrapper( n, d, f, ab ); break;
    default: pmpl::genericKernelWrapper( n, d, DFunctor< T >{ &f }, ab ); break;
  }
}
static std::string note( World & w, std::string const & head, std::string const & said, int err, bool aborted )
{
  int left = int( dev().pending.size() );
  std::string const s = "{" + head + ",\"ran\":" + std::to_string( w.calls ) + ",\"ondevice\":" + ( w.onDevice && !w.early ? "true" : "false" ) + ",\"log\":" + vh::js( w.log ) + ",\"sum\":" + std::to_string( w.sum )
           + ",\"guards\":" + ( w.b1.guards() && w.b2.guards() && w.b3.guards() && w.b4.guards() ? "true" : "false" ) + ",\"bufs\":[" + w.b1.js() + "," + w.b2.js() + "," + w.b3.js() + "," + w.b4.js() + "]"
           + ",\"calls\":[" + dev().calls + "],\"waiting\":" + std::to_string( left ) + ",\"reported\":" + ( err && said.find( vhdev::text( err ) ) != std::string::npos ? "true" : "false" )
           + ",\"silent\":" + ( said.empty() ? "true" : "false" ) + ",\"aborted\":" + ( aborted ? "true" : "false" ) + "}";
  vhdev::leaveNothing();
  w.calls = 0; w.onDevice = true; w.early = false;
  return s;
}
static void run( vh::Node const & p )
{
  World w;
  int id = 0;
  static int const faults[] = { 700, 702, 719 };
  for( auto const & n : p.k )
  {
    ++id;
    int const kind = n[0].i(), form = n[1].i(), b = n[2].i(), off = n[3].i() % sizes[b - 1], fn = n[4].i(), a = n[5].i();
    bool const ab = n[6].i();
    int const fault = n[7].i() ? faults[id % 3] : 0;
    bool const dies = fault && ab;
    std::string head;
    auto launch = [&]
    {
      dev().fault = fault;
      if( kind == 1 ) launchPlain( form, ab, [&w, id, a] { w.enter( id ); w.sum = 3 * wrap( w.sum ) + a; } );
      else if( kind == 4 ) launchData< double >( form, ab, 0, nullptr, [&w, id] ( double * ) { w.enter( id ); } );
      else w.with( b, [&] ( auto & buf )
      {
        using T = std::remove_reference_t< decltype( *buf.data() ) >;
        T * const d = buf.data() + off;
        int const len = buf.n - off;
        launchData< T >( form, ab, len, d, [&w, len, id, a, fn] ( T * q ) { std::size_t o; w.enter( id ); if( vhdev::where( q, o ) == 0 ) w.onDevice = false; World::effect( fn, q, len, a ); } );
      } );
    };
    head = std::string( "\"o\":\"" ) + ( kind == 1 ? "plain" : kind == 4 ? "null" : "data" ) + "\",\"id\":" + std::to_string( id ) + ",\"a\":" + std::to_string( a ) + ",\"b\":" + std::to_string( b ) + ",\"fn\":" + std::to_string( fn )
           + ",\"off\":" + std::to_string( off ) + ",\"fault\":" + ( fault ? "true" : "false" ) + ",\"ab\":" + ( ab ? "true" : "false" );
    std::fflush( stdout ); std::fflush( stderr );
    int const keep1 = dup( 1 ), keep2 = dup( 2 ), fd = ::open( capture.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600 );
    if( fd < 0 ) std::exit( 3 );
    dup2( fd, 1 ); dup2( fd, 2 );
    bool aborted = false;
    if( dies )
    {
      // (a launch that is to abort runs in a copy of the process)
      pid_t const child = fork();
      if( child < 0 ) std::exit( 3 );
      if( child == 0 ) { std::setvbuf( stdout, nullptr, _IONBF, 0 ); launch(); _exit( 0 ); }
      int st = 0;
      waitpid( child, &st, 0 );
      aborted = WIFSIGNALED( st ) && WTERMSIG( st ) == SIGABRT;
    }
    else launch();
    std::fflush( stdout ); std::fflush( stderr );
    dup2( keep1, 1 ); dup2( keep2, 2 ); close( keep1 ); close( keep2 ); close( fd );
    std::string const said = slurp();
    w.ops += ( w.ops.empty() ? "" : "," ) + note( w, head, said, fault, aborted );
  }
  Ev( "dev" ).f( "sizes", std::vector< int >( sizes, sizes + 4 ) ).raw( "ops", "[" + w.ops + "]" );
}
template< typename T > void managed( int n )
{
  T * p = nullptr;
  deviceMallocManaged( &p, std::size_t( n ) * sizeof( T ) );
  for( int k = 0; k < n; ++k ) p[k] = T( k );
  pmpl::deallocateData( p );
  Ev( "managed" ).f( "n", n ).f( "size", int( sizeof( T ) ) ).raw( "calls", "[" + dev().calls + "]" );
  vhdev::leaveNothing();
}
// data of many sizes
template< typename T > void sized( int n )
{
  Buf< T > b( 1, n );
  for( int q = 0; q < n; ++q ) b.data()[q] = T( q % 50 );
  int calls = 0, seen = 0, right = 0;
  bool device = true;
  pmpl::genericKernelWrapper( n, b.data(), [&] ( T * d ) { std::size_t o; ++calls; device = device && dev().running && ( n == 0 || vhdev::where( d, o ) ); for( int q = 0; q < n; ++q ) { seen += d[q] == T( q % 50 ); d[q] += T( 1 ); } }, n % 2 == 0 );
  for( int q = 0; q < n; ++q ) right += b.data()[q] == T( q % 50 + 1 );
  Ev( "sized" ).f( "n", n ).f( "ran", calls ).f( "device", device ).f( "seen", seen ).f( "right", right ).f( "guards", b.guards() ).raw( "calls", "[" + dev().calls + "]" );
  vhdev::leaveNothing();
}
int main( int argc, char ** argv )
{
  vh::open( argc, argv );
  capture = std::string( argv[1] ) + ".said";
  if( argc > 2 ) for( auto const & p : vh::scripts( argv[2] ) ) run( p );
  else for( int n : { 0, 1, 8, 700 } ) { managed< double >( n ); managed< int >( n ); managed< char >( n ); }
  if( argc <= 2 ) for( int n : { 0, 1, 2, 3, 4, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4096, 5000, 65536, 70000, 1 << 20 } )
  { sized< double >( n ); sized< int >( n ); sized< char >( n ); sized< float >( n ); }
  std::remove( capture.c_str() );
  vh::close();
  return 0;
}
