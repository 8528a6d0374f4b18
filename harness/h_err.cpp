// Programs of assertions, each run in a child process.   h_err OUT SCRIPT
#include "vh.hpp"
#include "script.hpp"
#include "shiva/common/ShivaErrorHandling.hpp"
#include <csignal>
#include <cstring>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
using vh::Ev;

struct Shared { volatile int conds, args, done; };
static Shared * S;
static bool cnd( bool b ) { S->conds = S->conds + 1; return b; }
static int * ptr( bool b ) { static int x; S->conds = S->conds + 1; return b ? &x : nullptr; }
static long long wide( bool b ) { S->conds = S->conds + 1; return b ? 0x100000000LL : 0; }
static double frac( bool b ) { S->conds = S->conds + 1; return b ? 0.25 : 0.0; }
static int val( bool b ) { S->conds = S->conds + 1; return b ? 3 : -3; }
template< typename T > static T arg( T v ) { S->args = S->args + 1; return v; }
static std::string rep( int n ) { return std::string( std::size_t( n ), 'x' ); }

// passing assertions are usable in constant expressions
constexpr int checked( int i ) { SHIVA_ASSERT_MSG( i >= 0, "negative %d", i ); SHIVA_ASSERT_MSG( i < 9, "big" ); return i + 1; }
static_assert( checked( 4 ) == 5 );

static std::string ops;
static bool logging;
static void note( char const * o, bool cond, bool abort, char const * file, int line, int fmt, int a, int b, int nargs )
{
  if( !logging ) return;
  ops += std::string( ops.empty() ? "" : "," ) + "{\"o\":\"" + o + "\",\"cond\":" + ( cond ? "true" : "false" ) + ",\"abort\":" + ( abort ? "true" : "false" ) + ",\"file\":" + vh::quote( file ) + ",\"line\":" + std::to_string( line )
         + ",\"fmt\":" + std::to_string( fmt ) + ",\"a\":" + std::to_string( a ) + ",\"b\":" + std::to_string( b ) + ",\"nargs\":" + std::to_string( nargs ) + "}";
}
// in the parent the program is only listed, in the child it is executed
#define USE( OK, COND, FMT, NARGS, ... ) do { if( logging ) note( "use", OK, true, __FILE__, __LINE__, FMT, a, b, NARGS ); else { SHIVA_ASSERT_MSG( COND, __VA_ARGS__ ); S->done = S->done + 1; } } while( 0 )

static void use( int site, bool ok, int a, int b )
{
  bool const one = true, zero = false;
  bool x = false; (void)x;
  switch( site )
  {
    case 1: USE( ok, cnd( ok ), 0, 0, "plain text" ); break;
    case 2: USE( ok, cnd( ok ) || zero, 1, 1, "value %d end", arg( a ) ); break;
    case 3: USE( ok, !cnd( !ok ), 2, 2, "%s and %s", arg( "left" ), arg( "right" ) ); break;
    case 4: USE( ok, cnd( ok ) && one, 3, 1, "100%% of %d", arg( a ) ); break;
    case 5: USE( ok, cnd( ok ) ? one : zero, 4, 2, "Index out of bounds: 0 < index(%jd) < dim(%jd)", arg( (std::intmax_t)a ), arg( (std::intmax_t)b ) ); break;
    case 6: USE( ok, ptr( ok ), 5, 2, "%g %c", arg( 2.5 ), arg( 'z' ) ); break;
    case 7: USE( ok, wide( ok ), 6, 1, "long %s!", arg( rep( b ) ).c_str() ); break;
    case 8: USE( ok, frac( ok ), 7, 3, "%5d|%-4d|%04x", arg( 42 ), arg( 7 ), arg( 255 ) ); break;
    case 9: USE( ok, x = cnd( ok ), 8, 1, "%lld", arg( 9223372036854775807LL ) ); break;
    case 10: USE( ok, val( ok ) > 0, 9, 0, "" ); break;
    case 11: USE( ok, ( (void)one, cnd( ok ) ), 10, 1, "%s", arg( "%d %n%%" ) ); break;
    case 12:
      if( logging ) { note( "use", ok, true, __FILE__, __LINE__ + 1, 11, a, b, 4 ); break; }
      if( one ) SHIVA_ASSERT_MSG( cnd( ok ), "%d %.2f %s %u", arg( a ), arg( 0.75 ), arg( "str" ), arg( 7u ) ); else std::abort();
      S->done = S->done + 1;
      break;
    case 13:
      for( int i = 0; i < 3; ++i )
      {
        USE( ok, cnd( ok ), 1, 1, "value %d end", arg( a ) );
        if( !ok ) break;
      }
      break;
    default:
#line 500 "some dir/%d%s odd.hpp"
      [&] { auto const f = [&] ( auto good ) { USE( ok, cnd( good ), 2, 2, "%s and %s", arg( "left" ), arg( "right" ) ); }; f( ok ); } ();
#line 160 "h_err.cpp"
  }
}
static void call( int site, int f, bool ab, int a, int b )
{
  static std::string const deep = [] { std::string s; for( int q = 0; q < 150; ++q ) s += "/part" + std::to_string( q * q ); return s + "/file.hpp"; }();
  char const * const file = site == 3 ? deep.c_str() : site == 0 ? "direct.cpp" : site == 1 ? "/a/b c/very/long/path/with/many/parts/to/some/header/file/in/a/library/of/headers.hpp" : "x%sy%d.hpp";
  int const line = site == 0 ? 1 : site == 1 ? 2147483647 : 98765;
  static int const na[] = { 0, 1, 2, 1, 2, 2, 1, 3, 1, 0, 1, 4 };
  if( logging ) { note( "call", false, ab, file, line, f, a, b, na[f] ); return; }
  switch( f )
  {
    case 0: shivaAssertionFailed( file, line, ab, "plain text" ); break;
    case 1: shivaAssertionFailed( file, line, ab, "value %d end", arg( a ) ); break;
    case 2: shivaAssertionFailed( file, line, ab, "%s and %s", arg( "left" ), arg( "right" ) ); break;
    case 3: shivaAssertionFailed( file, line, ab, "100%% of %d", arg( a ) ); break;
    case 4: shivaAssertionFailed( file, line, ab, "Index out of bounds: 0 < index(%jd) < dim(%jd)", arg( (std::intmax_t)a ), arg( (std::intmax_t)b ) ); break;
    case 5: shivaAssertionFailed( file, line, ab, "%g %c", arg( 2.5 ), arg( 'z' ) ); break;
    case 6: shivaAssertionFailed( file, line, ab, "long %s!", arg( rep( b ) ).c_str() ); break;
    case 7: shivaAssertionFailed( file, line, ab, "%5d|%-4d|%04x", arg( 42 ), arg( 7 ), arg( 255 ) ); break;
    case 8: shivaAssertionFailed( file, line, ab, "%lld", arg( 9223372036854775807LL ) ); break;
    case 9: shivaAssertionFailed( file, line, ab, "" ); break;
    case 10: shivaAssertionFailed( file, line, ab, "%s", arg( "%d %n%%" ) ); break;
    default: shivaAssertionFailed( file, line, ab, "%d %.2f %s %u", arg( a ), arg( 0.75 ), arg( "str" ), arg( 7u ) );
  }
  S->done = S->done + 1;
}
static void program( vh::Node const & p )
{
  for( auto const & n : p.k )
  {
    int const site = n[0].i();
    if( site <= 14 ) use( site, !n[1].i(), n[4].i(), n[5].i() );
    else call( site - 15, n[2].i(), n[3].i(), n[4].i(), n[5].i() );
  }
}
static std::string lines( std::string const & t, int & n )
{
  std::string s; std::size_t p = 0; n = 0;
  while( p < t.size() ) { std::size_t e = t.find( '\n', p ); if( e == std::string::npos ) e = t.size(); s += ( n++ ? "," : "" ) + vh::quote( t.substr( p, e - p ) ); p = e + 1; }
  return "[" + s + "]";
}

int main( int argc, char ** argv )
{
  vh::open( argc, argv );
  S = static_cast< Shared * >( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  if( S == MAP_FAILED ) return 3;
  std::fflush( vh::out() );
  for( auto const & p : vh::scripts( argv[2] ) )
  {
    ops.clear(); logging = true; program( p ); logging = false;
    S->conds = 0; S->args = 0; S->done = 0;
    int pe[2], po[2];
    if( pipe( pe ) != 0 || pipe( po ) != 0 ) return 3;
    pid_t const c = fork();
    if( c < 0 ) return 3;
    if( c == 0 )
    {
      dup2( pe[1], 2 ); dup2( po[1], 1 ); close( pe[0] ); close( po[0] ); close( pe[1] ); close( po[1] );
      rlimit const z{ 0, 0 }; setrlimit( RLIMIT_CORE, &z );
      alarm( 20 );
      program( p );
      std::fflush( stdout ); std::fflush( stderr );
      _exit( 0 );
    }
    close( pe[1] ); close( po[1] );
    auto drain = [] ( int fd ) { std::string s; char buf[4096]; ssize_t k; while( ( k = read( fd, buf, sizeof buf ) ) > 0 ) s.append( buf, std::size_t( k ) ); close( fd ); return s; };
    std::string const err = drain( pe[0] ), out = drain( po[0] );
    int st = 0;
    while( waitpid( c, &st, 0 ) < 0 ) {}
    char const * const how = WIFEXITED( st ) ? ( WEXITSTATUS( st ) == 0 ? "ok" : "exit" ) : ( WTERMSIG( st ) == SIGABRT ? "abort" : "signal" );
    int n = 0;
    std::string const l = lines( err, n );
    Ev( "prog" ).raw( "ops", "[" + ops + ( ops.empty() ? "" : "," ) + "{\"o\":\"end\",\"how\":\"" + how + "\",\"conds\":" + std::to_string( S->conds ) + ",\"args\":" + std::to_string( S->args ) + ",\"done\":" + std::to_string( S->done )
                             + ",\"lines\":" + l + ",\"nl\":" + ( err.empty() || err.back() == '\n' ? "true" : "false" ) + ",\"out\":" + ( out.empty() ? "false" : "true" ) + "}]" );
  }
  vh::close();
  return 0;
}
