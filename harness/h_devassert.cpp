// Assertions and checked accesses in code compiled for the device (the device's pass over the sources), run here.   h_devassert OUT
// Each case runs in a child process: how it ends and what it prints are logged.
#include "vh.hpp"
#include "shiva/common/ShivaErrorHandling.hpp"
#include "shiva/common/CArray.hpp"
#include "shiva/common/pmpl.hpp"
#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace shiva;
using vh::Ev;
static std::string capture;
struct Seen { std::string said; bool trapped, ended; };
template< typename F > Seen child( F && f )
{
  std::fflush( stdout );
  pid_t const c = fork();
  if( c < 0 ) std::exit( 3 );
  if( c == 0 )
  {
    int const fd = ::open( capture.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600 );
    dup2( fd, 1 ); dup2( fd, 2 );
    std::setvbuf( stdout, nullptr, _IONBF, 0 );
    f();
    _exit( 0 );
  }
  int st = 0;
  waitpid( c, &st, 0 );
  Seen s{ "", WIFSIGNALED( st ) && ( WTERMSIG( st ) == SIGTRAP || WTERMSIG( st ) == SIGILL || WTERMSIG( st ) == SIGABRT ), WIFEXITED( st ) && WEXITSTATUS( st ) == 0 };
  char b[4096]; std::size_t k;
  FILE * in = std::fopen( capture.c_str(), "rb" );
  while( ( k = std::fread( b, 1, sizeof( b ), in ) ) > 0 ) s.said.append( b, k );
  std::fclose( in );
  return s;
}
template< typename F > void one( char const * what, bool cond, std::string const & message, std::string const & place, F && f )
{
  Seen const s = child( f );
  Ev( "assert" ).f( "what", what ).f( "cond", cond ).f( "trapped", s.trapped ).f( "passed", s.ended ).f( "silent", s.said.empty() )
    .f( "told", s.said.find( message ) != std::string::npos && s.said.find( place ) != std::string::npos );
}
#define HERE std::string( __FILE__ ) + ":" + std::to_string( __LINE__ )
static bool conditions( int k, bool v ) { switch( k ) { case 0: return v; case 1: return v && true; case 2: return !!v; default: return v; } }
struct Convertible { bool v; explicit operator bool() const { return v; } };
int main( int argc, char ** argv )
{
  vh::open( argc, argv );
  capture = std::string( argv[1] ) + ".said";
  for( bool const v : { true, false } )
  {
    std::string at = HERE; one( "plain", v, "it is so", at, [v] { SHIVA_ASSERT_MSG( v, "it is so" ); } );
    at = HERE; one( "call", v, "a long message, with: punctuation [1]", at, [v] { SHIVA_ASSERT_MSG( conditions( 1, v ), "a long message, with: punctuation [1]" ); } );
    at = HERE; one( "or", v, "second", at, [v] { int const k = v; SHIVA_ASSERT_MSG( k > 0 || k < 0, "second" ); } );
    at = HERE; one( "pointer", v, "no pointer", at, [v] { int x = 0; int const * p = v ? &x : nullptr; SHIVA_ASSERT_MSG( p, "no pointer" ); } );
    at = HERE; one( "object", v, "no object", at, [v] { SHIVA_ASSERT_MSG( Convertible{ v }, "no object" ); } );
    at = HERE; one( "kernel", v, "in a kernel", at, [v] { pmpl::genericKernelWrapper( [v] { SHIVA_ASSERT_MSG( v, "in a kernel" ); } ); } );
  }
  one( "direct", false, "said directly", "file.cu:77", [] { shivaAssertionFailed( "file.cu", 77, true, "said directly" ); } );
#if defined( SHIVA_ENABLE_BOUNDS_CHECK )
  for( int i = -1; i < 4; ++i ) for( int j = -1; j < 3; ++j )
  {
    bool const in = i >= 0 && i < 3 && j >= 0 && j < 2;
    one( "parentheses", in, "", ".hpp:", [i, j] { CArrayNd< int, 3, 2 > a{ 1, 2, 3, 4, 5, 6 }; if( a( i, j ) != 1 + 2 * i + j ) _exit( 9 ); } );
    one( "brackets", in, "", ".hpp:", [i, j] { CArrayNd< int, 3, 2 > a{ 1, 2, 3, 4, 5, 6 }; if( a[i][j] != 1 + 2 * i + j ) _exit( 9 ); } );
  }
#endif
  std::remove( capture.c_str() );
  vh::close();
  return 0;
}
