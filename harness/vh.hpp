// Logging helpers for the conformance harnesses: one JSON object per line, floating-point
// numbers as exact [sign, exponent, limb0..limb3] tuples (see spec/RatPure.tla, P_RFloat).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace vh
{
inline FILE * & out() { static FILE * f = stdout; return f; }
inline void open( int argc, char ** argv )
{
  if( argc > 1 )
  {
    out() = std::fopen( argv[1], "w" );
    if( !out() ) { std::perror( argv[1] ); std::exit( 3 ); }
    static char buf[1 << 20];
    std::setvbuf( out(), buf, _IOFBF, sizeof buf );
  }
}
inline void close() { if( std::fflush( out() ) != 0 ) std::exit( 3 ); }

inline std::string num( double v )
{
  if( std::isnan( v ) ) return "[9,0]";
  if( std::isinf( v ) ) return v > 0 ? "[8,0]" : "[7,0]";
  if( v == 0 ) return "[0,0,0,0,0,0]";
  int e; double m = std::frexp( std::fabs( v ), &e );
  std::uint64_t u = static_cast< std::uint64_t >( std::ldexp( m, 53 ) );
  e -= 53;
  while( ( u & 1 ) == 0 ) { u >>= 1; ++e; }
  char b[96];
  std::snprintf( b, sizeof b, "[%d,%d,%u,%u,%u,%u]", v < 0 ? -1 : 1, e,
                 unsigned( u & 32767 ), unsigned( ( u >> 15 ) & 32767 ), unsigned( ( u >> 30 ) & 32767 ), unsigned( u >> 45 ) );
  return b;
}
// integers of any width as big integers <<s, limbs base 2^15>>
inline std::string bigint( long long v )
{
  if( v == 0 ) return "[0]";
  unsigned long long u = v < 0 ? 0ULL - static_cast< unsigned long long >( v ) : static_cast< unsigned long long >( v );
  std::string s = v < 0 ? "[-1" : "[1";
  while( u ) { s += "," + std::to_string( u & 32767 ); u >>= 15; }
  return s + "]";
}
inline std::string ubigint( unsigned long long u )
{
  if( u == 0 ) return "[0]";
  std::string s = "[1";
  while( u ) { s += "," + std::to_string( u & 32767 ); u >>= 15; }
  return s + "]";
}
inline std::string quote( std::string const & v )
{
  std::string s = "\"";
  for( char ch : v )
  {
    unsigned char c = static_cast< unsigned char >( ch );
    if( c == '"' || c == '\\' ) { s += '\\'; s += char( c ); }
    else if( c == '\n' ) s += "\\n";
    else if( c < 32 || c > 126 ) { char b[8]; std::snprintf( b, sizeof b, "\\u%04x", c ); s += b; }
    else s += char( c );
  }
  return s + "\"";
}
template< typename T > std::string js( T const & v );
template< typename T, typename A > std::string js( std::vector< T, A > const & v )
{
  std::string s = "[";
  for( std::size_t i = 0; i < v.size(); ++i ) { if( i ) s += ","; s += js( T( v[i] ) ); }
  return s + "]";
}
template< typename T > std::string js( T const & v )
{
  if constexpr ( std::is_same_v< T, bool > ) return v ? "true" : "false";
  else if constexpr ( std::is_floating_point_v< T > ) return num( static_cast< double >( v ) );
  else if constexpr ( std::is_integral_v< T > ) return std::to_string( v );
  else return quote( std::string( v ) );
}
template< typename T > constexpr char const * tname() { return std::is_same_v< T, float > ? "f" : "d"; }

// Event builder:  Ev("kind").f("name", value)...;  written when it goes out of scope.
struct Ev
{
  std::string s;
  explicit Ev( char const * kind ) { s = std::string( "{\"k\":\"" ) + kind + "\""; }
  template< typename T > Ev & f( char const * name, T const & v ) { s += std::string( ",\"" ) + name + "\":" + js( v ); return *this; }
  Ev & f( char const * name, char const * v ) { s += std::string( ",\"" ) + name + "\":" + quote( v ); return *this; }
  Ev & raw( char const * name, std::string const & v ) { s += std::string( ",\"" ) + name + "\":" + v; return *this; }
  ~Ev() { s += "}\n"; std::fwrite( s.data(), 1, s.size(), out() ); }
  Ev( Ev const & ) = delete;
  Ev & operator=( Ev const & ) = delete;
};

// deterministic generator (splitmix64)
struct Rng
{
  std::uint64_t s;
  explicit Rng( std::uint64_t seed ): s( seed * 0x9E3779B97F4A7C15ULL + 0x1234567 ) {}
  std::uint64_t next() { std::uint64_t z = ( s += 0x9E3779B97F4A7C15ULL ); z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ULL; z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBULL; return z ^ ( z >> 31 ); }
  int below( int n ) { return static_cast< int >( next() % static_cast< std::uint64_t >( n ) ); }
  double unit() { return static_cast< double >( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
  double sym( double a = 1.0 ) { return ( 2 * unit() - 1 ) * a; }
};
#if !defined(VH_SALT)
#define VH_SALT 0
#endif
// (a second build of a harness, in another configuration, draws other numbers)
inline std::uint64_t seed() { char const * e = std::getenv( "VERIF_SEED" ); return ( e ? std::strtoull( e, nullptr, 10 ) : 1 ) + 7919u * VH_SALT; }
inline bool thorough() { char const * e = std::getenv( "VERIF_TIER" ); return e && !std::strcmp( e, "thorough" ); }

// static-for over an index list, independent of the code under test
template< typename F, int ... I > constexpr void sforImpl( F && f, std::integer_sequence< int, I ... > ) { ( f( std::integral_constant< int, I >{} ), ... ); }
template< int N, typename F > constexpr void sfor( F && f ) { sforImpl( f, std::make_integer_sequence< int, N >{} ); }
} // namespace vh
