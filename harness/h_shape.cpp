// Face counts and measures of cubes and simplices (PART_SHAPE); integer math (PART_MATH).
#include "vh.hpp"
#include "shiva/common/MathUtilities.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"
#include <limits>
using namespace shiva;
using vh::Ev;

// ---- C17
template< template< typename, int, int, int, int > class SH > struct Cnt;
template<> struct Cnt< geometry::NCube >
{
  static constexpr char const * name = "cube";
  template< typename S, int M > static constexpr int m() { return S::template numMCubes< M >(); }
};
template<> struct Cnt< geometry::NSimplex >
{
  static constexpr char const * name = "simplex";
  template< typename S, int M > static constexpr int m() { return S::template numMSimplexes< M >(); }
};
template< template< typename, int, int, int, int > class SH, typename S, int ... M > std::vector< int > ctCounts( std::integer_sequence< int, M ... > )
{ constexpr int a[] = { Cnt< SH >::template m< S, M >() ... }; return std::vector< int >( a, a + sizeof ... ( M ) ); }
template< template< typename, int, int, int, int > class SH, typename S, int ... M > std::vector< int > rtCounts( std::integer_sequence< int, M ... > )
{ std::vector< int > v; ( v.push_back( Cnt< SH >::template m< S, M >() ), ... ); return v; }

template< template< typename, int, int, int, int > class SH, typename R, int N, int MN, int MX, int DV > void faces()
{
  using S = SH< R, N, MN, MX, DV >;
  constexpr int v = S::numVertices(), e = S::numEdges(), f = S::numFaces(), c = S::numCells(), h = S::numHyperFaces(), nd = S::numDims();
  Ev ev( "faces" );
  ev.f( "shape", Cnt< SH >::name ).f( "n", N ).f( "nd", nd );
  ev.f( "m", ctCounts< SH, S >( std::make_integer_sequence< int, N + 1 >{} ) ).f( "mrt", rtCounts< SH, S >( std::make_integer_sequence< int, N + 1 >{} ) );
  ev.f( "v", v ).f( "e", e ).f( "f", f ).f( "c", c ).f( "h", h );
}
template< template< typename, int, int, int, int > class SH, typename R, int N, int MN, int MX, int DV > void meas()
{
  using S = SH< R, N, MN, MX, DV >;
  auto log = [] ( R a, R b, R l, R v, int ct )
  {
    Ev ev( "meas" );
    ev.f( "shape", Cnt< SH >::name ).f( "t", vh::tname< R >() ).f( "n", N ).f( "mn", MN ).f( "mx", MX ).f( "dv", DV ).f( "ct", ct );
    ev.f( "minc", a ).f( "maxc", b ).f( "len", l ).f( "vol", v );
  };
  constexpr R a = S::minCoord(), b = S::maxCoord(), l = S::length(), v = S::volume();
  log( a, b, l, v, 1 );
  log( S::minCoord(), S::maxCoord(), S::length(), S::volume(), 0 );
}
// a shape by its name, with what the name stands for
struct Rec { double a, b, l, v; int n, mn, mx, dv; };
static void logRec( char const * shape, char const * t, Rec const & r, int ct )
{
  auto put = [&] ( auto z )
  {
    using R = decltype(z);
    Ev ev( "meas" );
    ev.f( "shape", shape ).f( "t", t ).f( "n", r.n ).f( "mn", r.mn ).f( "mx", r.mx ).f( "dv", r.dv ).f( "ct", ct );
    ev.f( "minc", R( r.a ) ).f( "maxc", R( r.b ) ).f( "len", R( r.l ) ).f( "vol", R( r.v ) );
  };
  if( t[0] == 'f' ) put( 0.0f ); else put( 0.0 );
}
template< typename S > void named( char const * shape, int n, int mn, int mx )
{
  using R = typename S::RealType;
  logRec( shape, vh::tname< R >(), Rec{ S::minCoord(), S::maxCoord(), S::length(), S::volume(), n, mn, mx, 1 }, 0 );
  Ev ev( "alias" );
  ev.f( "shape", shape ).f( "n", n ).f( "nd", S::numDims() ).f( "cd", int( sizeof( typename S::CoordType ) / sizeof( R ) ) ).f( "v", S::numVertices() ).f( "e", S::numEdges() ).f( "f", S::numFaces() ).f( "c", S::numCells() );
}
// the same for a grid of extents and divisors, dimensions 1..NMAX in turn
template< template< typename, int, int, int, int > class SH, typename R, int NMAX, int Q, int N = 1 + ( Q * 5 ) % NMAX, int MN = -4 + Q / 4 % 8, int MX = MN + 1 + ( Q * 7 / 3 ) % 9, int DV = 1 + ( Q + Q / 8 ) % 11 > struct At
{
  using S = SH< R, N, MN, MX, DV >;
  static constexpr Rec ct() { return Rec{ S::minCoord(), S::maxCoord(), S::length(), S::volume(), N, MN, MX, DV }; }
};
template< template< typename, int, int, int, int > class SH, typename R, int NMAX, int ... Q > void grid( std::integer_sequence< int, Q ... > )
{
  constexpr Rec c[] = { At< SH, R, NMAX, Q >::ct() ... };
  for( auto const & r : c ) logRec( Cnt< SH >::name, vh::tname< R >(), r, 1 );
  Rec const d[] = { At< SH, R, NMAX, Q >::ct() ... };
  for( auto const & r : d ) logRec( Cnt< SH >::name, vh::tname< R >(), r, 0 );
}
template< template< typename, int, int, int, int > class SH, int NMAX > void shapeAll()
{
  grid< SH, double, NMAX >( std::make_integer_sequence< int, 320 >{} ); grid< SH, float, NMAX >( std::make_integer_sequence< int, 120 >{} );
  vh::sfor< NMAX >( [] ( auto i ) { faces< SH, double, decltype(i)::value + 1, -1, 1, 1 >(); } );
  faces< SH, float, 3, 0, 1, 1 >(); faces< SH, float, 4, -7, 3, 5 >(); faces< SH, double, 2, 5, 9, 2 >();
  vh::sfor< 7 >( [] ( auto i )
  {
    constexpr int N = decltype(i)::value + 1;
    meas< SH, double, N, -1, 1, 1 >(); meas< SH, double, N, 0, 1, 1 >(); meas< SH, double, N, -1, 1, 2 >(); meas< SH, double, N, 2, 9, 3 >();
    meas< SH, double, N, -11, -4, 7 >(); meas< SH, double, N, -3, 0, 10 >(); meas< SH, double, N, 1, 1000, 9973 >();
    meas< SH, double, N, -2000000000, 2000000000, 1 >(); meas< SH, double, N, 2147483646, 2147483647, 2147483647 >();
    meas< SH, float, N, -1, 1, 1 >(); meas< SH, float, N, -5, 8, 3 >(); meas< SH, float, N, 16777216, 16777217, 1 >();
  } );
  meas< SH, double, 2, std::numeric_limits< int >::min(), std::numeric_limits< int >::max(), 1 >();
  meas< SH, double, 3, std::numeric_limits< int >::min(), std::numeric_limits< int >::max(), 65536 >();
}

// ---- C20
template< typename T > std::string big( T v ) { if constexpr ( std::is_signed_v< T > ) return vh::bigint( v ); else return vh::ubigint( v ); }
template< typename T > constexpr char const * iname()
{ return std::is_signed_v< T > ? ( sizeof( T ) == 1 ? "i8" : sizeof( T ) == 2 ? "i16" : sizeof( T ) == 4 ? "i32" : "i64" ) : ( sizeof( T ) == 1 ? "u8" : sizeof( T ) == 2 ? "u16" : sizeof( T ) == 4 ? "u32" : "u64" ); }

template< typename T > bool fits( T b, int e )
{
  __int128 r = 1;
  for( int i = 0; i < e; ++i )
  {
    r *= b;
    if( r > static_cast< __int128 >( std::numeric_limits< T >::max() ) || r < static_cast< __int128 >( std::numeric_limits< T >::min() ) ) return false;
  }
  return true;
}
template< typename T, int E > void powsOf( std::vector< T > const & bases )
{
  for( T b : bases )
    if( fits( b, E ) )
    {
      T volatile bv = b;
      T const r = mathUtilities::pow< T, E >( bv );
      Ev ev( "pow" );
      ev.f( "t", iname< T >() ).raw( "b", big( b ) ).f( "e", E ).raw( "r", big( r ) );
    }
}
template< typename T > void powAll( vh::Rng & r )
{
  std::vector< T > bases;
  int const lo = std::is_signed_v< T > ? -12 : 0;
  for( int b = lo; b <= 12; ++b ) bases.push_back( T( b ) );
  for( long long b : { 15LL, 16LL, 17LL, 100LL, 181LL, 182LL, 255LL, 256LL, 1290LL, 1291LL, 46340LL, 65535LL, 65536LL, 2097151LL, 3037000499LL, 4294967295LL } )
    if( b <= static_cast< long long >( std::min< unsigned long long >( std::numeric_limits< T >::max(), 9000000000000000000ULL ) ) )
    { bases.push_back( T( b ) ); if( std::is_signed_v< T > ) bases.push_back( T( -b ) ); }
  bases.push_back( std::numeric_limits< T >::max() ); bases.push_back( std::numeric_limits< T >::min() );
  for( int i = 0; i < ( vh::thorough() ? 200 : 10 ); ++i ) bases.push_back( T( r.next() >> ( r.next() % 63 ) ) );
  vh::sfor< 21 >( [&] ( auto e ) { powsOf< T, decltype(e)::value >( bases ); } );
  powsOf< T, 30 >( bases ); powsOf< T, 31 >( bases ); powsOf< T, 32 >( bases ); powsOf< T, 40 >( bases ); powsOf< T, 62 >( bases ); powsOf< T, 63 >( bases ); powsOf< T, 64 >( bases );
  vh::sfor< 20 >( [&] ( auto e ) { powsOf< T, decltype(e)::value + 41 >( bases ); } );
  powsOf< T, 100 >( bases ); powsOf< T, 127 >( bases ); powsOf< T, 128 >( bases ); powsOf< T, 1000 >( bases ); powsOf< T, 4097 >( bases );
}
template< typename T, int B, int E > void powCt()
{
  constexpr T r = mathUtilities::pow< T, E >( T( B ) );
  Ev ev( "pow" );
  ev.f( "ct", 1 ).f( "t", iname< T >() ).raw( "b", big( T( B ) ) ).f( "e", E ).raw( "r", big( r ) );
}
template< typename R > void powF( vh::Rng & rng )
{
  vh::sfor< 33 >( [&] ( auto ee )
  {
    constexpr int E = decltype(ee)::value <= 24 ? decltype(ee)::value : ( decltype(ee)::value - 24 ) * 16 + decltype(ee)::value % 3 - 1;      // up to 129
    std::vector< R > bs{ R( 0 ), R( 1 ), R( -1 ), R( 2 ), R( -2 ), R( 0.5 ), R( 1.1 ), R( -1.3 ), R( 10 ), R( 0.1 ), R( -7.25 ), R( 1 ) / 3 };
    for( int i = 0; i < ( vh::thorough() ? 60 : 6 ); ++i ) bs.push_back( R( rng.sym( 12 ) ) );
    for( R b : bs )
    {
      if( b != 0 && std::fabs( std::log10( std::fabs( double( b ) ) ) * E ) > ( sizeof( R ) == 4 ? 30 : 290 ) ) continue;      // out of range
      R volatile bv = b;
      R const r = mathUtilities::pow< R, E >( bv );
      Ev ev( "powf" );
      ev.f( "t", vh::tname< R >() ).f( "b", b ).f( "e", E ).f( "r", r );
    }
  } );
  constexpr R c = mathUtilities::pow< R, 7 >( R( -1.5 ) ), c0 = mathUtilities::pow< R, 0 >( R( -1.5 ) );
  Ev( "powf" ).f( "ct", 1 ).f( "t", vh::tname< R >() ).f( "b", R( -1.5 ) ).f( "e", 7 ).f( "r", c );
  Ev( "powf" ).f( "ct", 1 ).f( "t", vh::tname< R >() ).f( "b", R( -1.5 ) ).f( "e", 0 ).f( "r", c0 );
}
template< typename T, int N > void factorials()
{
  vh::sfor< N + 1 >( [] ( auto i )
  {
    constexpr T r = mathUtilities::factorial< T, T( decltype(i)::value ) >::value;
    Ev( "fact" ).f( "t", iname< T >() ).f( "n", int( decltype(i)::value ) ).raw( "r", big( r ) );
    vh::sfor< decltype(i)::value + 1 >( [] ( auto j )
    {
      constexpr int n = decltype(i)::value, k = decltype(j)::value;
      constexpr T b = mathUtilities::binomialCoefficient< T, T( n ), T( k ) >::value;
      Ev( "binom" ).f( "t", iname< T >() ).f( "n", n ).f( "m", k ).raw( "r", big( b ) );
    } );
  } );
}

int main( int argc, char ** argv )
{
  vh::open( argc, argv );
  vh::Rng r( vh::seed() );
  (void)r;
#if defined(PART_SHAPE)
  shapeAll< geometry::NCube, 12 >();
  shapeAll< geometry::NSimplex, 11 >();
  named< geometry::Square< double > >( "cube", 2, -1, 1 ); named< geometry::Square< float > >( "cube", 2, -1, 1 );
  named< geometry::Cube< double > >( "cube", 3, -1, 1 ); named< geometry::Cube< float > >( "cube", 3, -1, 1 );
  named< geometry::Triangle< double > >( "simplex", 2, 0, 1 ); named< geometry::Triangle< float > >( "simplex", 2, 0, 1 );
  named< geometry::Tetrahedron< double > >( "simplex", 3, 0, 1 ); named< geometry::Tetrahedron< float > >( "simplex", 3, 0, 1 );
#endif
#if defined(PART_MATH)
  powAll< int >( r ); powAll< long long >( r ); powAll< unsigned >( r ); powAll< unsigned long long >( r ); powAll< short >( r ); powAll< signed char >( r ); powAll< unsigned char >( r ); powAll< unsigned short >( r );
  powCt< int, 3, 19 >(); powCt< int, -2, 31 >(); powCt< int, 7, 0 >(); powCt< long long, 10, 18 >(); powCt< unsigned long long, 15, 16 >(); powCt< int, 0, 0 >(); powCt< int, 0, 5 >();
  powF< double >( r ); powF< float >( r );
#endif
#if defined(PART_BINOM)
  factorials< int, 12 >(); factorials< unsigned, 12 >(); factorials< long, 20 >(); factorials< unsigned long long, 20 >(); factorials< short, 7 >(); factorials< signed char, 5 >(); factorials< unsigned char, 5 >(); factorials< unsigned short, 8 >(); factorials< long long, 20 >();
#endif
  vh::close();
  return 0;
}
