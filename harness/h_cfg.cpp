// The same program of library operations for every build configuration, each operation evaluated in a constant
// expression and at run time.   h_cfg OUT      (-DPART=0..4 selects the operations)
// Every line: {"op", "t" (f|d|i|s), "u" (roundings), "when", "in", "v"};  check.py groups the lines of all configurations.
#include "vh.hpp"
#include "shiva/Shiva.hpp"
#include "shiva/common/CArray.hpp"
#include "shiva/common/IndexTypes.hpp"
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/NestedSequenceUtilities.hpp"
#include "shiva/common/SequenceUtilities.hpp"
#include "shiva/common/ShivaErrorHandling.hpp"
#include "shiva/common/pmpl.hpp"
#include "shiva/common/types.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include <sys/wait.h>
#include <unistd.h>
#ifndef PART
#define PART 0
#endif
using namespace shiva;
using namespace shiva::functions;
using namespace shiva::geometry;
using namespace shiva::geometry::utilities;
using shiva::discretizations::finiteElementMethod::ParentElement;

template< typename T, int N > struct Vec { T v[N]{}; static constexpr int n = N; };
template< typename R > struct In { R c[3]; R h[3]; R m[9]; R d[24]; int i[4]; };
template< typename R > constexpr In< R > input( int k )
{
  In< R > x{};
  R const c[4][3] = { { R( 0.25 ), R( -0.5 ), R( 0.75 ) }, { R( -1 ), R( 1 ), R( 0 ) }, { R( 0.3 ), R( 0.7 ), R( -0.9 ) }, { R( 1.25 ), R( -0.1 ), R( 0.6 ) } };
  for( int a = 0; a < 3; ++a ) { x.c[a] = c[k % 4][a]; x.h[a] = R( 1 + a ) + c[k % 4][a] / 2; }
  for( int a = 0; a < 9; ++a ) x.m[a] = ( a % 4 == 0 ? R( 3 ) : R( 0 ) ) + R( ( a * 5 + k * 3 ) % 7 ) / 8;
  for( int a = 0; a < 24; ++a ) x.d[a] = R( ( a * 11 + k * 5 ) % 17 ) / 4 - R( 2 );
  x.i[0] = 0; x.i[1] = k % 2; x.i[2] = k % 3; x.i[3] = k % 4;
  return x;
}
template< typename R > In< R > launder( In< R > const & x )
{
  In< R > y;
  auto cp = [] ( auto & a, auto const & b ) { std::remove_const_t< std::remove_reference_t< decltype( b ) > > volatile t = b; a = t; };
  for( int a = 0; a < 3; ++a ) { cp( y.c[a], x.c[a] ); cp( y.h[a], x.h[a] ); }
  for( int a = 0; a < 9; ++a ) cp( y.m[a], x.m[a] );
  for( int a = 0; a < 24; ++a ) cp( y.d[a], x.d[a] );
  for( int a = 0; a < 4; ++a ) cp( y.i[a], x.i[a] );
  return y;
}
template< typename R > In< R > randomInput( vh::Rng & r )
{
  In< R > x = input< R >( r.below( 4 ) );
  for( auto & c : x.c ) c = R( r.sym( 1.2 ) );
  for( auto & h : x.h ) h = R( 0.25 + 4 * r.unit() );
  for( int a = 0; a < 9; ++a ) x.m[a] = ( a % 4 == 0 ? R( 3 ) : R( 0 ) ) + R( r.sym( 0.9 ) );
  for( auto & d : x.d ) d = R( r.sym( 2 ) );
  return x;
}
template< typename T > std::string val( T v )
{
  if constexpr ( std::is_floating_point_v< T > ) return vh::num( double( v ) );
  else if constexpr ( std::is_signed_v< T > ) return vh::bigint( v );
  else return vh::ubigint( v );
}
template< typename T > std::string vals( T const * v, int n ) { std::string s = "["; for( int i = 0; i < n; ++i ) s += ( i ? "," : "" ) + val( v[i] ); return s + "]"; }
inline void line( char const * op, std::string const & name, char const * t, int u, char const * when, std::string const & in, std::string const & v )
{
  std::string s = std::string( "{\"op\":\"" ) + op + " " + name + "\",\"t\":\"" + t + "\",\"u\":" + std::to_string( u ) + ",\"when\":\"" + when + "\",\"in\":" + in + ",\"v\":" + v + "}\n";
  std::fwrite( s.data(), 1, s.size(), vh::out() );
}
template< typename T > constexpr char const * tn() { return std::is_same_v< T, float > ? "f" : std::is_same_v< T, double > ? "d" : "i"; }

// An operation: R(eal) and a constexpr static run( In< R > const & ) -> Vec< T, N >.
template< typename OP, int K > void both( std::string const & name )
{
  using R = typename OP::R;
  constexpr In< R > x = input< R >( K );
  constexpr auto c = OP::run( x );
  auto const r = OP::run( launder( x ) );
  using T = std::remove_cv_t< std::remove_reference_t< decltype( r.v[0] ) > >;
  std::string const in = "[" + std::to_string( K ) + "]";
  line( OP::name, name, tn< T >(), OP::ulps, "ct", in, vals( c.v, c.n ) );
  line( OP::name, name, tn< T >(), OP::ulps, "rt", in, vals( r.v, r.n ) );
}
#if defined(VH_COLLECT)      // (h_conc.cpp: the operations as a list, to be evaluated in any order and by any thread)
struct Item { std::string name; std::string ( * eval )( int ); };
inline std::vector< Item > & items() { static std::vector< Item > v; return v; }
// inputs that differ from each other in one or two components only (0: all of one, 1: all of the other)
template< typename R > In< R > mixedInput( int k )
{
  vh::Rng r( 4242 );
  In< R > x = input< R >( 0 );
  In< R > const b = randomInput< R >( r );
  if( k == 1 ) return b;
  auto all = [] ( auto & to, auto const & from ) { int n = 0; for( auto & t : to ) t = from[n++]; };
  switch( k )
  {
    case 2: all( x.c, b.c ); break;   case 3: case 4: case 5: x.c[k - 3] = b.c[k - 3]; break;
    case 6: case 7: case 8: x.h[k - 6] = b.h[k - 6]; x.d[( k - 5 ) * 5] = b.d[( k - 5 ) * 5]; break;
    case 9: all( x.d, b.d ); all( x.m, b.m ); all( x.h, b.h ); break;
    case 10: x.d[0] = b.d[0]; x.m[0] = b.m[0]; break;   case 11: x.d[23] = b.d[23]; x.m[8] = b.m[8]; break;   case 12: x.d[7] = b.d[7]; x.m[4] = b.m[4]; break;
    case 13: x.m[1] = b.m[1]; x.m[5] = b.m[5]; x.i[3] = 3; break;   case 14: x.m[6] = b.m[6]; x.i[2] = 2; break;   case 15: x.i[1] = 1; x.d[11] = b.d[11]; break;
  }
  return x;
}
template< typename OP > std::string evalItem( int k )
{
  using R = typename OP::R;
  auto const r = OP::run( launder( mixedInput< R >( k ) ) );
  return std::string( reinterpret_cast< char const * >( r.v ), sizeof r.v );
}
template< typename OP > void go( std::string const & name, bool = true ) { items().push_back( { std::string( OP::name ) + " " + name, &evalItem< OP > } ); }
#else
template< typename OP > void go( std::string const & name, bool random = true )
{
  using R = typename OP::R;
  both< OP, 0 >( name ); both< OP, 1 >( name ); both< OP, 2 >( name ); both< OP, 3 >( name );
  vh::Rng rng( vh::seed() + 77 );
  for( int k = 0; random && k < ( vh::thorough() ? 12 : 2 ); ++k )
  {
    In< R > const x = randomInput< R >( rng );
    auto const r = OP::run( launder( x ) );
    using T = std::remove_cv_t< std::remove_reference_t< decltype( r.v[0] ) > >;
    line( OP::name, name, tn< T >(), OP::ulps, "rt", "[" + std::to_string( 100 + k ) + "]", vals( r.v, r.n ) );
  }
}
#endif
template< typename T, int N > void form( char const * op, std::string const & name, int u, char const * which, Vec< T, N > const & v )
{
#if defined(VH_COLLECT)
  (void)op; (void)name; (void)u; (void)which; (void)v;
#else
  line( op, name, tn< T >(), u, which, "[]", vals( v.v, N ) );
#endif
}

// ---- the operations
template< typename S, int N > struct Coord
{
  using R = std::remove_const_t< decltype( S::template coordinate< 0 >() ) >;
  static constexpr char const * name = "coordinate"; static constexpr int ulps = 8;
  static constexpr Vec< R, N > run( In< R > const & x ) { Vec< R, N > r; for( int a = 0; a < N; ++a ) r.v[a] = S::coordinate( a + x.i[0] ); return r; }
  template< int ... I > static constexpr Vec< R, N > ct( std::integer_sequence< int, I ... > ) { return { { S::template coordinate< I >() ... } }; }
  template< int ... I > static Vec< R, N > rtt( std::integer_sequence< int, I ... > ) { return { { S::template coordinate< I >() ... } }; }
};
template< typename S, int N, bool RT > struct Weight
{
  using R = std::remove_const_t< decltype( S::template weight< 0 >() ) >;
  static constexpr char const * name = "weight"; static constexpr int ulps = 8;
  static constexpr Vec< R, N > run( In< R > const & x ) { Vec< R, N > r; for( int a = 0; a < N; ++a ) r.v[a] = S::weight( a + x.i[0] ); return r; }
  template< int ... I > static constexpr Vec< R, N > ct( std::integer_sequence< int, I ... > ) { return { { S::template weight< I >() ... } }; }
  template< int ... I > static Vec< R, N > rtt( std::integer_sequence< int, I ... > ) { return { { S::template weight< I >() ... } }; }
};
template< typename RR, typename B > struct LagV
{
  using R = RR; static constexpr char const * name = "basis value"; static constexpr int ulps = 64, n = B::numSupportPoints;
  template< int ... I > static constexpr Vec< R, n > ev( R const & x, std::integer_sequence< int, I ... > ) { return { { B::template value< I >( x ) ... } }; }
  static constexpr Vec< R, n * 3 > run( In< R > const & x )
  { Vec< R, n * 3 > r; for( int k = 0; k < 3; ++k ) { auto const e = ev( x.c[k], std::make_integer_sequence< int, n >{} ); for( int i = 0; i < n; ++i ) r.v[k * n + i] = e.v[i]; } return r; }
};
template< typename RR, typename B > struct LagG
{
  using R = RR; static constexpr char const * name = "basis gradient"; static constexpr int ulps = 256, n = B::numSupportPoints;
  template< int ... I > static constexpr Vec< R, n > ev( R const & x, std::integer_sequence< int, I ... > ) { return { { B::template gradient< I >( x ) ... } }; }
  static constexpr Vec< R, n * 3 > run( In< R > const & x )
  { Vec< R, n * 3 > r; for( int k = 0; k < 3; ++k ) { auto const e = ev( x.c[k], std::make_integer_sequence< int, n >{} ); for( int i = 0; i < n; ++i ) r.v[k * n + i] = e.v[i]; } return r; }
};
template< typename R, int O > using E = LagrangeBasis< R, O, EqualSpacing >;
template< typename R, int O > using G = LagrangeBasis< R, O, GaussLegendreSpacing >;
template< typename R, int O > using L = LagrangeBasis< R, O, GaussLobattoSpacing >;

// value and gradient of every basis function of a tensor-product object (basis product, shape or element), in 1-3 directions
template< typename RR, typename OBJ, int ... NS > struct Tens
{
  using R = RR; static constexpr char const * name = "tensor basis"; static constexpr int ulps = 512, D = sizeof ... ( NS ), n = ( NS * ... ), w = 1 + D;
  static constexpr int ns[D] = { NS ... };
  template< int Q, int ... K > static constexpr int digit( int k, std::integer_sequence< int, K ... > ) { int s = 1; for( int j = k + 1; j < D; ++j ) s *= ns[j]; return ( Q / s ) % ns[k]; }
  template< int Q, int ... K > static constexpr void one( R const (&c)[D], Vec< R, n * w > & r, std::integer_sequence< int, K ... > s )
  {
    (void) s;
    r.v[Q * w] = OBJ::template value< digit< Q >( K, std::integer_sequence< int >{} ) ... >( c );
    auto const g = OBJ::template gradient< digit< Q >( K, std::integer_sequence< int >{} ) ... >( c );
    for( int d = 0; d < D; ++d ) r.v[Q * w + 1 + d] = g( d );
  }
  template< int ... Q > static constexpr void all( R const (&c)[D], Vec< R, n * w > & r, std::integer_sequence< int, Q ... > ) { ( one< Q >( c, r, std::make_integer_sequence< int, D >{} ), ... ); }
  static constexpr Vec< R, n * w > run( In< R > const & x )
  { Vec< R, n * w > r; R c[D]{}; for( int d = 0; d < D; ++d ) c[d] = x.c[d]; all( c, r, std::make_integer_sequence< int, n >{} ); return r; }
};
template< typename OBJ > struct SupportOrder
{
  using R = double; static constexpr char const * name = "support loop"; static constexpr int ulps = 0;
  static constexpr Vec< long, 40 > run( In< R > const & x )
  { Vec< long, 40 > r; int n = 0; OBJ::supportLoop( [&] ( auto ... i ) { long t = 1; ( ( t = t * 10 + decltype( i )::value ), ... ); r.v[n++] = t + x.i[0]; } ); return r; }
};
// interpolation of nodal data
template< typename RR, typename PE, int ... NS > struct Interp
{
  using R = RR; static constexpr char const * name = "interpolation"; static constexpr int ulps = 1024, D = sizeof ... ( NS ), n = ( NS * ... );
  static constexpr Vec< R, 1 + D > run( In< R > const & x )
  {
    CArrayNd< R, NS ... > var{};
    for( int q = 0; q < n; ++q ) var.data()[q] = x.d[q % 24];
    R c[D]{}; for( int d = 0; d < D; ++d ) c[d] = x.c[d];
    Vec< R, 1 + D > r;
    r.v[0] = PE::value( c, var );
    auto const g = PE::gradient( c, var );
    for( int d = 0; d < D; ++d ) r.v[1 + d] = g( d );
    return r;
  }
};
// arrays
template< typename T > struct Arr
{
  using R = double; static constexpr char const * name = "array"; static constexpr int ulps = 0;
  static constexpr Vec< long, 40 > run( In< R > const & x )
  {
    Vec< long, 40 > r;
    int n = 0, z = x.i[0], p = x.i[1], q = x.i[2];
    CArrayNd< T, 2, 3, 2 > a{};
    for( int i = 0; i < 2; ++i ) for( int j = 0; j < 3; ++j ) for( int k = 0; k < 2; ++k ) a( i + z, j, k ) = T( 10 * i + 3 * j + k + p );
    a( p, q, 1 ) = T( 77 );
    a[1][q][p] = T( 78 );
    a.template operator()< 0, 2, 1 >() = T( 79 );
    auto && s = a[p]; s[2][0] = T( 80 );
    s( q, 1 ) = T( 81 );
    CArrayNd< T, 2, 3, 2 > const b = a;
    a( 0, 0, 0 ) = T( 82 );
    for( int k = 0; k < 12; ++k ) r.v[n++] = long( a.data()[k] );
    r.v[n++] = long( b( 0 + z, 0, 0 ) ); r.v[n++] = long( b[1][2][1] ); r.v[n++] = long( b[p][q][1] ); r.v[n++] = long( b.template operator()< 1, 1, 0 >() );
    T raw[6] = { T( 1 ), T( 2 ), T( 3 ), T( 4 ), T( 5 ), T( 6 ) };
    CArrayViewNd< T, 3, 2 > v( raw );
    v( q, p ) = T( 60 ); v[2][1] = T( 61 );
    for( auto e : raw ) r.v[n++] = long( e );
    CArrayNd< T, 4 > l{ T( 5 ), T( 6 ), T( 7 ), T( 8 ) };
    r.v[n++] = long( l( x.i[3] ) ); r.v[n++] = long( l[3] );
    Scalar< T > one{ T( 9 ) }; one( 0 ) = T( one( 0 ) + p ); r.v[n++] = long( one( z ) );
    r.v[n++] = a.rank(); r.v[n++] = a.size(); r.v[n++] = a.template extent< 1 >();
    r.v[n++] = CArrayHelper::size< 4, 5, 6 >(); r.v[n++] = CArrayHelper::stride< 4, 5, 6 >(); r.v[n++] = CArrayHelper::get< 1, 4, 5, 6 >();
    return r;
  }
};
// multi-indices
template< typename T, T ... D > struct Idx
{
  using R = double; static constexpr char const * name = "multi-index"; static constexpr int ulps = 0, N = sizeof ... ( D ), n = int( ( D * ... ) );
  static constexpr Vec< long long, 2 * n + 2 > run( In< R > const & x )
  {
    Vec< long long, 2 * n + 2 > r;
    MultiIndexRange< T, D ... > i{};
    i.data[0] = T( x.i[1] );
    int k = 0;
    forRange( i, [&] ( auto const & j ) { if( k < 2 * n ) { long long t = 1; for( int d = 0; d < N; ++d ) t = t * 10 + (long long)( j.data[d] ); r.v[k] = t; r.v[k + 1] = (long long)( linearIndex( j ) ); } k += 2; } );
    r.v[2 * n] = k; r.v[2 * n + 1] = i.range( N - 1 );
    return r;
  }
};
// integer and floating-point math
struct Ints
{
  using R = double; static constexpr char const * name = "integers"; static constexpr int ulps = 0;
  static constexpr Vec< long long, 24 > run( In< R > const & x )
  {
    long long const b = 3 + x.i[3] - 5 * x.i[1];
    return { { mathUtilities::pow< long long, 0 >( b ), mathUtilities::pow< long long, 1 >( b ), mathUtilities::pow< long long, 7 >( b ), mathUtilities::pow< int, 5 >( int( b ) ), mathUtilities::pow< short, 3 >( short( b ) ),
               mathUtilities::factorial< int, 0 >::value, mathUtilities::factorial< int, 7 >::value, mathUtilities::factorial< long long, 20 >::value,
               mathUtilities::binomialCoefficient< int, 9, 4 >::value, mathUtilities::binomialCoefficient< long long, 15, 6 >::value,
               NCube< double, 4, -1, 1, 1 >::numVertices(), NCube< double, 4, -1, 1, 1 >::numEdges(), NCube< double, 4, -1, 1, 1 >::numFaces(), NCube< double, 4, -1, 1, 1 >::numCells(), NCube< double, 4, -1, 1, 1 >::numHyperFaces(),
               NCube< double, 5, -1, 1, 1 >::template numMCubes< 3 >(), NSimplex< double, 4, 0, 1, 1 >::numVertices(), NSimplex< double, 4, 0, 1, 1 >::numEdges(), NSimplex< double, 4, 0, 1, 1 >::numFaces(),
               NSimplex< double, 4, 0, 1, 1 >::numCells(), NSimplex< double, 4, 0, 1, 1 >::numHyperFaces(), NSimplex< double, 6, 0, 1, 1 >::template numMSimplexes< 2 >(),
               IntPackPeeler< 2, 5, 6, 7, 8 >::value(), Cube< double >::numDims() } };
  }
};
template< typename RR > struct Reals
{
  using R = RR; static constexpr char const * name = "reals"; static constexpr int ulps = 64;
  static constexpr Vec< R, 16 > run( In< R > const & x )
  {
    using C = NCube< R, 3, -3, 7, 11 >;
    using S = NSimplex< R, 4, 2, 9, 3 >;
    return { { mathUtilities::pow< R, 0 >( x.c[0] ), mathUtilities::pow< R, 1 >( x.c[0] ), mathUtilities::pow< R, 5 >( x.c[1] ), mathUtilities::pow< R, 12 >( x.c[2] ),
               C::minCoord(), C::maxCoord(), C::length(), C::volume(), S::minCoord(), S::maxCoord(), S::length(), S::volume(),
               EqualSpacing< R, 6 >::interval(), R( pmpl::check( x.c[0], x.c[1], R( 0.5 ) ) ), R( pmpl::check( x.h[0], x.h[0] + R( 0.25 ), R( 0.375 ) ) ), R( pmpl::check( x.h[1], x.h[1], R( 0.125 ) ) ) } };
  }
};
template< typename RR > struct Inv
{
  using R = RR; static constexpr char const * name = "inverse"; static constexpr int ulps = 256;
  static constexpr Vec< R, 20 > run( In< R > const & x )
  {
    R m[3][3]{}, det = x.c[0];
    CArrayNd< R, 3, 3 > a{}; R deta = x.c[1];
    for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) { m[i][j] = x.m[3 * i + j]; a( i, j ) = x.m[3 * i + j]; }
    mathUtilities::inverse( m, det ); mathUtilities::inverse( a, deta );
    Vec< R, 20 > r;
    for( int k = 0; k < 9; ++k ) { r.v[k] = m[k / 3][k % 3]; r.v[9 + k] = a( k / 3, k % 3 ); }
    r.v[18] = det; r.v[19] = deta;
    return r;
  }
};
// tuples
template< typename RR > struct Tup
{
  using R = RR; static constexpr char const * name = "tuple"; static constexpr int ulps = 0;
  static constexpr Vec< R, 8 > run( In< R > const & x )
  {
    R a = x.c[0], v[2] = { x.c[1], x.c[2] };
    int k = x.i[3];
    CArrayNd< R, 2 > e{ x.h[0], x.h[1] };
    auto const t = make_tuple( a, k, e, x.h[2] + R( 0 ) );
    tuple< R, int > u( v[0], k );
    // (a tuple holds values: what it was made from may change)
    a = R( 100 ); k = 77; e( 0 ) = R( 55 ); v[0] = R( 44 );
    auto const & [ ta, tk, te, th ] = t;
    auto & [ ua, uk ] = u;
    ua += R( 0.5 );
    return { { ta, R( tk ), te( 0 ), te( 1 ), th, ua, R( uk ), a } };
  }
};
// sequences
struct AddAll { template< typename ... A > constexpr int operator()( int s, A ... a ) const { ( ( s = s * 3 + int( a ) ), ... ); return s; } };
struct Seqs
{
  using R = double; static constexpr char const * name = "sequences"; static constexpr int ulps = 0;
  static constexpr Vec< long long, 8 > run( In< R > const & x )
  {
    Vec< long long, 8 > r;
    long long t = x.i[3], u = 1, w = 1;
    r.v[0] = executeSequence< 5 >( AddAll{}, x.i[1] );
    r.v[1] = executeSequence< 1 >( [&] ( auto ... a ) { return ( t + ... + decltype( a )::value ); } );
    r.v[2] = forSequence< 6 >( [&] ( auto a ) { u = u * 7 + decltype( a )::value; return u; } );
    r.v[3] = u;
    forNestedSequence< 2, 3, 2 >( [&] ( auto a, auto b, auto c ) { w = ( w * 31 + decltype( a )::value * 6 + decltype( b )::value * 2 + decltype( c )::value ) % 1000003; } );
    r.v[4] = w;
    forNestedSequence( std::integer_sequence< int, 3, 2 >{}, [&] ( auto a, auto b ) { w = ( w * 31 + decltype( a )::value * 2 + decltype( b )::value ) % 1000003; } );
    r.v[5] = w; r.v[6] = t; r.v[7] = IntPackPeeler< 0, 4, 5 >::value();
    return r;
  }
};
// cells
template< typename RR, typename ... B > struct CellOps
{
  using R = RR; static constexpr char const * name = "cell"; static constexpr int ulps = 1024, n = ( B::numSupportPoints * ... );
  using Cell = LinearTransform< R, InterpolatedShape< R, Cube< R >, B ... > >;
  static constexpr int ns[3] = { B::numSupportPoints ... };
  static constexpr Vec< R, 75 > run( In< R > const & x )
  {
    Cell cell{};
    R xs[n][3]{};
    int k = 0;
    for( int c = 0; c < ns[2]; ++c ) for( int b = 0; b < ns[1]; ++b ) for( int a = 0; a < ns[0]; ++a, ++k )
    {
      xs[k][0] = R( 2 * a ) + x.d[k % 24] / 16; xs[k][1] = R( 2 * b ) + x.d[( k + 7 ) % 24] / 16; xs[k][2] = R( 2 * c ) - x.d[( k + 3 ) % 24] / 16;
    }
    cell.setData( xs );
    cell.getData()( 1, 0, 1, 2 ) = cell.getData()( 1, 0, 1, 2 ) + x.c[0] / 32;
    R p[3] = { x.c[0], x.c[1], x.c[2] };
    typename Cell::JacobianType J{ R( 5 ) };
    R det = 3;
    Vec< R, 75 > r;
    int o = 0;
    auto put = [&] ( auto const & m ) { for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) r.v[o++] = m( i, j ); };
    jacobian( cell, p, J ); put( J );
    put( jacobian( cell, p ) );
    jacobian< QuadratureGaussLegendre< R, 2 >, 0, 1, 1 >( cell, J ); put( J );
    R const q[3] = { p[0] / 4, p[1] / 4, p[2] / 4 };
    inverseJacobian( cell, q, J, det ); put( J ); r.v[o++] = det;
    auto const t = inverseJacobian( cell, q ); put( std::get< 1 >( t ) ); r.v[o++] = std::get< 0 >( t );
    for( int i = 0; i < n * 3 && o < 75; ++i ) r.v[o++] = cell.getData().data()[i];
    return r;
  }
};
template< typename RR > struct Scalings
{
  using R = RR; static constexpr char const * name = "scaling cells"; static constexpr int ulps = 16;
  static constexpr Vec< R, 24 > run( In< R > const & x )
  {
    Vec< R, 24 > r; int o = 0;
    Scaling< R > s{}; R const h[3] = { x.h[0], x.h[1], x.h[2] };
    r.v[o++] = jacobian( s )( 1 );
    s.setData( h ); s.setData()[1] = x.h[1] * 2;
    typename Scaling< R >::JacobianType J{ R( 4 ) }; R det = 2;
    jacobian( s, J ); for( int i = 0; i < 3; ++i ) r.v[o++] = J( i );
    inverseJacobian( s, J, det ); for( int i = 0; i < 3; ++i ) r.v[o++] = J( i ); r.v[o++] = det;
    auto const t = inverseJacobian( s ); for( int i = 0; i < 3; ++i ) r.v[o++] = std::get< 1 >( t )( i ); r.v[o++] = std::get< 0 >( t );
    for( int i = 0; i < 3; ++i ) r.v[o++] = s.getData()[i];
    UniformScaling< R > u{}; r.v[o++] = jacobian( u )( 0 );
    u.setData( x.h[0] ); typename UniformScaling< R >::JacobianType K{ R( 7 ) };
    jacobian( u, K ); r.v[o++] = K( 0 ); inverseJacobian( u, K, det ); r.v[o++] = K( 0 ); r.v[o++] = det;
    u.setData() = x.h[2]; auto const v = inverseJacobian( u ); r.v[o++] = std::get< 1 >( v )( 0 ); r.v[o++] = std::get< 0 >( v ); r.v[o++] = u.getData();
    r.v[o++] = R( s.jacobianIsConstInCell() ); r.v[o++] = R( u.jacobianIsConstInCell() );
    return r;
  }
};

#if PART == 0
template< typename R, template< typename, int > class S, int N > void coord( char const * f )
{
  using C = Coord< S< R, N >, N >;
  std::string const nm = std::string( f ) + std::to_string( N ) + vh::tname< R >();
  go< C >( nm, false );
  constexpr auto ct = C::ct( std::make_integer_sequence< int, N >{} );
  int volatile z = 0; In< R > x = input< R >( 0 ); x.i[0] = z;
  form( "coordinate forms", nm, 8, "ct", ct ); form( "coordinate forms", nm, 8, "rt", C::rtt( std::make_integer_sequence< int, N >{} ) );
  form( "coordinate forms", nm, 8, "rt", C::run( x ) );
}
template< typename R, template< typename, int > class S, int N, bool RT > void weight( char const * f )
{
  using C = Weight< S< R, N >, N, RT >;
  std::string const nm = std::string( f ) + std::to_string( N ) + vh::tname< R >();
  constexpr auto ct = C::ct( std::make_integer_sequence< int, N >{} );
  form( "weight forms", nm, 8, "ct", ct ); form( "weight forms", nm, 8, "rt", C::rtt( std::make_integer_sequence< int, N >{} ) );
  if constexpr ( RT )
  {
    go< C >( nm, false );
    int volatile z = 0; In< R > x = input< R >( 0 ); x.i[0] = z;
    form( "weight forms", nm, 8, "rt", C::run( x ) );
  }
}
template< typename R > void fe1()
{
  vh::sfor< 8 >( [] ( auto i ) { coord< R, EqualSpacing, decltype( i )::value + 2 >( "eq" ); } );
  vh::sfor< 3 >( [] ( auto i ) { coord< R, GaussLegendreSpacing, decltype( i )::value + 2 >( "gl" ); } );
  vh::sfor< 8 >( [] ( auto i ) { coord< R, GaussLobattoSpacing, decltype( i )::value + 2 >( "gll" ); } );
  vh::sfor< 3 >( [] ( auto i ) { weight< R, QuadratureGaussLegendre, decltype( i )::value + 2, true >( "gl" ); } );
  vh::sfor< 8 >( [] ( auto i ) { weight< R, QuadratureGaussLobatto, decltype( i )::value + 2, ( decltype( i )::value + 2 <= 5 ) >( "gll" ); } );
}
void part() { fe1< double >(); fe1< float >(); go< Ints >( "" ); go< Reals< double > >( "d" ); go< Reals< float > >( "f" ); go< Inv< double > >( "d" ); go< Inv< float > >( "f" ); go< Tup< double > >( "d" ); go< Tup< float > >( "f" ); go< Seqs >( "" ); }
#elif PART == 1
template< typename R, typename B > void lag( std::string const & nm ) { go< LagV< R, B > >( nm ); go< LagG< R, B > >( nm ); }
template< typename R > void lags( char const * t )
{
  vh::sfor< 4 >( [&] ( auto i ) { constexpr int O = decltype( i )::value + 1; std::string const s = std::to_string( O ) + t; lag< R, E< R, O > >( "eq" + s ); lag< R, L< R, O > >( "gll" + s ); if constexpr ( O < 4 ) lag< R, G< R, O > >( "gl" + s ); } );
}
void part()
{
  lags< double >( "d" ); lags< float >( "f" );
  lag< double, L< double, 6 > >( "gll6d" ); lag< double, L< double, 8 > >( "gll8d" ); lag< double, E< double, 6 > >( "eq6d" );
}
#elif PART == 2
template< typename R > void tens( std::string const & t )
{
  go< Tens< R, BasisProduct< R, E< R, 2 > >, 3 > >( "bp e2" + t );
  go< Tens< R, BasisProduct< R, E< R, 1 >, L< R, 3 > >, 2, 4 > >( "bp e1 l3" + t );
  go< Tens< R, BasisProduct< R, G< R, 1 >, E< R, 2 >, L< R, 2 > >, 2, 3, 3 > >( "bp g1 e2 l2" + t );
  go< Tens< R, InterpolatedShape< R, Cube< R >, E< R, 1 >, E< R, 1 >, E< R, 1 > >, 2, 2, 2 > >( "shape" + t );
  go< Tens< R, ParentElement< R, Square< R >, L< R, 2 >, E< R, 1 > >, 3, 2 > >( "element" + t );
}
void part()
{
  tens< double >( " d" ); tens< float >( " f" );
  go< SupportOrder< BasisProduct< double, E< double, 2 >, E< double, 1 >, L< double, 2 > > > >( "bp", false );
  go< SupportOrder< InterpolatedShape< double, Square< double >, L< double, 3 >, E< double, 2 > > > >( "shape", false );
}
#elif PART == 3
template< typename R > void interp( std::string const & t )
{
  go< Interp< R, ParentElement< R, NCube< R, 1, -1, 1, 1 >, L< R, 4 > >, 5 > >( "l4" + t );
  go< Interp< R, ParentElement< R, Square< R >, E< R, 1 >, L< R, 3 > >, 2, 4 > >( "e1 l3" + t );
  go< Interp< R, ParentElement< R, Cube< R >, E< R, 1 >, E< R, 2 >, G< R, 1 > >, 2, 3, 2 > >( "e1 e2 g1" + t );
}
// what a process that fails an assertion leaves behind
template< typename F > void ending( char const * nm, F f )
{
  int p[2]; if( pipe( p ) != 0 ) std::exit( 3 );
  std::fflush( vh::out() ); std::fflush( stderr );
  pid_t const c = fork();
  if( c == 0 ) { dup2( p[1], 2 ); close( p[0] ); close( p[1] ); f(); _exit( 0 ); }
  close( p[1] );
  std::string err; char b[512]; ssize_t k;
  while( ( k = read( p[0], b, sizeof b ) ) > 0 ) err.append( b, std::size_t( k ) );
  close( p[0] );
  int st = 0; waitpid( c, &st, 0 );
  std::string const m = "[" + std::to_string( WIFSIGNALED( st ) ? 1000 + WTERMSIG( st ) : WEXITSTATUS( st ) ) + "," + vh::quote( err ) + "]";
  line( "ending", nm, "s", 0, "rt", "[]", m );
}
void part()
{
  interp< double >( " d" ); interp< float >( " f" );
  go< Arr< int > >( "int", false ); go< Arr< double > >( "double", false ); go< Arr< unsigned char > >( "byte", false );
  go< Idx< int, 3, 2, 2 > >( "int 3 2 2", false ); go< Idx< long, 2, 5 > >( "long 2 5", false ); go< Idx< unsigned short, 2, 1, 3, 2 > >( "ushort", false ); go< Idx< unsigned long long, 7 > >( "ull 7", false );
#if !defined(VH_COLLECT)
  int volatile z = 0;
  ending( "assert passes", [&] { int n = 0; SHIVA_ASSERT_MSG( ++n > z, "no %d", n ); shivaAssertionFailed( "f.cpp", 12, false, "value %d %s", n, "x" ); } );
  ending( "assert fails", [&] { SHIVA_ASSERT_MSG( z > 3, "index %d of %s", 4 + z, "some" ); } );
  ending( "abort asked", [&] { shivaAssertionFailed( "some/file.cpp", 77, true, "why: %ld", 5000000000L + z ); } );
  long v[3] = { 1, 2, 3 }; long calls = 0;
  pmpl::genericKernelWrapper( [&] { calls += 1 + z; } );
  pmpl::genericKernelWrapper( 3, v, [&] ( long * p ) { calls += 10; for( int k = 0; k < 3; ++k ) p[k] *= 7; } );
  long const o[4] = { calls, v[0], v[1], v[2] };
  line( "kernels", "", "i", 0, "rt", "[]", vals( o, 4 ) );
#endif
}
#elif PART == 4
void part()
{
  go< CellOps< double, E< double, 1 >, E< double, 1 >, E< double, 1 > > >( "e1 e1 e1 d" );
  go< CellOps< float, E< float, 1 >, E< float, 1 >, E< float, 1 > > >( "e1 e1 e1 f" );
  go< CellOps< double, L< double, 2 >, E< double, 1 >, E< double, 1 > > >( "l2 e1 e1 d" );
  go< Scalings< double > >( "d" ); go< Scalings< float > >( "f" );
}
#endif

#if !defined(VH_COLLECT)
int main( int argc, char ** argv ) { vh::open( argc, argv ); part(); vh::close(); return 0; }
#endif
