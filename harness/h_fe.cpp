// Spacings, quadrature, Lagrange bases, tensor products, element interpolation.
// Compiled with -DPART_SP / PART_QD / PART_LAGV / PART_LAGG / PART_BP / PART_PE.
#include "vh.hpp"
#include "script.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include "shiva/common/CArray.hpp"
#include <array>
#include <utility>

using namespace shiva;
using namespace shiva::functions;
using vh::Ev;

template< template< typename, int > class SP > struct Fam;
template<> struct Fam< EqualSpacing > { static constexpr char const * name = "eq"; };
template<> struct Fam< GaussLegendreSpacing > { static constexpr char const * name = "gl"; };
template<> struct Fam< GaussLobattoSpacing > { static constexpr char const * name = "gll"; };

template< typename R, template< typename, int > class SP, int N, int ... I >
std::vector< R > ctNodes( std::integer_sequence< int, I ... > )
{
  constexpr R a[N] = { SP< R, N >::template coordinate< I >() ... };
  return std::vector< R >( a, a + N );
}
template< typename R, template< typename, int > class SP, int N, int ... I >
std::vector< R > rttNodes( std::integer_sequence< int, I ... > )
{
  std::vector< R > v;
  ( v.push_back( SP< R, N >::template coordinate< I >() ), ... );
  return v;
}
template< typename R, template< typename, int > class SP, int N >
std::vector< R > rtNodes()
{
  std::vector< R > v;
  for( int volatile i = 0; i < N; i = i + 1 ) v.push_back( SP< R, N >::coordinate( i ) );
  return v;
}

template< typename R, template< typename, int > class SP, int N > void doSp()
{
  using S = std::make_integer_sequence< int, N >;
  Ev e( "sp" );
  e.f( "t", vh::tname< R >() ).f( "fam", Fam< SP >::name ).f( "n", N ).f( "np", SP< R, N >::numPoints );
  e.f( "ct", ctNodes< R, SP, N >( S{} ) ).f( "rtt", rttNodes< R, SP, N >( S{} ) ).f( "rt", rtNodes< R, SP, N >() );
  if constexpr ( std::is_same_v< SP< R, N >, EqualSpacing< R, N > > ) e.f( "h", SP< R, N >::interval() );
}

template< typename Q, typename R, int N, int ... I > std::vector< R > ctW( std::integer_sequence< int, I ... > )
{ constexpr R a[N] = { Q::template weight< I >() ... }; return std::vector< R >( a, a + N ); }
template< typename Q, typename R, int ... I > std::vector< R > rttW( std::integer_sequence< int, I ... > )
{ std::vector< R > v; ( v.push_back( Q::template weight< I >() ), ... ); return v; }
template< typename Q, typename R, int N, int ... I > std::vector< R > ctX( std::integer_sequence< int, I ... > )
{ constexpr R a[N] = { Q::template coordinate< I >() ... }; return std::vector< R >( a, a + N ); }

template< typename R, template< typename, int > class QT, int N, bool RT > void doQd( char const * fam )
{
  using S = std::make_integer_sequence< int, N >;
  using Q = QT< R, N >;
  std::vector< R > wrt, xr;
  for( int volatile i = 0; i < N; i = i + 1 )
  {
    xr.push_back( Q::coordinate( i ) );
    if constexpr ( RT ) wrt.push_back( Q::weight( i ) );
  }
  Ev e( "qd" );
  e.f( "t", vh::tname< R >() ).f( "fam", fam ).f( "n", N );
  e.f( "x", ctX< Q, R, N >( S{} ) ).f( "xr", xr ).f( "wct", ctW< Q, R, N >( S{} ) ).f( "wrtt", rttW< Q, R >( S{} ) ).f( "wrt", wrt );
}

template< typename R > void spAll()
{
  vh::sfor< 13 >( [] ( auto i ) { doSp< R, EqualSpacing, decltype(i)::value + 2 >(); } );
  doSp< R, EqualSpacing, 17 >(); doSp< R, EqualSpacing, 24 >(); doSp< R, EqualSpacing, 33 >();
  doSp< R, EqualSpacing, 64 >(); doSp< R, EqualSpacing, 101 >(); doSp< R, EqualSpacing, 250 >();
  vh::sfor< 3 >( [] ( auto i ) { doSp< R, GaussLegendreSpacing, decltype(i)::value + 2 >(); } );
  vh::sfor< 8 >( [] ( auto i ) { doSp< R, GaussLobattoSpacing, decltype(i)::value + 2 >(); } );
}
template< typename R > void qdAll()
{
  vh::sfor< 3 >( [] ( auto i ) { doQd< R, QuadratureGaussLegendre, decltype(i)::value + 2, true >( "gl" ); } );
  vh::sfor< 8 >( [] ( auto i ) { doQd< R, QuadratureGaussLobatto, decltype(i)::value + 2, ( decltype(i)::value + 2 <= 5 ) >( "gll" ); } );
}

// ---- evaluation points
template< typename R > std::vector< R > points( std::vector< R > const & nodes, vh::Rng & r, int nrand )
{
  std::vector< R > p( nodes );
  for( std::size_t i = 0; i + 1 < nodes.size(); ++i ) p.push_back( ( nodes[i] + nodes[i + 1] ) / 2 );
  for( R x : { R( 0 ), R( -1 ), R( 1 ), R( 1.25 ), R( -1.75 ), R( 3 ), R( 1e-9 ), R( -0.3 ), R( 0.7 ) } ) p.push_back( x );
  for( R n : nodes ) { p.push_back( n + R( 1e-3 ) ); }
  for( std::size_t i = 0; i < nodes.size(); i += 2 ) { p.push_back( nodes[i] - R( 1e-6 ) ); p.push_back( -nodes[i] ); }
  // far away (as far as powers of the coordinate stay representable), next to nothing, and one rounding beside the nodes
  int const maxe = int( ( sizeof( R ) == 8 ? 700 : 80 ) / nodes.size() );
  for( int e : { 3, 7, 12, 17, 21, 25, 33, 45, 64, 120, 300 } ) if( e <= maxe ) p.push_back( ( r.below( 2 ) ? 1 : -1 ) * std::ldexp( R( 1 ) + R( r.unit() ), e ) );
  p.push_back( std::ldexp( R( -1 ), maxe ) );
  for( int e : { -10, -24, -30, -53, -60, -100, -126, -140, -500, -1050 } ) if( R const y = std::ldexp( R( 1 ), e ); y != 0 ) p.push_back( r.below( 2 ) ? y : -y );
  for( R n : nodes ) p.push_back( std::nextafter( n, R( r.below( 2 ) ? 2 : -2 ) ) );
  p.push_back( nodes[nodes.size() / 2] + ( sizeof( R ) == 8 ? R( 1e-11 ) : R( 1e-5 ) ) );
  for( int i = 0; i < nrand; ++i ) p.push_back( R( r.sym( i % 3 == 0 ? 2.5 : 1.0 ) ) );
  return p;
}

template< typename B, typename R, int ... I > std::vector< R > vals( R const & x, std::integer_sequence< int, I ... > )
{ return { B::template value< I >( x ) ... }; }
template< typename B, typename R, int ... I > std::vector< R > grads( R const & x, std::integer_sequence< int, I ... > )
{ return { B::template gradient< I >( x ) ... }; }
template< typename B, typename R, int NUM, int DEN, int ... I > std::vector< R > ctVals( std::integer_sequence< int, I ... > )
{ constexpr R x = R( NUM ) / DEN; constexpr R a[] = { B::template value< I >( x ) ... }; return std::vector< R >( a, a + sizeof ... ( I ) ); }
template< typename B, typename R, int NUM, int DEN, int ... I > std::vector< R > ctGrads( std::integer_sequence< int, I ... > )
{ constexpr R x = R( NUM ) / DEN; constexpr R a[] = { B::template gradient< I >( x ) ... }; return std::vector< R >( a, a + sizeof ... ( I ) ); }

#if defined(PART_LAGV)
constexpr bool wantV = true, wantG = false;
#else
constexpr bool wantV = false, wantG = true;
#endif

template< typename R, template< typename, int > class SP, int O > void doLag( vh::Rng & r )
{
  using B = LagrangeBasis< R, O, SP >;
  using S = std::make_integer_sequence< int, O + 1 >;
  auto emit = [&] ( R x, std::vector< R > v, std::vector< R > g, int ct )
  {
    Ev e( "lag" );
    e.f( "t", vh::tname< R >() ).f( "fam", Fam< SP >::name ).f( "o", O ).f( "np", B::numSupportPoints ).f( "ord", B::order ).f( "ct", ct );
    e.f( "x", x ).f( "v", v ).f( "g", g );
  };
  std::vector< R > none;
  int const every = O > 12 && !vh::thorough() ? 5 : 1;          // many points per direction: fewer evaluation points
  int q = r.below( every );
  for( R x : points< R >( rttNodes< R, SP, O + 1 >( S{} ), r, vh::thorough() ? 120 : 8 ) )
  {
    if( q++ % every ) continue;
    if constexpr ( wantV ) emit( x, vals< B, R >( x, S{} ), none, 0 );
    if constexpr ( wantG ) emit( x, none, grads< B, R >( x, S{} ), 0 );
  }
  auto ctp = [&] ( auto num, auto den )
  {
    constexpr int NUM = decltype(num)::value, DEN = decltype(den)::value;
    R const x = R( NUM ) / DEN;
    if constexpr ( wantV ) emit( x, ctVals< B, R, NUM, DEN >( S{} ), none, 1 );
    if constexpr ( wantG ) emit( x, none, ctGrads< B, R, NUM, DEN >( S{} ), 1 );
  };
#define C( a ) std::integral_constant< int, a >{}
  ctp( C( 3 ), C( 7 ) ); ctp( C( -1 ), C( 1 ) ); ctp( C( 0 ), C( 1 ) ); ctp( C( -9 ), C( 8 ) );
}
template< typename R > void lagAll( vh::Rng & r )
{
  vh::sfor< 12 >( [&] ( auto i ) { doLag< R, EqualSpacing, decltype(i)::value + 1 >( r ); } );
  doLag< R, EqualSpacing, 13 >( r ); doLag< R, EqualSpacing, 15 >( r ); doLag< R, EqualSpacing, 16 >( r ); doLag< R, EqualSpacing, 18 >( r ); doLag< R, EqualSpacing, 20 >( r );
  vh::sfor< 3 >( [&] ( auto i ) { doLag< R, GaussLegendreSpacing, decltype(i)::value + 1 >( r ); } );
  vh::sfor< 8 >( [&] ( auto i ) { doLag< R, GaussLobattoSpacing, decltype(i)::value + 1 >( r ); } );
}

// ---- tensor products
template< typename R, int O > using E = LagrangeBasis< R, O, EqualSpacing >;
template< typename R, int O > using G = LagrangeBasis< R, O, GaussLegendreSpacing >;
template< typename R, int O > using L = LagrangeBasis< R, O, GaussLobattoSpacing >;

template< typename B > struct BName;
template< typename R, int O, template< typename, int > class SP > struct BName< LagrangeBasis< R, O, SP > >
{ static std::string js() { return std::string( "[\"" ) + Fam< SP >::name + "\"," + std::to_string( O ) + "]"; } };
template< typename ... B > std::string dimsJs()
{ std::string s; ( ( s += ( s.empty() ? "" : "," ) + BName< B >::js() ), ... ); return "[" + s + "]"; }

// static loop over all index tuples, independent of the library
template< typename F, int ... I, int ... N > void tuples( F && f, std::integer_sequence< int, I ... > idx, std::integer_sequence< int, N ... > );
template< typename F, int ... I > void tuples( F && f, std::integer_sequence< int, I ... > idx, std::integer_sequence< int > ) { f( idx ); }
template< typename F, int ... I, int N0, int ... N > void tuples( F && f, std::integer_sequence< int, I ... >, std::integer_sequence< int, N0, N ... > )
{ vh::sfor< N0 >( [&] ( auto i ) { tuples( f, std::integer_sequence< int, I ..., decltype(i)::value >{}, std::integer_sequence< int, N ... >{} ); } ); }

template< typename PROD, typename R, int D, typename X > struct TupleEval
{
  X const & x; std::string & s;
  template< int ... I > void operator()( std::integer_sequence< int, I ... > ) const
  {
    R const v = PROD::template value< I ... >( x );
    auto const g = PROD::template gradient< I ... >( x );
    s += ( s.empty() ? "[" : ",[" ) + vh::js( std::vector< int >{ I ... } ) + "," + vh::js( v ) + ",[";
    for( int d = 0; d < D; ++d ) s += ( d ? "," : "" ) + vh::js( R( g( d ) ) );
    s += "]]";
  }
};
// constant-evaluated at x = (3/7, -2/5, 1/3, 5/8) truncated to the dimension
template< typename PROD, typename R, int D, int ... I > std::string ctTuple( std::integer_sequence< int, I ... > )
{
  constexpr R full[4] = { R( 3 ) / 7, R( -2 ) / 5, R( 1 ) / 3, R( 5 ) / 8 };
  constexpr R v = PROD::template value< I ... >( full );
  constexpr auto g = PROD::template gradient< I ... >( full );
  std::string s = "[" + vh::js( std::vector< int >{ I ... } ) + "," + vh::js( v ) + ",[";
  for( int d = 0; d < D; ++d ) s += ( d ? "," : "" ) + vh::js( R( g( d ) ) );
  return s + "]]";
}

template< typename PROD, typename R, typename X, typename ... B >
void bpPoint( char const * api, std::vector< R > const & xs, X const & x )
{
  std::string s;
  tuples( TupleEval< PROD, R, int( sizeof ... ( B ) ), X >{ x, s }, std::integer_sequence< int >{}, std::integer_sequence< int, B::numSupportPoints ... >{} );
  Ev e( "bp" );
  e.f( "api", api ).f( "t", vh::tname< R >() ).raw( "dims", dimsJs< B ... >() ).f( "x", xs ).raw( "vals", "[" + s + "]" );
}

template< typename R, typename ... B > struct Types
{
  static constexpr int D = sizeof ... ( B );
  using Geom = geometry::NCube< R, D, -1, 1, 1 >;
  using BP = BasisProduct< R, B ... >;
  using IS = geometry::InterpolatedShape< R, Geom, B ... >;
  using PE = discretizations::finiteElementMethod::ParentElement< R, Geom, B ... >;
};

template< typename B > struct NodesOf;
template< typename R, int O, template< typename, int > class SP > struct NodesOf< LagrangeBasis< R, O, SP > >
{ static std::vector< R > get() { return rttNodes< R, SP, O + 1 >( std::make_integer_sequence< int, O + 1 >{} ); } };

template< typename R, typename ... B > std::vector< std::vector< R > > ptsOf( vh::Rng & r, int nrand )
{
  constexpr int D = sizeof ... ( B );
  std::vector< std::vector< R > > out;
  std::vector< std::vector< R > > nd{ NodesOf< B >::get() ... };
  for( int q = 0; q < 3; ++q )
  {
    std::vector< R > x;
    for( int d = 0; d < D; ++d ) x.push_back( nd[d][std::size_t( q * ( d + 1 ) + q ) % nd[d].size()] );
    out.push_back( x );
  }
  // next to a support point, in every direction at once
  for( int q = 0; q < 2 + nrand / 8; ++q )
  {
    std::vector< R > x;
    for( int d = 0; d < D; ++d )
    {
      R const e[] = { R( 1e-2 ), R( -1e-3 ), R( 1e-4 ), R( -3e-5 ), R( 1e-6 ), R( 1e-2 ) };
      x.push_back( nd[d][q == 0 ? 0 : std::size_t( r.below( int( nd[d].size() ) ) )] + ( q == 0 ? R( 1e-3 ) : e[r.below( 6 )] ) );
    }
    out.push_back( x );
  }
  for( int q = 0; q < nrand; ++q )
  {
    std::vector< R > x;
    for( int d = 0; d < D; ++d ) x.push_back( R( r.sym( q % 4 == 3 ? 1.8 : 1 ) ) );
    if( q % 4 == 1 ) { int d = r.below( D ); x[d] = nd[d][0]; }
    if( q % 4 == 2 ) x[r.below( D )] = 0;
    out.push_back( x );
  }
  return out;
}

template< typename R, typename ... B > void doBp( vh::Rng & r, int nrand )
{
  using T = Types< R, B ... >;
  constexpr int D = T::D;
  int q = 0;
  for( auto const & xs : ptsOf< R, B ... >( r, nrand ) )
  {
    R x[D];
    for( int d = 0; d < D; ++d ) x[d] = xs[d];
    std::array< R, D > xa;
    CArrayNd< R, D > xc;
    for( int d = 0; d < D; ++d ) { xa[d] = xs[d]; xc( d ) = xs[d]; }
    switch( q++ % 4 )
    {
      case 0: bpPoint< typename T::BP, R, R[D], B ... >( "bp", xs, x ); break;
      case 1: bpPoint< typename T::IS, R, R[D], B ... >( "is", xs, x ); break;
      case 2: bpPoint< typename T::PE, R, R[D], B ... >( "pe", xs, x ); break;
      case 3: if( q % 8 == 4 ) bpPoint< typename T::BP, R, CArrayNd< R, D >, B ... >( "bpc", xs, xc );
              else bpPoint< typename T::IS, R, std::array< R, D >, B ... >( "isa", xs, xa );
              break;
    }
  }
  // coordinates of other types: single precision, whole numbers, a row of a longer table
  for( int k = 0; k < 2; ++k )
  {
    float xf[D]; int xi[D]; std::vector< R > wf, wi;
    for( int d = 0; d < D; ++d ) { xf[d] = float( r.sym() ); xi[d] = r.below( 5 ) - 2; if( k ) xi[d] = xi[d] < 0 ? -1 : 1; wf.push_back( R( xf[d] ) ); wi.push_back( R( xi[d] ) ); }
    if( k ) bpPoint< typename T::PE, R, int[D], B ... >( "pei", wi, xi );
    else bpPoint< typename T::BP, R, float[D], B ... >( "bpf", wf, xf );
  }
}
template< typename PROD, typename R, int D > struct CtEval
{
  std::string & s;
  template< int ... I > void operator()( std::integer_sequence< int, I ... > idx ) const { s += ( s.empty() ? "" : "," ) + ctTuple< PROD, R, D >( idx ); }
};
template< typename PROD, typename R, typename ... B > void doBpCt( char const * api )
{
  constexpr int D = sizeof ... ( B );
  std::string s;
  tuples( CtEval< PROD, R, D >{ s }, std::integer_sequence< int >{}, std::integer_sequence< int, B::numSupportPoints ... >{} );
  std::vector< R > full{ R( 3 ) / 7, R( -2 ) / 5, R( 1 ) / 3, R( 5 ) / 8 };
  full.resize( D );
  Ev e( "bp" );
  e.f( "api", api ).f( "ct", 1 ).f( "t", vh::tname< R >() ).raw( "dims", dimsJs< B ... >() ).f( "x", full ).raw( "vals", "[" + s + "]" );
}

template< int ... N > std::vector< int > seqv( std::integer_sequence< int, N ... > ) { return { N ... }; }
template< typename R, typename ... B > void doSup()
{
  using T = Types< R, B ... >;
  std::vector< std::vector< int > > loop, loop2;
  T::BP::supportLoop( [&] ( auto ... i ) { loop.push_back( { int( decltype(i)::value ) ... } ); } );
  T::IS::supportLoop( [&] ( auto ... i ) { loop2.push_back( { int( decltype(i)::value ) ... } ); } );
  std::vector< int > counts( T::PE::numSupportPoints, T::PE::numSupportPoints + T::D ), ranges;
  for( int d = 0; d < T::D; ++d ) ranges.push_back( T::BP::IndexType::range( d ) );
  Ev e( "sup" );
  e.raw( "dims", dimsJs< B ... >() ).f( "counts", counts ).f( "seqcounts", seqv( typename T::BP::numSupportPoints{} ) ).f( "ranges", ranges );
  e.f( "nd", T::BP::numDims ).f( "loop", loop ).f( "loop2", loop2 );
  e.f( "iscounts", seqv( typename T::IS::numSupportPointsSequence{} ) ).f( "isobj", seqv( T::IS::basisSupportCounts ) ).f( "isnd", T::IS::numDims ).f( "pend", T::PE::numDims ).f( "isv", T::IS::numVertices );
}

// ---- interpolation
template< typename R, int ... N > struct Field
{
  static constexpr int n[sizeof ... ( N )] = { N ... };
  std::vector< R > d;
  template< typename ... I > R operator()( I ... i ) const
  { int ix[] = { int( i ) ... }; int q = 0; for( unsigned k = 0; k < sizeof ... ( N ); ++k ) q = q * n[k] + ix[k]; return d[q]; }
};
template< typename R, typename ... B > void doPe( vh::Rng & r, int nrand )
{
  using T = Types< R, B ... >;
  using PE = typename T::PE;
  constexpr int D = T::D;
  constexpr int total = ( B::numSupportPoints * ... );
  int q = 0;
  for( auto const & xs : ptsOf< R, B ... >( r, nrand ) )
  {
    Field< R, B::numSupportPoints ... > fld;
    // (the points come in groups of 8 kinds; 7 modes, so that all pairs occur over the types and points)
    int const mode = q % 7;
    int const far = r.below( 3 ) ? total - 1 : r.below( total );
    for( int i = 0; i < total; ++i )
      fld.d.push_back( mode == 5 ? R( i == far ? 1e7 : 0 ) : mode == 6 ? R( r.sym() * std::pow( 10.0, r.below( 17 ) - 8 ) ) : mode == 0 ? R( i + 1 ) : mode == 1 ? R( i == q % total ? 1 : 0 ) : mode == 2 ? R( r.sym( 1e6 ) ) : mode == 3 ? R( r.sym() ) : R( 1 ) );
    R x[D];
    for( int d = 0; d < D; ++d ) x[d] = xs[d];
    R v; std::vector< R > g;
    auto ask = [&] ( auto const & var )
    {
      v = PE::value( x, var );
      auto const gr = PE::gradient( x, var );
      for( int d = 0; d < D; ++d ) g.push_back( gr( d ) );
    };
    using Other = std::conditional_t< std::is_same_v< R, double >, float, double >;
    std::vector< double > data;
    auto convert = [&] ( auto * to ) { for( int i = 0; i < total; ++i ) { using V = std::remove_reference_t< decltype( *to ) >; double w = fld.d[i]; if( std::is_integral_v< V > && mode == 3 ) w *= 100; to[i] = V( std::fmax( -2e9, std::fmin( 2e9, w ) ) ); data.push_back( double( to[i] ) ); } };
    int const kind = q < 2 ? q : r.below( 8 );
    // what holds the values: a functor, an array, a view, a slice of a larger array, a lambda, arrays of other scalars
    if( kind == 0 ) ask( fld );
    else if( kind == 1 ) { CArrayNd< R, B::numSupportPoints ... > arr; convert( arr.data() ); ask( arr ); }
    else if( kind == 2 ) { R buf[total]; convert( buf ); CArrayViewNd< R const, B::numSupportPoints ... > const view( buf ); ask( view ); }
    else if( kind == 3 )
    {
      CArrayNd< R, 3, B::numSupportPoints ... > many;
      for( int i = 0; i < 3 * total; ++i ) many.data()[i] = R( 31 + i );
      convert( many.data() + total );
      auto const & c = many;
      ask( c[1] );
    }
    else if( kind == 4 ) { R const * p = fld.d.data(); ask( [p] ( auto ... i ) { constexpr int n[] = { B::numSupportPoints ... }; int const ix[] = { int( i ) ... }; int w = 0; for( int k = 0; k < D; ++k ) w = w * n[k] + ix[k]; return p[w]; } ); }
    else if( kind == 5 ) { CArrayNd< Other, B::numSupportPoints ... > arr; convert( arr.data() ); ask( arr ); }
    else if( kind == 6 ) { CArrayNd< int, B::numSupportPoints ... > arr; convert( arr.data() ); ask( arr ); }
    else { CArrayNd< R, B::numSupportPoints ... > rev; for( int i = 0; i < total; ++i ) rev.data()[total - 1 - i] = fld.d[i]; ask( [&rev] ( auto ... i ) -> R const & { return rev( ( B::numSupportPoints - 1 - int( i ) ) ... ); } ); }
    if( data.empty() ) data.assign( fld.d.begin(), fld.d.end() );
    ++q;
    Ev e( "pe" );
    e.f( "kind", kind ).f( "t", vh::tname< R >() ).raw( "dims", dimsJs< B ... >() ).f( "x", xs ).f( "data", data ).f( "v", v ).f( "g", g );
  }
}
template< typename PE, typename R, int D, int ... I > void one( R const ( &y )[4], std::integer_sequence< int, I ... > )
{
  R z[D];
  for( int d = 0; d < D; ++d ) z[d] = y[d];
  static double volatile s;
  s = double( PE::template value< I ... >( z ) ) + double( PE::template gradient< I ... >( z )( 0 ) );
}
// ---- histories of fields (module FieldGen): numbers and points changed in place, evaluated in any order
template< typename R, typename ... B > void doField( vh::Node const & ops )
{
  using PE = typename Types< R, B ... >::PE;
  constexpr int D = sizeof ... ( B ), NF = 2, NP = 2;
  constexpr int total = ( B::numSupportPoints * ... );
  using Arr = CArrayNd< R, B::numSupportPoints ... >;
  static Arr arr[NF];
  Arr mine[NF];
  Field< R, B::numSupportPoints ... > fld[NF];
  R x[NP][D] = {};
  for( int a = 0; a < NF; ++a ) { fld[a].d.assign( total, 0 ); }
  auto put = [&] ( int a, int q, R v ) { fld[a].d[q] = v; arr[a].data()[q] = v; mine[a].data()[q] = v; };
  for( int a = 0; a < NF; ++a ) for( int q = 0; q < total; ++q ) put( a, q, 0 );
  auto val = [&] ( int a, int b, int how ) { return how == 0 ? PE::value( x[b], fld[a] ) : how == 1 ? PE::value( x[b], arr[a] ) : PE::value( x[b], mine[a] ); };
  auto grad = [&] ( int a, int b, int how )
  {
    auto const g = how == 0 ? PE::gradient( x[b], fld[a] ) : how == 1 ? PE::gradient( x[b], arr[a] ) : PE::gradient( x[b], mine[a] );
    std::vector< R > v;
    for( int d = 0; d < D; ++d ) v.push_back( g( d ) );
    return v;
  };
  static double volatile sink;
  std::string log;
  for( auto const & o : ops.k )
  {
    int const c = o[0].i();
    char const * names[] = { "", "set", "fill", "ramp", "copy", "swap", "pt", "at", "val", "grad", "both", "other" };
    std::string s = std::string( "{\"o\":\"" ) + names[c] + "\"";
    auto f = [&] ( char const * n, auto const & v ) { s += std::string( ",\"" ) + n + "\":" + vh::js( v ); };
    int const a = c == 11 ? 0 : o[1].i() - 1;
    if( c != 11 ) f( "a", a + 1 );
    if( c == 1 ) { put( a, o[2].i() - 1, R( o[3].i() ) / 8 ); f( "q", o[2].i() ); f( "v", o[3].i() ); }
    if( c == 2 ) { for( int q = 0; q < total; ++q ) put( a, q, R( o[2].i() ) / 8 ); f( "v", o[2].i() ); }
    if( c == 3 ) { for( int q = 0; q < total; ++q ) put( a, q, R( o[2].i() * ( q + 1 ) ) / 8 ); f( "v", o[2].i() ); }
    if( c == 4 ) { int const b = o[2].i() - 1; arr[a] = Arr( arr[b] ); mine[a] = mine[b]; fld[a] = Field< R, B::numSupportPoints ... >( fld[b] ); f( "b", b + 1 ); }
    if( c == 5 ) { int const b = o[2].i() - 1; std::swap( arr[a], arr[b] ); std::swap( mine[a], mine[b] ); std::swap( fld[a].d, fld[b].d ); f( "b", b + 1 ); }
    if( c == 6 ) { std::vector< int > v; for( int d = 0; d < D; ++d ) { v.push_back( o[2 + d].i() ); x[a][d] = R( v[d] ) / 16; } f( "x", v ); }
    if( c == 7 ) { x[a][o[2].i() - 1] = R( o[3].i() ) / 16; f( "q", o[2].i() ); f( "v", o[3].i() ); }
    if( c >= 8 && c <= 10 )
    {
      int const b = o[2].i() - 1, how = o[3].i();
      f( "b", b + 1 );
      if( c == 9 ) f( "g", grad( a, b, how ) );
      if( c != 9 ) f( "v", val( a, b, how ) );
      if( c == 10 ) f( "g", grad( a, b, how ) );
    }
    if( c == 11 )
    {
      // evaluations of other things in between
      R const y[4] = { R( 0.3 ), R( -0.6 ), R( 0.9 ), R( 0.1 ) };
      Field< R, 2, 3 > other; other.d.assign( 6, R( 5 + o[1].i() ) );
      using PO = typename Types< R, E< R, 1 >, L< R, 2 > >::PE;
      R const y2[2] = { y[o[1].i()], y[1] };
      sink = double( PO::value( y2, other ) ) + double( PO::gradient( y2, other )( 1 ) );
      tuples( [&] ( auto idx ) { one< PE, R, D >( y, idx ); }, std::integer_sequence< int >{}, std::integer_sequence< int, B::numSupportPoints ... >{} );
    }
    log += ( log.empty() ? "" : "," ) + s + "}";
  }
  Ev e( "field" );
  e.f( "t", vh::tname< R >() ).raw( "dims", dimsJs< B ... >() ).f( "n", total ).f( "nf", NF ).f( "np", NP ).raw( "ops", "[" + log + "]" );
}
// constant-evaluated interpolation on a 2x3 element
template< typename R, typename PE > constexpr R ctV() { CArrayNd< R, 2, 3 > a{ R( 1 ), R( -2 ), R( 3 ), R( 5 ), R( -7 ), R( 11 ) }; R const x[2] = { R( 3 ) / 7, R( -2 ) / 5 }; return PE::value( x, a ); }
template< typename R, typename PE > constexpr CArrayNd< R, 2 > ctG() { CArrayNd< R, 2, 3 > a{ R( 1 ), R( -2 ), R( 3 ), R( 5 ), R( -7 ), R( 11 ) }; R const x[2] = { R( 3 ) / 7, R( -2 ) / 5 }; return PE::gradient( x, a ); }
template< typename R > void doPeCt()
{
  using PE = typename Types< R, E< R, 1 >, L< R, 2 > >::PE;
  constexpr R v = ctV< R, PE >();
  constexpr auto g = ctG< R, PE >();
  Ev e( "pe" );
  e.f( "ct", 1 ).f( "t", vh::tname< R >() ).raw( "dims", dimsJs< E< R, 1 >, L< R, 2 > >() );
  e.f( "x", std::vector< R >{ R( 3 ) / 7, R( -2 ) / 5 } ).f( "data", std::vector< R >{ 1, -2, 3, 5, -7, 11 } ).f( "v", v ).f( "g", std::vector< R >{ g( 0 ), g( 1 ) } );
}

// -DSUB=k -DNSUB=n: only every n-th group of instantiations, so that parts compile in parallel
#if !defined(NSUB)
#define NSUB 1
#define SUB 0
#endif
#define ON( k ) ( ( k ) % NSUB == SUB )

int main( int argc, char ** argv )
{
  vh::open( argc, argv );
  vh::Rng r( vh::seed() );
  int const k = vh::thorough() ? 10 : 1;
  (void)k;
#if defined(PART_SP)
  spAll< double >(); spAll< float >();
#endif
#if defined(PART_QD)
  qdAll< double >(); qdAll< float >();
#endif
#if defined(PART_LAGV) || defined(PART_LAGG)
#if ON( 0 )
  lagAll< double >( r );
#endif
#if ON( 1 )
  lagAll< float >( r );
#endif
#endif
#if defined(PART_BP)
#if ON( 18 )
  doBp< double, E< double, 3 >, L< double, 3 > >( r, 9 * k );
#endif
#if ON( 19 )
  doBp< double, L< double, 2 >, E< double, 2 >, G< double, 2 > >( r, 9 * k );
#endif
#if ON( 20 )
  doBp< double, L< double, 4 >, E< double, 4 > >( r, 9 * k );
#endif
#if ON( 21 )
  doBp< double, G< double, 3 >, L< double, 3 >, E< double, 3 > >( r, 4 * k );
#endif
#if ON( 22 )
  doBp< double, E< double, 1 >, G< double, 1 >, L< double, 1 >, G< double, 1 > >( r, 5 * k );
#endif
#if ON( 23 )
  doBp< double, E< double, 6 >, L< double, 5 > >( r, 5 * k );
#endif
#if ON( 24 )
  doBp< double, E< double, 9 >, L< double, 8 > >( r, 2 * k );
#endif
#if ON( 25 )
  doBp< double, E< double, 1 >, L< double, 1 >, G< double, 1 >, E< double, 1 >, L< double, 2 > >( r, 2 * k );
#endif
#if ON( 26 )
  doBp< double, E< double, 15 > >( r, 5 * k ); doBp< float, E< float, 1 >, E< float, 14 > >( r, 2 * k );
#endif
#if ON( 0 )
  doBp< double, L< double, 3 > >( r, 9 * k );
#endif
#if ON( 1 )
  doBp< double, E< double, 1 >, L< double, 3 > >( r, 17 * k );
#endif
#if ON( 2 )
  doBp< double, G< double, 2 >, E< double, 4 > >( r, 9 * k );
#endif
#if ON( 3 )
  doBp< double, E< double, 1 >, E< double, 2 >, L< double, 3 > >( r, 17 * k );
#endif
#if ON( 4 )
  doBp< double, L< double, 3 >, G< double, 1 >, E< double, 2 > >( r, 13 * k );
#endif
#if ON( 5 )
  doBp< double, E< double, 2 >, E< double, 2 >, E< double, 2 > >( r, 9 * k );
#endif
#if ON( 6 )
  doBp< double, L< double, 1 >, L< double, 1 >, L< double, 1 > >( r, 9 * k );
#endif
#if ON( 7 )
  doBp< double, E< double, 1 >, L< double, 2 >, G< double, 1 >, E< double, 1 > >( r, 9 * k );
#endif
#if ON( 8 )
  doBp< float, L< float, 2 >, E< float, 1 >, E< float, 3 > >( r, 9 * k );
#endif
#if ON( 9 )
  doBpCt< Types< double, E< double, 1 >, G< double, 1 >, L< double, 2 > >::BP, double, E< double, 1 >, G< double, 1 >, L< double, 2 > >( "bp" );
#endif
#if ON( 10 )
  doBpCt< Types< double, E< double, 1 >, G< double, 1 >, L< double, 2 > >::IS, double, E< double, 1 >, G< double, 1 >, L< double, 2 > >( "is" );
#endif
#if ON( 11 )
  doBpCt< Types< double, L< double, 2 >, E< double, 1 > >::PE, double, L< double, 2 >, E< double, 1 > >( "pe" );
#endif
#if ON( 12 )
  doBpCt< Types< float, L< float, 2 >, E< float, 1 > >::BP, float, L< float, 2 >, E< float, 1 > >( "bp" );
#endif
#if ON( 13 )
  doSup< double, L< double, 3 > >();
#endif
#if ON( 14 )
  doSup< double, E< double, 1 >, L< double, 3 > >();
#endif
#if ON( 15 )
  doSup< double, E< double, 1 >, E< double, 2 >, L< double, 3 > >();
#endif
#if ON( 16 )
  doSup< double, L< double, 4 >, G< double, 1 >, E< double, 2 > >();
#endif
#if ON( 17 )
  doSup< double, E< double, 1 >, L< double, 2 >, G< double, 1 >, E< double, 3 > >();
#endif
#endif
#if defined(PART_PE)
#if ON( 10 )
  doPe< double, E< double, 4 >, E< double, 4 >, E< double, 4 > >( r, 2 * k );
#endif
#if ON( 11 )
  doPe< double, E< double, 3 >, L< double, 3 > >( r, 12 * k );
#endif
#if ON( 12 )
  doPe< double, L< double, 2 >, E< double, 2 >, G< double, 2 > >( r, 7 * k );
#endif
#if ON( 13 )
  doPe< double, E< double, 7 >, L< double, 6 > >( r, 4 * k );
#endif
#if ON( 14 )
  doPe< double, L< double, 3 >, E< double, 4 >, G< double, 3 > >( r, 2 * k );
#endif
#if ON( 15 )
  doPe< double, E< double, 9 >, L< double, 8 > >( r, k );
#endif
#if ON( 16 )
  doPe< double, E< double, 1 >, L< double, 1 >, G< double, 1 >, E< double, 1 >, L< double, 2 > >( r, 2 * k );
#endif
#if ON( 17 )
  doPe< double, E< double, 15 > >( r, 2 * k ); doPe< float, E< float, 1 >, E< float, 14 > >( r, k );
#endif
#if ON( 0 )
  doPe< double, L< double, 4 > >( r, 12 * k );
#endif
#if ON( 1 )
  doPe< double, E< double, 1 >, L< double, 3 > >( r, 17 * k );
#endif
#if ON( 2 )
  doPe< double, G< double, 2 >, E< double, 4 > >( r, 12 * k );
#endif
#if ON( 3 )
  doPe< double, E< double, 1 >, E< double, 2 >, L< double, 3 > >( r, 17 * k );
#endif
#if ON( 4 )
  doPe< double, L< double, 3 >, G< double, 1 >, E< double, 2 > >( r, 12 * k );
#endif
#if ON( 5 )
  doPe< double, E< double, 2 >, E< double, 2 >, E< double, 2 > >( r, 7 * k );
#endif
#if ON( 6 )
  doPe< double, L< double, 1 >, L< double, 1 >, L< double, 1 > >( r, 12 * k );
#endif
#if ON( 7 )
  doPe< double, E< double, 1 >, L< double, 2 >, G< double, 1 >, E< double, 1 > >( r, 7 * k );
#endif
#if ON( 8 )
  doPe< float, L< float, 2 >, E< float, 1 >, E< float, 3 > >( r, 12 * k );
#endif
#if ON( 9 )
  doPeCt< double >(); doPeCt< float >();
#endif
#endif
#if defined(PART_PEH)
  for( auto const & n : vh::scripts( argv[2] ) )
    switch( n[0].i() )
    {
      case 1: doField< double, E< double, 1 >, L< double, 2 > >( n[1] ); break;
      case 2: doField< double, L< double, 1 >, E< double, 1 >, G< double, 1 > >( n[1] ); break;
      case 3: doField< double, L< double, 3 > >( n[1] ); break;
      case 4: doField< float, G< float, 2 >, E< float, 1 > >( n[1] ); break;
      case 5: doField< double, E< double, 1 >, L< double, 2 >, G< double, 1 > >( n[1] ); break;
      case 6: doField< double, E< double, 2 >, L< double, 2 > >( n[1] ); break;
      default: std::exit( 4 );
    }
#endif
  vh::close();
  return 0;
}
