// Element integrals assembled from the library's parts.   h_int OUT      (-DSUB=k selects the configuration)
#include "vh.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/mapping/Scaling.hpp"
#include "shiva/geometry/mapping/UniformScaling.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include "shiva/common/MathUtilities.hpp"
#include <array>
using namespace shiva;
using namespace shiva::functions;
using namespace shiva::geometry;
using namespace shiva::geometry::utilities;
using shiva::discretizations::finiteElementMethod::ParentElement;
using vh::Ev;

template< typename R, int O > using E = LagrangeBasis< R, O, EqualSpacing >;
template< typename R, int O > using G = LagrangeBasis< R, O, GaussLegendreSpacing >;
template< typename R, int O > using L = LagrangeBasis< R, O, GaussLobattoSpacing >;
template< template< typename, int > class SP > struct Fam;
template<> struct Fam< EqualSpacing > { static constexpr char const * name = "eq"; };
template<> struct Fam< GaussLegendreSpacing > { static constexpr char const * name = "gl"; };
template<> struct Fam< GaussLobattoSpacing > { static constexpr char const * name = "gll"; };
template< typename B > struct BName;
template< typename R, int O, template< typename, int > class SP > struct BName< LagrangeBasis< R, O, SP > >
{ static std::string js() { return std::string( "[\"" ) + Fam< SP >::name + "\"," + std::to_string( O ) + "]"; } };

// rules
template< typename R, int N > struct GL { using Q = QuadratureGaussLegendre< R, N >; static constexpr int n = N; static constexpr char const * name = "gl"; static constexpr bool rt = true; };
template< typename R, int N > struct GLL { using Q = QuadratureGaussLobatto< R, N >; static constexpr int n = N; static constexpr char const * name = "gll"; static constexpr bool rt = N <= 5; };
template< typename Q, typename R, int N, int ... I > void tabs( R ( &x )[N], R ( &w )[N], std::integer_sequence< int, I ... > )
{
  constexpr R cx[N] = { Q::template coordinate< I >() ... };
  constexpr R cw[N] = { Q::template weight< I >() ... };
  for( int i = 0; i < N; ++i ) { x[i] = cx[i]; w[i] = cw[i]; }
}

// cells
template< typename R, typename ... B > struct Lin
{
  using Real = R;
  static constexpr int npts = ( B::numSupportPoints * ... );
  using Cell = LinearTransform< R, InterpolatedShape< R, NCube< R, 3, -1, 1, 1 >, B ... > >;
  static constexpr char const * kind = "lin";
  static constexpr int n[sizeof ... ( B )] = { B::numSupportPoints ... };
  static std::string dims() { std::string s; ( ( s += ( s.empty() ? "" : "," ) + BName< B >::js() ), ... ); return "[" + s + "]"; }
  using List = std::vector< std::array< R, 3 > >;
  static std::string js( List const & l ) { std::string s = "["; for( auto const & p : l ) s += ( s.size() > 1 ? "," : "" ) + vh::js( std::vector< R >( p.begin(), p.end() ) ); return s + "]"; }
  // physical position of a support point
  static List place( vh::Rng & g, double const ( &M )[3][3], double const ( &b )[3], double pert )
  {
    List l( npts );
    R c[3][8];
    int d = 0;
    auto nodes = [&] ( auto t ) { using T = decltype( t ); for( int i = 0; i < T::numSupportPoints; ++i ) c[d][i] = i * R( 2 ) / ( T::numSupportPoints - 1 ) - 1; ++d; };
    ( nodes( B{} ), ... );
    for( int k = 0; k < npts; ++k )
    {
      R const p[3] = { c[0][k % n[0]], c[1][( k / n[0] ) % n[1]], c[2][k / ( n[0] * n[1] )] };
      for( int i = 0; i < 3; ++i ) l[k][i] = R( M[i][0] * p[0] + M[i][1] * p[1] + M[i][2] * p[2] + b[i] + ( pert != 0 ? g.sym( pert ) : 0 ) );
    }
    return l;
  }
  static void set( Cell & c, List const & l ) { c.setData( l ); }
};
template< typename R > struct Scal
{
  using Real = R; using Cell = Scaling< R >; using List = std::array< R, 3 >;
  static constexpr char const * kind = "scal";
  static std::string dims() { return "[]"; }
  static std::string js( List const & l ) { return vh::js( std::vector< R >( l.begin(), l.end() ) ); }
  static void set( Cell & c, List const & l ) { R h[3] = { l[0], l[1], l[2] }; c.setData( h ); }
};
template< typename R > struct Unif
{
  using Real = R; using Cell = UniformScaling< R >; using List = std::array< R, 1 >;
  static constexpr char const * kind = "unif";
  static std::string dims() { return "[]"; }
  static std::string js( List const & l ) { return vh::js( std::vector< R >( l.begin(), l.end() ) ); }
  static void set( Cell & c, List const & l ) { c.setData( l[0] ); }
};

// inverse Jacobian as a full matrix and determinant at quadrature point (A,B,C), by calling form
template< typename T, typename Rule > struct At
{
  using R = typename T::Real;
  using Cell = typename T::Cell;
  typename Cell::JacobianType J;          // reused from point to point
  R det;
  void fill( R ( &V )[3][3] )
  {
    for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j )
      if constexpr ( T::kind[0] == 'l' ) V[i][j] = J( i, j );
      else if constexpr ( T::kind[0] == 's' ) V[i][j] = i == j ? J( i ) : R( 0 );
      else V[i][j] = i == j ? J( 0 ) : R( 0 );
  }
  void plain( Cell const & c, R const ( &x )[3], int form, R ( &V )[3][3] )
  {
    (void)x;
    if constexpr ( T::kind[0] == 'l' )
    {
      if( form == 0 ) inverseJacobian( c, x, J, det );
      else if( form == 1 ) { auto const t = inverseJacobian( c, x ); det = std::get< 0 >( t ); J = std::get< 1 >( t ); }
      else { J = jacobian( c, x ); mathUtilities::inverse( J, det ); }
    }
    else
    {
      if( form == 0 ) inverseJacobian( c, J, det );
      else if( form == 1 ) { auto const t = inverseJacobian( c ); det = std::get< 0 >( t ); J = std::get< 1 >( t ); }
      else
      {
        auto const j = jacobian( c );
        if constexpr ( T::kind[0] == 's' ) det = j( 0 ) * j( 1 ) * j( 2 ); else det = j( 0 ) * j( 0 ) * j( 0 );
        auto const t = inverseJacobian( c ); J = std::get< 1 >( t );
      }
    }
    fill( V );
  }
  template< int A, int B, int C > void quad( Cell const & c, R ( &V )[3][3] )
  {
    if constexpr ( T::kind[0] == 'l' ) { jacobian< typename Rule::Q, A, B, C >( c, J ); mathUtilities::inverse( J, det ); fill( V ); }
    else { R x[3] = { 0, 0, 0 }; plain( c, x, 2, V ); }
  }
};

enum { VOL, MASS, GRAD, STIFF, MOM };
static char const * const whatName[] = { "vol", "mass", "grad", "stiff", "mom" };

template< typename T, typename Rule, typename ... EL > struct Assemble
{
  using R = typename T::Real;
  static constexpr int n = Rule::n;
  static constexpr int nd = ( EL::numSupportPoints * ... );
  using PE = ParentElement< R, NCube< R, 3, -1, 1, 1 >, EL ... >;
  using Var = CArrayNd< R, EL::numSupportPoints ... >;
  struct Res { R vol = 0; std::vector< R > mass, stiff, grad; R mom = 0; };

  static void point( R const ( &x )[3], R w, R det, R const ( &V )[3][3], Var const & var, int what, Res & r )
  {
    R const wd = w * det;
    if( what == VOL ) { r.vol += wd; return; }
    if( what == MOM ) { r.mom += wd * PE::value( x, var ); return; }
    static R val[nd], g[nd][3];
    int k = 0;
    forNestedSequence< EL::numSupportPoints ... >( [&] ( auto const ... a )
    {
      val[k] = PE::template value< decltype(a)::value ... >( x );
      if( what != MASS )
      {
        auto const p = PE::template gradient< decltype(a)::value ... >( x );
        for( int i = 0; i < 3; ++i ) g[k][i] = V[0][i] * p( 0 ) + V[1][i] * p( 1 ) + V[2][i] * p( 2 );
      }
      ++k;
    } );
    for( int a = 0; a < nd; ++a ) for( int b = 0; b < nd; ++b )
    {
      if( what == MASS ) r.mass[a * nd + b] += wd * ( val[a] * val[b] );
      else if( what == STIFF ) r.stiff[a * nd + b] += wd * ( g[a][0] * g[b][0] + g[a][1] * g[b][1] + g[a][2] * g[b][2] );
      else for( int i = 0; i < 3; ++i ) r.grad[( a * nd + b ) * 3 + i] += wd * ( g[a][i] * val[b] );
    }
  }
  static Res run( typename T::List const & list, int what, int form, Var const & var )
  {
    typename T::Cell cell; T::set( cell, list );
    Res r; r.mass.resize( what == MASS ? nd * nd : 0 ); r.stiff.resize( what == STIFF ? nd * nd : 0 ); r.grad.resize( what == GRAD ? nd * nd * 3 : 0 );
    At< T, Rule > at;
    R V[3][3];
    R x[n], w[n];
    tabs< typename Rule::Q, R, n >( x, w, std::make_integer_sequence< int, n >{} );
    if constexpr ( Rule::rt ) if( form == 0 ) for( int volatile q = 0; q < n; q = q + 1 ) { x[q] = Rule::Q::coordinate( int( q ) ); w[q] = Rule::Q::weight( int( q ) ); }
    if constexpr ( n <= 3 )
    {
      if( form == 3 )
      {
        vh::sfor< n >( [&] ( auto a ) { vh::sfor< n >( [&] ( auto b ) { vh::sfor< n >( [&] ( auto c )
        {
          at.template quad< decltype(a)::value, decltype(b)::value, decltype(c)::value >( cell, V );
          R const p[3] = { x[decltype(a)::value], x[decltype(b)::value], x[decltype(c)::value] };
          point( p, w[decltype(a)::value] * w[decltype(b)::value] * w[decltype(c)::value], at.det, V, var, what, r );
        } ); } ); } );
        return r;
      }
    }
    for( int a = 0; a < n; ++a ) for( int b = 0; b < n; ++b ) for( int c = 0; c < n; ++c )
    {
      R const p[3] = { x[a], x[b], x[c] };
      at.plain( cell, p, form % 3, V );
      point( p, w[a] * w[b] * w[c], at.det, V, var, what, r );
    }
    return r;
  }
  static std::string idx( int a )
  {
    constexpr int c[3] = { EL::numSupportPoints ... };
    return "[" + std::to_string( a / ( c[1] * c[2] ) ) + "," + std::to_string( ( a / c[2] ) % c[1] ) + "," + std::to_string( a % c[2] ) + "]";
  }
  static void go( vh::Rng & g, typename T::List const & list, bool aff, int what, int form )
  {
    Var var{};
    std::vector< R > nod;
    if( what == MOM ) for( int k = 0; k < nd; ++k ) { var.data()[k] = R( g.sym( 2 ) ); nod.push_back( var.data()[k] ); }
    Res const r = run( list, what, form, var );
    std::string rs, el;
    ( ( el += ( el.empty() ? "" : "," ) + BName< EL >::js() ), ... );
    auto add = [&] ( std::string const & m, std::string const & q, int i, R v ) { rs += ( rs.empty() ? "[" : ",[" ) + m + "," + q + "," + std::to_string( i ) + "," + vh::js( v ) + "]"; };
    if( what == VOL ) add( "[]", "[]", 0, r.vol );
    else if( what == MOM ) add( "[]", "[]", 0, r.mom );
    else for( int k = 0; k < ( vh::thorough() ? 12 : 4 ); ++k )
    {
      int const a = g.below( nd ), b = k == 0 ? a : g.below( nd ), i = g.below( 3 );
      if( what == MASS ) add( idx( a ), idx( b ), 0, r.mass[a * nd + b] );
      else if( what == STIFF ) add( idx( a ), idx( b ), 0, r.stiff[a * nd + b] );
      else add( idx( a ), idx( b ), i + 1, r.grad[( a * nd + b ) * 3 + i] );
    }
    Ev( "int" ).f( "t", vh::tname< R >() ).f( "what", whatName[what] ).raw( "rule", std::string( "[\"" ) + Rule::name + "\"," + std::to_string( n ) + "]" )
      .f( "kind", T::kind ).f( "aff", aff ).raw( "dims", T::dims() ).raw( "list", T::js( list ) ).raw( "el", "[" + el + "]" ).f( "form", form ).f( "nod", nod ).raw( "rs", "[" + rs + "]" );
  }
};

// the 48 symmetries of the cube's vertices: position -> position
inline std::vector< std::array< int, 8 > > symmetries()
{
  std::vector< std::array< int, 8 > > s;
  static int const perm[6][3] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 1, 0, 2 }, { 0, 2, 1 }, { 2, 1, 0 } };
  for( auto const & p : perm ) for( int f = 0; f < 8; ++f )
  {
    std::array< int, 8 > a;
    for( int k = 0; k < 8; ++k ) { int q = 0; for( int d = 0; d < 3; ++d ) q |= ( ( ( k >> p[d] ) & 1 ) ^ ( ( f >> d ) & 1 ) ) << d; a[k] = q; }
    s.push_back( a );
  }
  return s;
}
template< typename T > typename T::List rndLin( vh::Rng & g, bool aff, bool dyadic )
{
  double M[3][3], b[3];
  double const sc = dyadic ? 1 : std::pow( 10.0, g.below( 7 ) - 3 );
  int const p = g.below( 3 );
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) M[i][j] = ( ( i + p ) % 3 == j ? ( g.below( 2 ) ? 1 : -1 ) * ( 4 + g.below( 5 ) ) : g.below( 5 ) - 2 ) / 8.0 * sc; b[i] = ( g.below( 33 ) - 16 ) / 8.0 * sc; }
  return T::place( g, M, b, aff ? 0 : 0.12 * sc );
}
template< typename T, typename Rule, typename ... EL > void linCase( vh::Rng & g, int reps, bool aff, std::vector< int > whats )
{
  for( int q = 0; q < reps; ++q ) for( int w : whats )
  {
    auto const l = rndLin< T >( g, aff, aff || g.below( 2 ) );
    Assemble< T, Rule, EL ... >::go( g, l, aff, w, Rule::n <= 3 ? q % 4 : q % 3 );
  }
}
template< typename T, typename Rule, typename ... EL > void scalCase( vh::Rng & g, int reps )
{
  using R = typename T::Real;
  for( int q = 0; q < reps; ++q ) for( int w : { VOL, MASS, GRAD, STIFF, MOM } )
  {
    typename T::List l;
    for( auto & v : l ) v = R( ( g.unit() + 0.1 ) * std::pow( 10.0, g.below( 7 ) - 3 ) );
    Assemble< T, Rule, EL ... >::go( g, l, true, w, q % 3 );
  }
}

int main( int argc, char ** argv )
{
  vh::open( argc, argv );
  vh::Rng g( vh::seed() * 31 + SUB );
  int const k = vh::thorough() ? 12 : 1;
  using D = double;
  using F = float;
#if SUB == 0       // volumes under every numbering
  using T = Lin< D, E< D, 1 >, E< D, 1 >, E< D, 1 > >;
  for( int rep = 0; rep < k; ++rep )
  {
    auto const l = rndLin< T >( g, false, true );
    int q = 0;
    for( auto const & s : symmetries() )
    {
      T::List m( 8 );
      for( int a = 0; a < 8; ++a ) m[a] = l[s[a]];
      Assemble< T, GL< D, 2 >, E< D, 1 >, E< D, 1 >, E< D, 1 > >::go( g, m, false, VOL, q % 4 );
      if( q++ % 6 == 0 ) Assemble< T, GLL< D, 3 >, E< D, 1 >, E< D, 1 >, E< D, 1 > >::go( g, m, false, VOL, q % 4 );
    }
  }
  linCase< T, GL< D, 2 >, E< D, 1 >, E< D, 1 >, E< D, 1 > >( g, 4 * k, false, { VOL, GRAD } );
#elif SUB == 1
  using T = Lin< D, E< D, 1 >, E< D, 1 >, E< D, 1 > >;
  linCase< T, GL< D, 3 >, E< D, 1 >, E< D, 1 >, E< D, 1 > >( g, 4 * k, false, { VOL, MASS, GRAD, MOM } );
  linCase< T, GL< D, 3 >, E< D, 2 >, L< D, 1 >, E< D, 1 > >( g, 2 * k, true, { MASS, STIFF } );
#elif SUB == 2
  using T = Lin< D, E< D, 1 >, L< D, 2 >, G< D, 1 > >;
  linCase< T, GL< D, 3 >, E< D, 1 >, E< D, 1 >, E< D, 1 > >( g, 4 * k, false, { VOL, GRAD } );
  linCase< T, GLL< D, 4 >, E< D, 1 >, E< D, 1 >, E< D, 1 > >( g, 3 * k, false, { VOL, GRAD } );
#elif SUB == 3
  using T = Lin< D, L< D, 1 >, E< D, 1 >, E< D, 1 > >;
  linCase< T, GLL< D, 4 >, E< D, 1 >, L< D, 1 >, E< D, 1 > >( g, 3 * k, false, { MASS, MOM } );
  linCase< T, GL< D, 4 >, L< D, 2 >, E< D, 2 >, E< D, 1 > >( g, k, false, { MASS, GRAD, MOM } );
  linCase< T, GLL< D, 5 >, E< D, 1 >, E< D, 2 >, E< D, 1 > >( g, k, false, { MASS } );
  linCase< T, GLL< D, 6 >, E< D, 1 >, E< D, 1 >, E< D, 1 > >( g, k, false, { VOL } );
#elif SUB == 4
  using T = Lin< F, E< F, 1 >, E< F, 1 >, E< F, 1 > >;
  linCase< T, GL< F, 2 >, E< F, 1 >, E< F, 1 >, E< F, 1 > >( g, 3 * k, false, { VOL, GRAD } );
  linCase< T, GLL< F, 3 >, E< F, 1 >, E< F, 1 >, E< F, 1 > >( g, 3 * k, true, { VOL, MASS, STIFF } );
#elif SUB == 5
  scalCase< Scal< D >, GL< D, 2 >, E< D, 1 >, E< D, 1 >, E< D, 1 > >( g, 3 * k );
  scalCase< Scal< D >, GL< D, 3 >, E< D, 2 >, L< D, 2 >, G< D, 1 > >( g, 3 * k );
  scalCase< Scal< F >, GLL< F, 4 >, E< F, 1 >, L< F, 2 >, E< F, 1 > >( g, 3 * k );
  scalCase< Unif< D >, GLL< D, 5 >, L< D, 3 >, E< D, 1 >, E< D, 2 > >( g, 3 * k );
  scalCase< Unif< D >, GL< D, 4 >, E< D, 1 >, G< D, 3 >, E< D, 1 > >( g, 3 * k );
  scalCase< Unif< F >, GL< F, 2 >, L< F, 1 >, E< F, 1 >, E< F, 1 > >( g, 3 * k );
#endif
  vh::close();
  return 0;
}
