// Cells: data histories, Jacobians, inverses, determinants.   h_geom OUT [SCRIPT]
// PART_LIN (with SUB = 1..7, the type) / PART_SCAL: cell histories (from the script and random), PART_INV: matrix inverses.
#include "vh.hpp"
#include "script.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/mapping/Scaling.hpp"
#include "shiva/geometry/mapping/UniformScaling.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include "shiva/common/MathUtilities.hpp"
#include <array>
#include <memory>
using namespace shiva;
using namespace shiva::functions;
using namespace shiva::geometry;
using namespace shiva::geometry::utilities;
using vh::Ev;

template< typename R, int O > using E = LagrangeBasis< R, O, EqualSpacing >;
template< typename R, int O > using G = LagrangeBasis< R, O, GaussLegendreSpacing >;
template< typename R, int O > using L = LagrangeBasis< R, O, GaussLobattoSpacing >;
template< template< typename, int > class SP > struct Fam;
template<> struct Fam< EqualSpacing > { static constexpr char const * name = "eq"; };
template<> struct Fam< GaussLegendreSpacing > { static constexpr char const * name = "gl"; };
template<> struct Fam< GaussLobattoSpacing > { static constexpr char const * name = "gll"; };
template< typename B > struct BName;
template< typename R, int O, template< typename, int > class SP > struct BName< LagrangeBasis< R, O, SP > >
{ static std::string js() { return std::string( "[\"" ) + Fam< SP >::name + "\"," + std::to_string( O ) + "]"; } };

struct Op
{
  int code = 0, c = 0, d = 0, p = 0, form = 0;
  std::vector< double > v;       // list values / value
  double x[3] = { 0, 0, 0 };
};

// ---- the three kinds of cell behind one interface
template< typename R, typename ... B > struct Lin
{
  using Real = R;
  static constexpr int D = sizeof ... ( B );
  static constexpr int npts = ( B::numSupportPoints * ... );
  using Cell = LinearTransform< R, InterpolatedShape< R, NCube< R, D, -1, 1, 1 >, B ... > >;
  static constexpr int sz = npts * D;
  static constexpr char const * kind = "lin";
  static std::string dims() { std::string s; ( ( s += ( s.empty() ? "" : "," ) + BName< B >::js() ), ... ); return "[" + s + "]"; }
  static bool jc() { return Cell::jacobianIsConstInCell(); }
  static constexpr int n[sizeof ... ( B )] = { B::numSupportPoints ... };
  template< typename C > static auto & at( C & cell, int q )     // q-th number in storage order, through the multi-index
  {
    int const i = q % D; q /= D;
    if constexpr ( D == 3 ) return cell.getData()( q / ( n[1] * n[2] ), ( q / n[2] ) % n[1], q % n[2], i );
    else return cell.getData()( q / n[1], q % n[1], i );
  }
  static bool narrow( std::vector< double > const & v ) { for( double q : v ) if( double( float( q ) ) != q ) return false; return true; }
  static void set( Cell & cell, std::vector< double > const & v, int style )
  {
    if constexpr ( D == 3 )
    {
      // what holds the list of points: anything that two square brackets reach into
      auto fill = [&] ( auto && l ) { for( int k = 0; k < npts; ++k ) for( int i = 0; i < D; ++i ) l[k][i] = R( v[k * D + i] ); };
      switch( style % 8 )
      {
        case 0: { R l[npts][D]; fill( l ); cell.setData( l ); break; }
        case 1: { std::vector< std::array< R, 3 > > l( npts ); fill( l ); cell.setData( l ); break; }
        case 2: { R l[npts + 1][D + 2]; for( auto & row : l ) for( R & q : row ) q = R( -99 ); fill( l ); cell.setData( l ); break; }                  // rows longer than a point
        case 3: { std::vector< std::vector< R > > l( npts, std::vector< R >( 3 ) ); fill( l ); cell.setData( l ); break; }                          // rows anywhere in memory
        case 4: { CArrayNd< R, npts, D > l; fill( l ); auto const & c = l; cell.setData( c ); break; }
        case 5: { R l[npts][D]; fill( l ); R const * rows[npts]; for( int k = 0; k < npts; ++k ) rows[k] = l[k]; cell.setData( rows ); break; }
        case 6: { struct Row { std::vector< double > const & v; int k; R operator[]( int i ) const { return R( v[k * D + i] ); } }; struct Rows { std::vector< double > const & v; Row operator[]( int k ) const { return { v, k }; } } const l{ v }; cell.setData( l ); break; }   // computed when asked for
        default:                                                                                                                                     // another scalar
          if( narrow( v ) ) { float l[npts][3]; for( int k = 0; k < npts; ++k ) for( int i = 0; i < D; ++i ) l[k][i] = float( v[k * D + i] ); cell.setData( l ); }
          else { double l[npts][3]; for( int k = 0; k < npts; ++k ) for( int i = 0; i < D; ++i ) l[k][i] = v[k * D + i]; cell.setData( l ); }
      }
    }
    else
      for( int a = 0; a < n[0]; ++a ) for( int b = 0; b < n[1]; ++b ) for( int i = 0; i < D; ++i )
        cell.getData()( a, b, i ) = R( v[( a + n[0] * b ) * D + i] );
  }
  static void mod( Cell & cell, int p, double v ) { at( cell, p - 1 ) = R( v ); }
  static std::vector< R > data( Cell const & cell ) { std::vector< R > r; for( int q = 0; q < sz; ++q ) r.push_back( at( cell, q ) ); return r; }
  static void def( Cell & cell ) { for( int q = 0; q < sz; ++q ) at( cell, q ) = 0; }
};
template< typename R > struct Scal
{
  using Real = R;
  using Cell = Scaling< R >;
  static constexpr int sz = 3, D = 3;
  static constexpr char const * kind = "scal";
  static std::string dims() { return "[]"; }
  static bool jc() { return Cell::jacobianIsConstInCell(); }
  static void set( Cell & cell, std::vector< double > const & v, int ) { R h[3] = { R( v[0] ), R( v[1] ), R( v[2] ) }; cell.setData( h ); }
  static void mod( Cell & cell, int p, double v ) { cell.setData()[p - 1] = R( v ); }
  static std::vector< R > data( Cell const & cell ) { return { cell.getData()[0], cell.getData()[1], cell.getData()[2] }; }
  static void def( Cell & cell ) { cell = Cell{}; }
};
template< typename R > struct Unif
{
  using Real = R;
  using Cell = UniformScaling< R >;
  static constexpr int sz = 1, D = 3;
  static constexpr char const * kind = "unif";
  static std::string dims() { return "[]"; }
  static bool jc() { return Cell::jacobianIsConstInCell(); }
  static void set( Cell & cell, std::vector< double > const & v, int ) { cell.setData( R( v[0] ) ); }
  static void mod( Cell & cell, int, double v ) { cell.setData() = R( v ); }
  static std::vector< R > data( Cell const & cell ) { return { cell.getData() }; }
  static void def( Cell & cell ) { cell = Cell{}; }
};

template< typename T, typename J > std::vector< typename T::Real > flat( J const & j )
{
  std::vector< typename T::Real > r;
  if constexpr ( T::kind[0] == 'l' ) { for( int a = 0; a < T::D; ++a ) for( int b = 0; b < T::D; ++b ) r.push_back( j( a, b ) ); }
  else for( int a = 0; a < T::sz; ++a ) r.push_back( j( a ) );
  return r;
}

template< typename T > struct Runner
{
  using R = typename T::Real;
  using Cell = typename T::Cell;
  using JT = typename Cell::JacobianType;
  int nc;
  std::vector< Cell > cells;
  std::string ops;
  JT J;             // reused by every call of the history
  R det = R( 77 );
  Runner( int n ): nc( n ), cells( n ) { if constexpr ( T::kind[0] == 'l' ) for( auto & c : cells ) T::def( c ); for( int q = 0; q < int( sizeof( JT ) / sizeof( R ) ); ++q ) J.data()[q] = R( 1e3 + q ); }
  void query( Op const & o, std::string & s )
  {
    Cell const & cell = cells[o.c - 1];
    R x[T::D]; for( int d = 0; d < T::D; ++d ) x[d] = R( o.x[d] );
    bool const inv = o.code == 7;
    std::vector< R > out; R dt = 0;
    if constexpr ( T::kind[0] == 'l' )
    {
      if constexpr ( T::D == 3 )
      {
        if( !inv )
        {
          if( o.form == 0 && o.d % 3 == 0 ) { jacobian( cell, x, J ); out = flat< T >( J ); }
          else if( o.form == 0 && o.d % 3 == 1 ) { std::array< R, 3 > const y{ x[0], x[1], x[2] }; jacobian( cell, y, J ); out = flat< T >( J ); }
          else if( o.form == 0 ) { CArrayNd< R, 3 > const y{ x[0], x[1], x[2] }; jacobian( cell, y, J ); out = flat< T >( J ); }
          else if( o.form == 1 ) { auto const j = jacobian( cell, x ); out = flat< T >( j ); }
          else quad( cell, o, x, out );
        }
        else if( o.form == 0 && o.d % 3 == 0 ) { inverseJacobian( cell, x, J, det ); out = flat< T >( J ); dt = det; }
        else if( o.form == 0 ) { std::array< R, 3 > const y{ x[0], x[1], x[2] }; inverseJacobian( cell, y, J, det ); out = flat< T >( J ); dt = det; }
        else { auto const t = inverseJacobian( cell, x ); out = flat< T >( std::get< 1 >( t ) ); dt = std::get< 0 >( t ); }
      }
      else
      {
        if( inv ) { s += "\"o\":\"nop\""; return; }
        jacobian( cell, x, J ); out = flat< T >( J );
      }
    }
    else
    {
      if( !inv ) { if( o.form == 0 ) { jacobian( cell, J ); out = flat< T >( J ); } else { auto const j = jacobian( cell ); out = flat< T >( j ); } }
      else if( o.form == 0 ) { inverseJacobian( cell, J, det ); out = flat< T >( J ); dt = det; }
      else { auto const t = inverseJacobian( cell ); out = flat< T >( std::get< 1 >( t ) ); dt = std::get< 0 >( t ); }
    }
    s += std::string( "\"o\":\"" ) + ( inv ? "ijac" : "jac" ) + "\",\"c\":" + std::to_string( o.c ) + ",\"form\":" + std::to_string( o.form ) + ",\"x\":" + vh::js( std::vector< R >( x, x + T::D ) ) + ",\"J\":" + vh::js( out );
    if( inv ) s += ",\"det\":" + vh::js( dt );
  }
  // every point of a rule, or a few of them
  template< typename Q, int A, int B, int C > static void quadAt( Cell const & cell, R ( &x )[T::D], JT & J )
  {
    x[0] = Q::template coordinate< A >(); x[1] = Q::template coordinate< B >(); x[2] = Q::template coordinate< C >();
    jacobian< Q, A, B, C >( cell, J );
  }
  using At = void ( * )( Cell const &, R ( & )[T::D], JT & );
  template< typename Q, int N, int ... K > static At rule( int k, std::integer_sequence< int, K... > )
  {
    static constexpr At table[sizeof ... ( K )] = { &Runner::template quadAt< Q, K / ( N * N ), ( K / N ) % N, K % N > ... };
    return table[k % int( sizeof ... ( K ) )];
  }
  template< typename Q, int N > static At rule( int k ) { return rule< Q, N >( k, std::make_integer_sequence< int, N * N * N >{} ); }
  void quad( Cell const & cell, Op const & o, R ( &x )[T::D], std::vector< R > & out )
  {
    // the point's coordinates (multiples of 1/16, or -2..2 there) pick the quadrature point
    int const k = ( int( std::floor( o.x[0] * 16 ) ) + 32 ) + 7 * ( int( std::floor( o.x[1] * 16 ) ) + 32 ) + 13 * ( int( std::floor( o.x[2] * 16 ) ) + 32 );
    At f = nullptr;
#ifdef VH_SALT
    if( T::sz > 60 ) f = k % 2 ? &Runner::template quadAt< QuadratureGaussLobatto< R, 3 >, 1, 2, 0 > : &Runner::template quadAt< QuadratureGaussLobatto< R, 4 >, 3, 1, 2 >;
    else f = k % 4 == 0 ? &Runner::template quadAt< QuadratureGaussLobatto< R, 4 >, 3, 1, 2 > : rule< QuadratureGaussLobatto< R, 3 >, 3 >( k / 4 );
#else
    if( T::sz > 60 ) f = rule< QuadratureGaussLegendre< R, 2 >, 2 >( k );
    else f = k % 4 == 0 ? rule< QuadratureGaussLegendre< R, 2 >, 2 >( k / 4 ) : k % 4 == 1 ? &Runner::template quadAt< QuadratureGaussLegendre< R, 4 >, 0, 3, 1 > : rule< QuadratureGaussLegendre< R, 3 >, 3 >( k / 4 );
#endif
    if( o.p ) f = every( o.p - 1 );
    f( cell, x, J );
    out = flat< T >( J );
  }
  static constexpr int everyCount = T::sz > 60 ? 8 : 27;
  static At every( int k )
  {
#ifdef VH_SALT
    if constexpr ( T::sz > 60 ) return k % 2 ? &Runner::template quadAt< QuadratureGaussLobatto< R, 3 >, 1, 2, 0 > : &Runner::template quadAt< QuadratureGaussLobatto< R, 4 >, 3, 1, 2 >;
    else return rule< QuadratureGaussLobatto< R, 3 >, 3 >( k );
#else
    if constexpr ( T::sz > 60 ) return rule< QuadratureGaussLegendre< R, 2 >, 2 >( k );
    else return rule< QuadratureGaussLegendre< R, 3 >, 3 >( k );
#endif
  }
  void exec( Op const & o )
  {
    std::string s = ops.empty() ? "{" : ",{";
    auto num = [] ( double v ) { return vh::js( R( v ) ); };
    switch( o.code )
    {
      case 1:
      {
        T::set( cells[o.c - 1], o.v, o.form );
        s += "\"o\":\"set\",\"c\":" + std::to_string( o.c ) + ",\"list\":[";
        if constexpr ( T::kind[0] == 'l' )
          for( int k = 0; k < T::sz / T::D; ++k ) { s += k ? ",[" : "["; for( int i = 0; i < T::D; ++i ) s += ( i ? "," : "" ) + num( o.v[k * T::D + i] ); s += "]"; }
        else for( int k = 0; k < T::sz; ++k ) s += ( k ? "," : "" ) + num( o.v[k] );
        s += "]";
        break;
      }
      case 2: T::mod( cells[o.c - 1], o.p, o.v[0] ); s += "\"o\":\"mod\",\"c\":" + std::to_string( o.c ) + ",\"p\":" + std::to_string( o.p ) + ",\"v\":" + num( o.v[0] ); break;
      case 3: cells[o.d - 1] = cells[o.c - 1]; s += "\"o\":\"copy\",\"c\":" + std::to_string( o.c ) + ",\"d\":" + std::to_string( o.d ); break;
      case 4: { Cell const tmp( cells[o.c - 1] ); std::unique_ptr< Cell > p( new Cell( tmp ) ); cells[o.d - 1] = *p; s += "\"o\":\"copy\",\"c\":" + std::to_string( o.c ) + ",\"d\":" + std::to_string( o.d ); break; }
      case 5: T::def( cells[o.c - 1] ); s += "\"o\":\"def\",\"d\":" + std::to_string( o.c ); break;
      default: query( o, s );
    }
    s += ",\"after\":[";
    for( int c = 0; c < nc; ++c ) s += ( c ? "," : "" ) + vh::js( T::data( cells[c] ) );
    ops += s + "]}";
  }
  void finish( char const * src )
  {
    Ev e( "cell" );
    e.f( "src", src ).f( "kind", T::kind ).f( "t", vh::tname< R >() ).raw( "dims", T::dims() ).f( "nc", nc ).f( "sz", int( T::sz ) ).f( "jc", T::jc() ).raw( "ops", "[" + ops + "]" );
  }
};

static int styles = 0;
template< typename T > void runScript( vh::Node const & s )
{
  Runner< T > r( s[1].i() );
  for( auto const & n : s[2].k )
  {
    Op o; o.code = n[0].i(); o.c = n[1].i();
    switch( o.code )
    {
      case 1: for( std::size_t q = 2; q < n.size(); ++q ) o.v.push_back( n[q].v / 8.0 ); o.form = styles++; break;
      case 2: o.p = n[2].i(); o.v.push_back( n[3].v / 8.0 ); break;
      case 3: case 4: o.d = n[2].i(); break;
      case 6: case 7: o.form = n[2].i(); o.d = styles++; for( int d = 0; d < 3; ++d ) o.x[d] = n[3 + d].v / 16.0; break;
      default: break;
    }
    r.exec( o );
  }
  r.finish( "spec" );
}

// a scale: mostly 1e-4..1e4, at times far away (determinants stay well inside the range of the type)
template< typename R > double decade( vh::Rng & g )
{
  int const far = g.below( 4 ) == 0 ? ( sizeof( R ) == 4 ? 7 : 40 ) : 4;
  return std::pow( 10.0, g.below( 2 * far + 1 ) - far );
}

// random histories with extreme data
template< typename T > void runRandom( vh::Rng & g, int len, int mix )
{
  int const nc = 2;
  Runner< T > r( nc );
  auto val = [&] ( double scale, double shift ) { return g.sym( scale ) + shift; };
  auto list = [&] ()
  {
    std::vector< double > v( T::sz );
    int const mode = g.below( 7 );
    double const sc = decade< typename T::Real >( g ), sh = g.below( 3 ) == 0 ? g.sym( 100 * sc ) : 0;
    if( T::kind[0] == 'l' && mode < 4 )
    {
      // a perturbed (possibly mirrored / sheared / permuted) box
      double M[3][3] = { { 0 } };
      int const pm = g.below( 6 );
      static int const perm[6][3] = { { 0, 1, 2 }, { 1, 0, 2 }, { 2, 0, 1 }, { 0, 2, 1 }, { 1, 2, 0 }, { 2, 1, 0 } };
      for( int i = 0; i < 3; ++i ) M[i][perm[pm][i]] = ( g.below( 3 ) ? 1 : -1 ) * sc * ( 0.25 + g.unit() ) * ( mode == 3 ? std::pow( 10.0, g.below( 7 ) - 3 ) : 1 );
      if( mode >= 1 ) for( auto & row : M ) for( double & q : row ) q += g.sym( 0.1 * sc );
      int const npts = T::sz / T::D, n0 = npts == 8 ? 2 : npts;
      for( int k = 0; k < npts; ++k )
      {
        double const p[3] = { double( k % n0 ), double( ( k / 2 ) % 2 ), double( ( k / 4 ) % 4 ) };
        for( int i = 0; i < T::D; ++i ) { double q = sh; for( int j = 0; j < 3; ++j ) q += M[i][j] * p[j]; v[k * T::D + i] = q + ( mode == 2 ? g.sym( 0.2 * sc ) : 0 ); }
      }
    }
    else for( double & q : v ) { q = val( sc, sh ); if( T::kind[0] != 'l' && q == 0 ) q = 1; }
    return v;
  };
  for( int k = 0; k < len; ++k )
  {
    Op o; o.c = 1 + g.below( nc ); o.d = 1 + g.below( nc ); o.form = g.below( 3 );
    if( T::kind[0] != 'l' && o.form == 2 ) o.form = 0;
    int const q = g.below( 10 );
    if( k < nc ) { o.code = 1; o.c = k + 1; }
    else o.code = q == 0 ? 1 : q == 1 ? 2 : q == 2 ? 3 + g.below( 2 ) : ( mix == 0 ? 1 + g.below( 4 ) : mix == 1 ? 6 : mix == 2 ? 7 : 6 + g.below( 2 ) );
    if( o.code == 7 && o.form == 2 ) o.form = 0;
    if( o.code == 1 ) { o.v = list(); o.form = styles++; }
    if( o.code == 2 ) { o.p = 1 + g.below( T::sz ); o.v.push_back( g.sym( 10 ) ); }
    for( double & x : o.x ) x = g.below( 4 ) == 0 ? double( g.below( 3 ) - 1 ) : g.sym( g.below( 5 ) ? 1.0 : 2.0 );
    if( o.code == 6 && o.form == 2 ) for( double & x : o.x ) x = ( g.below( 33 ) - 16 ) / 16.0;
    r.exec( o );
  }
  r.finish( "random" );
}

// a box of which one number is moved, by a list or in place, number after number, seen from a point or a quadrature point after each step
template< typename T > void runMoved( vh::Rng & g, int mix )
{
  Runner< T > r( 1 );
  constexpr bool lin = T::kind[0] == 'l';
  std::vector< double > box( T::sz );
  int n[3] = { 2, 2, 2 };
  if constexpr ( lin ) { for( int d = 0; d < T::D; ++d ) n[d] = T::n[d]; }
  double M[9], o[3];
  for( double & m : M ) m = ( g.below( 65 ) - 32 ) / 8.0;
  for( double & q : o ) q = ( g.below( 65 ) - 32 ) / 8.0;
  for( int q = 0; q < T::sz; ++q )
  {
    int const k = q / T::D, i = q % T::D;
    box[q] = lin ? o[i] + M[3 * i] * ( k % n[0] ) + M[3 * i + 1] * ( ( k / n[0] ) % n[1] ) + M[3 * i + 2] * ( k / ( n[0] * n[1] ) ) : M[0] + 5;
  }
  int const stride = T::sz > 40 && !vh::thorough() ? 3 : 1;
  for( int q = g.below( stride ); q < T::sz; q += stride )
  {
    double const far = g.below( 6 ) == 0 ? ( g.below( 2 ) ? 1e6 : 1e9 ) : 1;
    Op s; s.code = 1; s.c = 1; s.form = styles++; s.v = box; s.v[q] += far * ( g.below( 2 ) ? 0.125 : -1.5 );
    if( q % 4 == 3 ) { s.v = box; r.exec( s ); Op m; m.code = 2; m.c = 1; m.p = q + 1; m.v.push_back( box[q] + far * 2 ); r.exec( m ); }
    else { if( !lin ) { Op b = s; b.v = box; r.exec( b ); } r.exec( s ); }
    Op j; j.c = 1; j.code = mix == 1 ? 6 : mix == 2 ? 7 : 6 + g.below( 2 ); j.form = g.below( j.code == 6 && lin ? 3 : 2 );
    if( mix == 0 && q % 3 ) continue;
    for( double & x : j.x )
    {
      x = j.form == 2 ? ( g.below( 33 ) - 16 ) / 16.0 : g.sym( 1.0 );
      if( j.form != 2 && far > 1 ) x = ( g.below( 2 ) ? 1 : -1 ) * ( 1 - std::pow( 10.0, -3 - g.below( 4 ) ) );          // next to a face
    }
    r.exec( j );
  }
  r.finish( "moved" );
}

// every point of a rule
template< typename T > void runRule( vh::Rng & g )
{
  if constexpr ( T::D == 3 && T::kind[0] == 'l' )
  {
    Runner< T > r( 1 );
    Op s; s.code = 1; s.c = 1;
    for( int q = 0; q < T::sz; ++q ) s.v.push_back( g.sym( 2 ) + ( q % 3 == 0 ? q / 3 % 2 : 0 ) );
    r.exec( s );
    for( int k = 0; k < Runner< T >::everyCount; ++k ) { Op j; j.code = 6; j.c = 1; j.form = 2; j.p = k + 1; r.exec( j ); }
    r.finish( "rule" );
  }
}

#if defined(PART_LIN)
#if SUB == 1
using T = Lin< double, E< double, 1 >, E< double, 1 >, E< double, 1 > >;
#elif SUB == 2
using T = Lin< double, E< double, 1 >, L< double, 2 >, L< double, 3 > >;
#elif SUB == 3
using T = Lin< float, E< float, 1 >, L< float, 2 >, G< float, 1 > >;
#elif SUB == 4
using T = Lin< double, L< double, 2 >, G< double, 1 >, E< double, 1 > >;
#elif SUB == 5
using T = Lin< double, E< double, 2 >, L< double, 2 >, E< double, 1 > >;
#elif SUB == 6
using T = Lin< double, E< double, 1 >, L< double, 2 > >;
#elif SUB == 7
using T = Lin< double, E< double, 5 >, E< double, 1 >, L< double, 2 > >;
#endif
#endif

// ---- plain matrix inversion
template< typename R > struct MatOut { std::vector< R > r; R det; };
template< typename R > MatOut< R > invRaw( R const * a )
{ R m[3][3]; for( int i = 0; i < 9; ++i ) m[i / 3][i % 3] = a[i]; R d = R( 5 ); mathUtilities::inverse( m, d ); MatOut< R > o; o.det = d; for( int i = 0; i < 9; ++i ) o.r.push_back( m[i / 3][i % 3] ); return o; }
template< typename R > MatOut< R > invArr( R const * a )
{ CArrayNd< R, 3, 3 > m; for( int i = 0; i < 9; ++i ) m( i / 3, i % 3 ) = a[i]; R d = R( -3 ); mathUtilities::inverse( m, d ); MatOut< R > o; o.det = d; for( int i = 0; i < 9; ++i ) o.r.push_back( m( i / 3, i % 3 ) ); return o; }
template< typename R > MatOut< R > invView( R const * a )
{ R buf[9]; for( int i = 0; i < 9; ++i ) buf[i] = a[i]; CArrayViewNd< R, 3, 3 > m( buf ); R d = R( 0 ); mathUtilities::inverse( m, d ); MatOut< R > o; o.det = d; for( int i = 0; i < 9; ++i ) o.r.push_back( buf[i] ); return o; }
template< typename R > void logInv( R const * a, char const * api, MatOut< R > const & o )
{ Ev( "inv" ).f( "api", api ).f( "t", vh::tname< R >() ).f( "a", std::vector< R >( a, a + 9 ) ).f( "r", o.r ).f( "det", o.det ); }
template< typename R > void matrices( vh::Rng & g )
{
  std::vector< std::array< R, 9 > > ms;
  static int const perm[6][3] = { { 0, 1, 2 }, { 1, 0, 2 }, { 2, 0, 1 }, { 0, 2, 1 }, { 1, 2, 0 }, { 2, 1, 0 } };
  for( auto const & p : perm ) for( int sg = 0; sg < 8; ++sg )
  { std::array< R, 9 > m{}; for( int i = 0; i < 3; ++i ) m[3 * i + p[i]] = R( ( sg >> i & 1 ? -1 : 1 ) * ( i + 2 ) ); ms.push_back( m ); }
  // every pattern of zeros that leaves an invertible matrix; symmetric, triangular and small whole-numbered matrices
  for( int pat = 0; pat < 512; ++pat )
  {
    bool some = false;
    for( auto const & p : perm ) some = some || ( ( pat >> p[0] & 1 ) && ( pat >> ( 3 + p[1] ) & 1 ) && ( pat >> ( 6 + p[2] ) & 1 ) );
    if( !some || ( !vh::thorough() && pat % 2 != int( sizeof( R ) / 4 ) % 2 && __builtin_popcount( pat ) > 6 ) ) continue;
    std::array< R, 9 > m{};
    for( int i = 0; i < 9; ++i ) if( pat >> i & 1 ) m[i] = R( g.below( 3 ) ? g.sym( 4 ) : 1 + g.below( 4 ) );
    ms.push_back( m );
  }
  for( int q = 0; q < ( vh::thorough() ? 2000 : 150 ); ++q )
  {
    std::array< R, 9 > m;
    for( auto & v : m ) v = R( q % 2 ? g.below( 4 ) - 1 : g.sym( 3 ) );
    if( q % 3 == 0 ) { m[3] = m[1]; m[6] = m[2]; m[7] = m[5]; }
    if( q % 3 == 1 ) { m[3] = -m[1]; m[6] = -m[2]; m[7] = -m[5]; }
    if( q % 6 == 2 ) for( int i = 0; i < 3; ++i ) m[3 + i] = m[i] + ( i == q / 6 % 3 ? 1 : 0 );
    if( q % 6 == 5 ) m[0] = m[4] = m[8];
    ms.push_back( m );
  }
  int const n = vh::thorough() ? 2000 : 120;
  for( int q = 0; q < n; ++q )
  {
    std::array< R, 9 > m;
    double const sc = decade< R >( g );
    for( auto & v : m ) v = R( q % 3 == 0 ? double( g.below( 11 ) - 5 ) : g.sym( sc ) );
    if( q % 5 == 1 ) m[g.below( 9 )] = 0;
    if( q % 5 == 2 ) { m[1] = m[2] = m[5] = 0; }
    if( q % 5 == 3 ) for( int i = 0; i < 3; ++i ) { double s = std::pow( 10.0, g.below( 9 ) - 4 ); for( int j = 0; j < 3; ++j ) m[3 * i + j] *= R( s ); }
    ms.push_back( m );
  }
  int q = 0;
  for( auto const & m : ms )
  {
    logInv( m.data(), "raw", invRaw( m.data() ) );
    if( q % 2 == 0 ) logInv( m.data(), "arr", invArr( m.data() ) );
    if( q++ % 3 == 0 ) logInv( m.data(), "view", invView( m.data() ) );
  }
}
template< typename R > constexpr R ctDet( int w )
{ CArrayNd< R, 3, 3 > m{ R( 2 ), R( -1 ), R( 3 ), R( 0.5 ), R( 4 ), R( -2 ), R( 1 ), R( 7 ), R( 5 ) }; R d = 0; mathUtilities::inverse( m, d ); return w == 9 ? d : m( w / 3, w % 3 ); }
template< typename R > constexpr R ctDetRaw( int w )
{ R m[3][3] = { { R( 2 ), R( -1 ), R( 3 ) }, { R( 0.5 ), R( 4 ), R( -2 ) }, { R( 1 ), R( 7 ), R( 5 ) } }; R d = 0; mathUtilities::inverse( m, d ); return w == 9 ? d : m[w / 3][w % 3]; }
template< typename R > void matCt()
{
  R const a[9] = { R( 2 ), R( -1 ), R( 3 ), R( 0.5 ), R( 4 ), R( -2 ), R( 1 ), R( 7 ), R( 5 ) };
  constexpr R c[10] = { ctDet< R >( 0 ), ctDet< R >( 1 ), ctDet< R >( 2 ), ctDet< R >( 3 ), ctDet< R >( 4 ), ctDet< R >( 5 ), ctDet< R >( 6 ), ctDet< R >( 7 ), ctDet< R >( 8 ), ctDet< R >( 9 ) };
  constexpr R w[10] = { ctDetRaw< R >( 0 ), ctDetRaw< R >( 1 ), ctDetRaw< R >( 2 ), ctDetRaw< R >( 3 ), ctDetRaw< R >( 4 ), ctDetRaw< R >( 5 ), ctDetRaw< R >( 6 ), ctDetRaw< R >( 7 ), ctDetRaw< R >( 8 ), ctDetRaw< R >( 9 ) };
  logInv( a, "ct-arr", MatOut< R >{ std::vector< R >( c, c + 9 ), c[9] } );
  logInv( a, "ct-raw", MatOut< R >{ std::vector< R >( w, w + 9 ), w[9] } );
}

int main( int argc, char ** argv )
{
  vh::open( argc, argv );
  vh::Rng g( vh::seed() + 17 );
  int const mix = argc > 3 ? std::atoi( argv[3] ) : 0;          // 0 data, 1 Jacobians, 2 inverses
  int const reps = vh::thorough() ? 60 : 3, len = 12;
  (void)g; (void)reps; (void)len; (void)mix;
#if defined(PART_LIN)
  for( auto const & s : vh::scripts( argv[2] ) ) if( s[0].i() == SUB ) runScript< T >( s );
  for( int q = 0; q < ( SUB == 1 ? 2 : 1 ) * reps; ++q ) runRandom< T >( g, len, mix );
  for( int q = 0; q < ( SUB == 1 ? 2 : 1 ) * ( vh::thorough() ? 5 : 1 ); ++q ) runMoved< T >( g, mix );
  if( mix == 1 ) runRule< T >( g );
#endif
#if defined(PART_SCAL)
  for( auto const & s : vh::scripts( argv[2] ) )
    switch( s[0].i() )
    {
      case 1: runScript< Scal< double > >( s ); break;
      case 2: runScript< Unif< double > >( s ); break;
      case 3: runScript< Scal< float > >( s ); break;
      case 4: runScript< Unif< float > >( s ); break;
      default: return 5;
    }
  for( int q = 0; q < 8 * reps; ++q )
  { runRandom< Scal< double > >( g, len, 3 ); runRandom< Unif< double > >( g, len, 3 ); runRandom< Scal< float > >( g, len, 3 ); runRandom< Unif< float > >( g, len, 3 ); }
  for( int q = 0; q < 4; ++q ) { runMoved< Scal< double > >( g, 3 ); runMoved< Unif< double > >( g, 3 ); runMoved< Scal< float > >( g, 3 ); runMoved< Unif< float > >( g, 3 ); }
#endif
#if defined(PART_INV)
  matrices< double >( g ); matrices< float >( g ); matCt< double >(); matCt< float >();
#endif
  vh::close();
  return 0;
}
