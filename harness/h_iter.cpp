// Index linearisation and loops.   h_iter OUT
// PART_LI: linear indices (events);  PART_RANGE: range loops (histories);
// PART_PACK: index packs (events);   PART_SEQ: compile-time loops (histories)
#include "vh.hpp"
#include "shiva/common/IndexTypes.hpp"
#include "shiva/common/MultiIndex.hpp"
#include "shiva/common/LinearIndex.hpp"
#include "shiva/common/SequenceUtilities.hpp"
#include "shiva/common/NestedSequenceUtilities.hpp"
#include <array>
#include <memory>
#include <tuple>
using namespace shiva;
using vh::Ev;

template< typename T > char const * ity()
{
  return std::is_same_v< T, int > ? "int" : std::is_same_v< T, long > ? "long" : std::is_same_v< T, long long > ? "longlong" : std::is_same_v< T, unsigned > ? "unsigned" :
         std::is_same_v< T, short > ? "short" : std::is_same_v< T, unsigned long > ? "ulong" : std::is_same_v< T, signed char > ? "schar" : "other";
}
struct Hist
{
  std::string form, extra, ops;
  std::vector< int > ends, start;
  bool raw = true;
  void call( std::vector< int > const & idx, std::string const & more = "" ) { ops += std::string( ops.empty() ? "" : "," ) + "{\"o\":\"call\",\"idx\":" + vh::js( idx ) + more + "}"; }
  void end( int n, std::string const & more = "" )
  {
    ops += std::string( ops.empty() ? "" : "," ) + "{\"o\":\"end\",\"n\":" + std::to_string( n ) + more + "}";
    Ev( "loop" ).f( "form", form ).f( "ends", ends ).f( "start", start ).raw( "ops", "[" + ops + "]" );
    ops.clear();
  }
};

// ------------------------------------------------------------------ ranges
template< typename B, B ... R > struct Box
{
  using Range = MultiIndexRange< B, R ... >;
  static constexpr int D = sizeof ... ( R );
  static constexpr int r[D] = { int( R ) ... };
  static constexpr long total = ( long( R ) * ... );
  template< typename I > static std::vector< int > idx( I const & i ) { std::vector< int > v; for( int d = 0; d < D; ++d ) v.push_back( int( i.data[d] ) ); return v; }
  static std::vector< int > ends() { return std::vector< int >( r, r + D ); }
  static Range make( std::vector< int > const & s ) { Range i; for( int d = 0; d < D; ++d ) i.data[d] = B( s[d] ); return i; }

  // own enumeration of all index vectors lo..hi(d)
  template< typename F > static void each( int lo, int up, F && f )
  {
    std::vector< int > s( D, lo );
    for( ;; )
    {
      f( s );
      int d = D - 1;
      while( d >= 0 && ++s[d] >= r[d] + up ) s[d--] = lo;
      if( d < 0 ) return;
    }
  }
  static std::string big( B v ) { return std::is_signed_v< B > ? vh::bigint( (long long)v ) : vh::ubigint( (unsigned long long)v ); }
  static void li()
  {
    if( total == 0 ) return;
    std::string all;
    each( 0, 0, [&] ( std::vector< int > const & s ) { Range const i = make( s ); all += ( all.empty() ? "" : "," ) + big( linearIndex( i ) ); } );
    Ev( "box" ).f( "ty", ity< B >() ).f( "rg", ends() ).raw( "all", "[" + all + "]" );
  }
  struct Tab { B v[total > 0 && total < 100000 ? total : 1] = {}; };
  static constexpr Tab tab()
  {
    Tab t{};
    int s[D] = {};
    for( long q = 0; q < total; ++q )
    {
      long z = q;
      for( int d = D - 1; d >= 0; --d ) { s[d] = int( z % r[d] ); z /= r[d]; }
      Range i{};
      for( int d = 0; d < D; ++d ) i.data[d] = B( s[d] );
      t.v[q] = linearIndex( i );
    }
    return t;
  }
  static void liCt()
  {
    constexpr Tab t = tab();
    std::string all;
    for( long q = 0; q < total; ++q ) all += ( all.empty() ? "" : "," ) + big( t.v[q] );
    Ev( "box" ).f( "ty", ity< B >() ).f( "rg", ends() ).raw( "all", "[" + all + "]" );
  }
  static void liAt( std::vector< int > const & s )
  {
    Range const i = make( s );
    Ev( "li" ).f( "ty", ity< B >() ).f( "rg", ends() ).f( "idx", s ).raw( "v", big( linearIndex( i ) ) );
  }
  static void liSome( vh::Rng & g, int n )
  {
    liAt( std::vector< int >( D, 0 ) );
    std::vector< int > s( D );
    for( int d = 0; d < D; ++d ) s[d] = r[d] - 1;
    liAt( s );
    for( int q = 0; q < n; ++q ) { for( int d = 0; d < D; ++d ) s[d] = g.below( 4 ) == 0 ? r[d] - 1 : g.below( r[d] ); liAt( s ); }
  }
  // ---- loops
  struct Fn { Hist * h; int n = 0; template< typename I > void operator()( I const & i ) { ++n; h->call( idx( i ), ",\"lin\":" + std::to_string( (long long)linearIndex( i ) ) ); } };
  static void loop( std::vector< int > const & s, int style )
  {
    Hist h; h.form = "range"; h.ends = ends(); h.start = s;
    Range i = make( s );
    int n = 0;
    switch( style )
    {
      case 0: forRange( i, [&] ( auto const & j ) { ++n; h.call( idx( j ), ",\"lin\":" + std::to_string( (long long)linearIndex( j ) ) ); } ); break;
      case 1: { Fn f{ &h }; forRange( i, f ); n = f.n; break; }
      case 2: forRange( i, [&] ( Range j ) { ++n; h.call( idx( j ) ); return n; } ); break;
      case 3: { auto const f = [&] ( Range const & j ) { ++n; h.call( idx( j ) ); }; forRange( i, f ); break; }
      case 4: forRange( i, [&, k = 0] ( Range & j ) mutable { n = ++k; h.call( idx( j ) ); } ); break;
      default:        // a loop inside the loop, over its own index of the same type
      {
        bool first = true;
        forRange( i, [&] ( auto const & j )
        {
          ++n; h.call( idx( j ) );
          if( first || n % 5 == 0 )
          {
            first = false;
            Hist q; q.form = "inner"; q.ends = ends(); q.start = std::vector< int >( D, 0 );
            Range k{}; int m = 0;
            forRange( k, [&] ( auto const & l ) { ++m; q.call( idx( l ) ); } );
            q.end( m );
          }
        } );
      }
    }
    h.end( n );
  }
  static void loops( bool neg, int cap, vh::Rng & g )
  {
    int cnt = 0;
    long all = 1;
    for( int d = 0; d < D; ++d ) all *= r[d] + 2 + ( neg ? 1 : 0 );
    loop( std::vector< int >( D, 0 ), 0 ); loop( std::vector< int >( D, 0 ), 1 ); loop( std::vector< int >( D, 0 ), 5 );
    each( neg ? -1 : 0, 2, [&] ( std::vector< int > const & s ) { if( all <= cap || g.below( int( all ) ) < cap ) loop( s, cnt % 6 ); ++cnt; } );
    // the same index object again
    Range i{};
    for( int rep = 0; rep < 2; ++rep )
    {
      Hist h; h.form = "again"; h.ends = ends(); h.start = std::vector< int >( D, 0 );
      for( int d = 0; d < D; ++d ) i.data[d] = 0;
      int n = 0;
      forRange( i, [&] ( auto const & j ) { ++n; h.call( idx( j ) ); } );
      h.end( n );
    }
  }
  struct Vis { int n = 0; int ix[total + 2][D] = {}; int lin[total + 2] = {}; };
  template< int ... S > static constexpr Vis visit()
  {
    Vis v{};
    Range i{ { S ... } };
    forRange( i, [&] ( auto const & j ) { if( v.n < total + 1 ) { for( int d = 0; d < D; ++d ) v.ix[v.n][d] = int( j.data[d] ); v.lin[v.n] = int( linearIndex( j ) ); } ++v.n; } );
    return v;
  }
  template< int ... S > static void ct()
  {
    constexpr Vis v = visit< S ... >();
    Hist h; h.form = "ct"; h.ends = ends(); h.start = { S ... };
    for( int q = 0; q < v.n && q < total + 2; ++q ) h.call( std::vector< int >( v.ix[q], v.ix[q] + D ), ",\"lin\":" + std::to_string( v.lin[q] ) );
    h.end( v.n );
  }
};

// ------------------------------------------------------------------ compile-time loops
static constexpr int F( int i ) { return 7 * i + 3; }
struct ArgFn { Hist * h; int * n; template< typename I > int operator()( I i ) const { ++*n; static_assert( I::value >= 0 ); h->call( { int( i ) }, ",\"cv\":" + std::to_string( I::value ) ); return F( i ); } };
struct TmplFn { Hist * h; int * n; template< int I > int operator()() const { ++*n; h->call( { I } ); return F( I ); } };
struct Count { Hist * h; int n = 0; template< typename I > int operator()( I i ) { ++n; h->call( { int( i ) } ); return F( i ); } };
struct CtArg { int * s; int * n; template< typename I > constexpr int operator()( I i ) const { s[( *n )++] = i; return F( i ); } };
struct CtTmpl { int * s; int * n; template< int I > constexpr int operator()() const { s[( *n )++] = I; return F( I ); } };
struct CtOut { int n = 0; int s[300] = {}; int r = 0; };
template< int N, bool TMPL > constexpr CtOut ctFor()
{
  CtOut o{};
  if constexpr ( TMPL ) o.r = forSequence< N >( CtTmpl{ o.s, &o.n } ); else o.r = forSequence< N >( CtArg{ o.s, &o.n } );
  return o;
}
inline std::string res( int r ) { return ",\"res\":[" + std::to_string( r ) + "]"; }
template< int N > void seqFor()
{
  for( int style = 0; style < 6; ++style )
  {
    Hist h; h.form = "for"; h.ends = { N }; h.start = { 0 };
    int n = 0;
    if constexpr ( N > 0 )
    {
      if( style == 0 ) { int const r = forSequence< N >( ArgFn{ &h, &n } ); h.end( n, res( r ) ); }
      if( style == 1 ) { int const r = forSequence< N >( TmplFn{ &h, &n } ); h.end( n, res( r ) ); }
      if( style == 2 ) { Count f{ &h }; int const r = forSequence< N >( f ); h.end( f.n, res( r ) ); }
      if( style == 4 ) { constexpr CtOut o = ctFor< N, false >(); for( int q = 0; q < o.n; ++q ) h.call( { o.s[q] } ); h.end( o.n, res( o.r ) ); }
      if( style == 5 ) { constexpr CtOut o = ctFor< N, true >(); for( int q = 0; q < o.n; ++q ) h.call( { o.s[q] } ); h.end( o.n, res( o.r ) ); }
    }
    if( style == 3 ) { forSequence< N >( [&, k = 0] ( auto i ) mutable { n = ++k; h.call( { int( i ) }, ",\"cv\":" + std::to_string( decltype(i)::value ) ); } ); h.end( n ); }
  }
}
struct NestCount { Hist * h; int n = 0; template< typename ... I > void operator()( I ... i ) { ++n; h->call( { int( i ) ... }, std::string( ",\"cvs\":" ) + vh::js( std::vector< int >{ I::value ... } ) ); } };
template< int D > struct NestOut { int n = 0; int s[256][D] = {}; };
template< int ... E > constexpr NestOut< sizeof ... ( E ) > ctNest( bool seq )
{
  NestOut< sizeof ... ( E ) > o{};
  auto f = [&] ( auto ... i ) { int const v[] = { int( i ) ... }; for( int d = 0; d < int( sizeof ... ( E ) ); ++d ) o.s[o.n][d] = v[d]; ++o.n; };
  if( seq ) forNestedSequence( std::integer_sequence< int, E ... >{}, f ); else forNestedSequence< E ... >( f );
  return o;
}
template< int ... E > void nested()
{
  constexpr int D = sizeof ... ( E );
  Hist h; h.form = "nested"; h.ends = { E ... }; h.start = std::vector< int >( D, 0 );
  int n = 0;
  forNestedSequence< E ... >( [&] ( auto const ... i ) { ++n; h.call( { int( i ) ... }, std::string( ",\"cvs\":" ) + vh::js( std::vector< int >{ decltype(i)::value ... } ) ); } );
  h.end( n );
  { NestCount f{ &h }; forNestedSequence< E ... >( f ); h.end( f.n ); }
  { NestCount f{ &h }; forNestedSequence( std::integer_sequence< int, E ... >{}, f ); h.end( f.n ); }
  n = 0;
  forNestedSequence< E ... >( [&, k = 0] ( auto ... i ) mutable { n = ++k; h.call( { int( i ) ... } ); return k; } );
  h.end( n );
  constexpr auto o = ctNest< E ... >( false );
  for( int q = 0; q < o.n; ++q ) h.call( std::vector< int >( o.s[q], o.s[q] + D ) );
  h.end( o.n );
  constexpr auto p = ctNest< E ... >( true );
  for( int q = 0; q < p.n; ++q ) h.call( std::vector< int >( p.s[q], p.s[q] + D ) );
  h.end( p.n );
}

// ---- sequence execution: arguments first, then the indices; what the function sees
template< typename T > char const * cat() { return std::is_lvalue_reference_v< T > ? ( std::is_const_v< std::remove_reference_t< T > > ? "c" : "l" ) : ( std::is_const_v< std::remove_reference_t< T > > ? "k" : "r" ); }
struct Arg { int v; int moved = 0; Arg( int q ): v( q ) {} Arg( Arg const & o ): v( o.v ) { moved = 100; } Arg( Arg && o ): v( o.v ) { o.v = -1; } Arg & operator=( Arg const & ) = default; };
struct MoveOnly { int v; MoveOnly( int q ): v( q ) {} MoveOnly( MoveOnly && o ): v( o.v ) { o.v = -1; } };
template< typename T > void touch( T && a ) { if constexpr ( std::is_lvalue_reference_v< T > && !std::is_const_v< std::remove_reference_t< T > > ) a.v += 1; }
struct ExLog
{
  std::vector< int > args, idx; std::string cats; int calls = 0; int copies = 0;
  int result() const { int s = 0; for( int a : args ) s += 1000 * a; int k = 1; for( int i : idx ) s += ( k++ ) * ( i + 5 ); return s; }
};
template< typename A > int copied( A const & a ) { if constexpr ( std::is_same_v< std::decay_t< A >, Arg > ) return a.moved; else return 0; }
template< int NARGS > struct ExArg;
#define SEE( A ) lg->args.push_back( A.v ); lg->cats += ( lg->cats.empty() ? "" : "," ) + vh::quote( cat< decltype(A) >() ); lg->copies += copied( A ); touch( std::forward< decltype(A) >( A ) );
template<> struct ExArg< 0 > { ExLog * lg; template< typename ... I > int operator()( I ... i ) const { ++lg->calls; ( lg->idx.push_back( I::value ), ... ); (void)std::initializer_list< int >{ 0, ( int( i ), 0 ) ... }; return lg->result(); } };
template<> struct ExArg< 1 > { ExLog * lg; template< typename A, typename ... I > int operator()( A && a, std::integral_constant< int, 0 > z, I ... ) const { ++lg->calls; SEE( a ) lg->idx.push_back( z ); ( lg->idx.push_back( I::value ), ... ); return lg->result(); } };
template<> struct ExArg< 2 > { ExLog * lg; template< typename A, typename B, typename ... I > int operator()( A && a, B && b, std::integral_constant< int, 0 > z, I ... ) const { ++lg->calls; SEE( a ) SEE( b ) lg->idx.push_back( z ); ( lg->idx.push_back( I::value ), ... ); return lg->result(); } };
template<> struct ExArg< 4 > { ExLog * lg; template< typename A, typename B, typename C, typename D, typename ... I > int operator()( A && a, B && b, C && c, D && d, std::integral_constant< int, 0 > z, I ... ) const { ++lg->calls; SEE( a ) SEE( b ) SEE( c ) SEE( d ) lg->idx.push_back( z ); ( lg->idx.push_back( I::value ), ... ); return lg->result(); } };
template<> struct ExArg< 6 > { ExLog * lg; template< typename A, typename B, typename C, typename D, typename E, typename F, typename ... I > int operator()( A && a, B && b, C && c, D && d, E && e, F && f, std::integral_constant< int, 0 > z, I ... ) const { ++lg->calls; SEE( a ) SEE( b ) SEE( c ) SEE( d ) SEE( e ) SEE( f ) lg->idx.push_back( z ); ( lg->idx.push_back( I::value ), ... ); return lg->result(); } };
template< int NARGS > struct ExTmpl;
template<> struct ExTmpl< 0 > { ExLog * lg; template< int ... I > int operator()() const { ++lg->calls; ( lg->idx.push_back( I ), ... ); return lg->result(); } };
template<> struct ExTmpl< 1 > { ExLog * lg; template< int ... I, typename A > int operator()( A && a ) const { ++lg->calls; SEE( a ) ( lg->idx.push_back( I ), ... ); return lg->result(); } };
template<> struct ExTmpl< 2 > { ExLog * lg; template< int ... I, typename A, typename B > int operator()( A && a, B && b ) const { ++lg->calls; SEE( a ) SEE( b ) ( lg->idx.push_back( I ), ... ); return lg->result(); } };
template<> struct ExTmpl< 4 > { ExLog * lg; template< int ... I, typename A, typename B, typename C, typename D > int operator()( A && a, B && b, C && c, D && d ) const { ++lg->calls; SEE( a ) SEE( b ) SEE( c ) SEE( d ) ( lg->idx.push_back( I ), ... ); return lg->result(); } };
template<> struct ExTmpl< 6 > { ExLog * lg; template< int ... I, typename A, typename B, typename C, typename D, typename E, typename F > int operator()( A && a, B && b, C && c, D && d, E && e, F && f ) const { ++lg->calls; SEE( a ) SEE( b ) SEE( c ) SEE( d ) SEE( e ) SEE( f ) ( lg->idx.push_back( I ), ... ); return lg->result(); } };
void ex( char const * form, int N, std::vector< int > const & given, std::string const & cats, ExLog const & lg, int r, std::vector< int > const & after )
{
  Ev( "ex" ).f( "form", form ).f( "n", N ).f( "given", given ).raw( "cats", "[" + cats + "]" ).f( "calls", lg.calls ).f( "args", lg.args ).raw( "seen", "[" + lg.cats + "]" )
    .f( "idx", lg.idx ).f( "r", r ).f( "after", after ).f( "copies", lg.copies );
}
template< int N, template< int > class FN > void execs( char const * form )
{
  { ExLog lg; int const r = executeSequence< N >( FN< 0 >{ &lg } ); ex( form, N, {}, "", lg, r, {} ); }
  { ExLog lg; FN< 0 > const f{ &lg }; int const r = executeSequence< N >( f ); ex( form, N, {}, "", lg, r, {} ); }
  { ExLog lg; Arg a( 4 ); int const r = executeSequence< N >( FN< 1 >{ &lg }, a ); ex( form, N, { 4 }, "\"l\"", lg, r, { a.v } ); }
  { ExLog lg; Arg const a( 6 ); int const r = executeSequence< N >( FN< 1 >{ &lg }, a ); ex( form, N, { 6 }, "\"c\"", lg, r, { a.v } ); }
  { ExLog lg; int const r = executeSequence< N >( FN< 1 >{ &lg }, MoveOnly( 9 ) ); ex( form, N, { 9 }, "\"r\"", lg, r, { 9 } ); }
  { ExLog lg; Arg a( 3 ); Arg const b( 8 ); int const r = executeSequence< N >( FN< 2 >{ &lg }, a, b ); ex( form, N, { 3, 8 }, "\"l\",\"c\"", lg, r, { a.v, b.v } ); }
  { ExLog lg; Arg b( 5 ); int const r = executeSequence< N >( FN< 2 >{ &lg }, MoveOnly( 2 ), b ); ex( form, N, { 2, 5 }, "\"r\",\"l\"", lg, r, { 2, b.v } ); }
  { ExLog lg; Arg a( 3 ), b( 8 ); Arg const c( 5 ); int const r = executeSequence< N >( FN< 4 >{ &lg }, a, MoveOnly( 7 ), b, c ); ex( form, N, { 3, 7, 8, 5 }, "\"l\",\"r\",\"l\",\"c\"", lg, r, { a.v, 7, b.v, c.v } ); }
  { ExLog lg; Arg a( 1 ), b( 2 ), d( 4 ); Arg const c( 3 ); int const r = executeSequence< N >( FN< 6 >{ &lg }, a, b, c, d, MoveOnly( 5 ), a ); ex( form, N, { 1, 2, 3, 4, 5, 2 }, "\"l\",\"l\",\"c\",\"l\",\"r\",\"l\"", lg, r, { a.v - 1, b.v, c.v, d.v, 5, a.v } ); }
}
template< int N > struct CtSum { template< typename ... I > constexpr int operator()( int a, int b, std::integral_constant< int, 0 >, I ... i ) const { int s = 1000 * a + 1000 * b; int k = 1; s += ( k++ ) * 5; ( ( s += ( k++ ) * ( int( i ) + 5 ) ), ... ); return s; } };
struct CtSumT { template< int ... I > constexpr int operator()( int a, int b ) const { int s = 1000 * a + 1000 * b; int k = 1; ( ( s += ( k++ ) * ( I + 5 ) ), ... ); return s; } };
template< int N > void ctEx()
{
  constexpr int r = executeSequence< N >( CtSum< N >{}, 11, 13 );
  constexpr int t = executeSequence< N >( CtSumT{}, 11, 13 );
  Ev( "exct" ).f( "n", N ).f( "given", std::vector< int >{ 11, 13 } ).f( "r", r );
  Ev( "exct" ).f( "n", N ).f( "given", std::vector< int >{ 11, 13 } ).f( "r", t );
}
template< int ... S > struct Pack { static std::vector< int > v() { return { S ... }; } };
template< int ... P > void pack()
{
  std::vector< int > const p{ P ... };
  std::vector< int > got;
  vh::sfor< sizeof ... ( P ) >( [&] ( auto i ) { constexpr int v = IntPackPeeler< decltype(i)::value, P ... >::value(); got.push_back( v ); } );
  Ev( "pack" ).f( "p", p ).f( "got", got ).f( "alias", SequenceAlias< Pack, std::integer_sequence< int, P ... > >::type::v() );
}

int main( int argc, char ** argv )
{
  vh::open( argc, argv );
  vh::Rng g( vh::seed() + 5 );
  int const k = vh::thorough() ? 20 : 1;
  (void)k;
#if defined(PART_LI)
  Box< int, 1 >::li(); Box< int, 7 >::li(); Box< int, 2, 3 >::li(); Box< int, 3, 2 >::li(); Box< int, 5, 1, 4 >::li(); Box< int, 2, 3, 4 >::li(); Box< int, 4, 3, 2 >::li();
  Box< int, 1, 6 >::li(); Box< int, 6, 1 >::li(); Box< int, 2, 2, 2, 2 >::li(); Box< int, 2, 3, 1, 4 >::li(); Box< int, 3, 1, 2, 5 >::li(); Box< int, 2, 3, 2, 2, 3 >::li(); Box< int, 2, 1, 3, 2, 2, 2 >::li(); Box< int, 8, 9 >::li();
  Box< long, 2, 3, 4 >::li(); Box< unsigned, 4, 3 >::li(); Box< short, 3, 5, 2 >::li(); Box< long long, 3, 1, 4, 2 >::li(); Box< unsigned long, 5, 3 >::li(); Box< signed char, 4, 5, 3 >::li();
  Box< int, 7 >::liCt(); Box< int, 2, 3 >::liCt(); Box< int, 5, 1, 4 >::liCt(); Box< int, 2, 3, 4 >::liCt(); Box< int, 3, 1, 2, 5 >::liCt(); Box< int, 2, 3, 2, 2, 3 >::liCt(); Box< long, 4, 3, 2 >::liCt(); Box< unsigned, 2, 7 >::liCt();
  Box< int, 1000, 2000, 1000 >::liSome( g, 40 * k ); Box< int, 46340, 46340 >::liSome( g, 20 * k ); Box< int, 2147483647 >::liSome( g, 20 * k ); Box< long, 100000, 90000, 110000 >::liSome( g, 40 * k );
  Box< long long, 2000000000, 2000000000 >::liSome( g, 20 * k ); Box< unsigned, 60000, 70000 >::liSome( g, 20 * k ); Box< unsigned long, 2147483647, 2147483647, 3 >::liSome( g, 20 * k );
  Box< int, 17, 1, 31, 29, 37 >::liSome( g, 40 * k ); Box< short, 181, 181 >::liSome( g, 20 * k ); Box< int, 3, 5, 7, 11, 13, 2 >::liSome( g, 40 * k ); Box< int, 2, 3, 4, 5, 6, 7, 8 >::liSome( g, 40 * k ); Box< int, 3, 2, 3, 2, 3, 2, 3, 2, 3, 2 >::liSome( g, 40 * k ); Box< long, 9, 8, 7, 6, 5, 4, 3, 2, 9, 8, 7, 6 >::liSome( g, 40 * k );
  for( int q : { 0, 1, -5, 2147483647 } ) { LinearIndex< int > const a = q; Ev( "id" ).raw( "a", vh::bigint( q ) ).raw( "v", vh::bigint( linearIndex( a ) ) ); }
  for( long q : { 0L, 1L << 40, -( 1L << 50 ) } ) { LinearIndex< long > const a = q; Ev( "id" ).raw( "a", vh::bigint( q ) ).raw( "v", vh::bigint( linearIndex( a ) ) ); }
#endif
#if defined(PART_RANGE)
  int const cap = vh::thorough() ? 2000 : 40;
  Box< int, 1 >::loops( true, cap, g ); Box< int, 5 >::loops( true, cap, g ); Box< int, 2, 3 >::loops( true, cap, g ); Box< int, 3, 2 >::loops( true, cap, g ); Box< int, 4, 1 >::loops( true, cap, g ); Box< int, 1, 4 >::loops( true, cap, g );
  Box< int, 2, 3, 4 >::loops( true, cap, g ); Box< int, 4, 1, 2 >::loops( true, cap, g ); Box< int, 2, 2, 2 >::loops( false, cap, g ); Box< int, 2, 1, 3, 2 >::loops( true, cap, g ); Box< int, 2, 3, 1, 2, 2 >::loops( true, cap, g );
  Box< int, 0 >::loops( true, cap, g ); Box< int, 2, 0, 3 >::loops( true, cap, g ); Box< int, 0, 2 >::loops( true, cap, g );
  Box< long, 3, 2 >::loops( true, cap, g ); Box< unsigned, 2, 3 >::loops( false, cap, g ); Box< short, 2, 2, 3 >::loops( true, cap, g ); Box< unsigned long, 4 >::loops( false, cap, g );
  Box< int, 300 >::loops( false, 3, g ); Box< int, 70, 3 >::loops( false, 4, g ); Box< int, 2, 65 >::loops( false, 4, g ); Box< signed char, 126 >::loops( false, 4, g ); Box< unsigned char, 254 >::loops( false, 3, g ); Box< short, 3, 2, 41 >::loops( false, 4, g );
  Box< int, 2, 1, 2, 2, 1, 2, 2 >::loops( false, 12, g ); Box< int, 1, 2, 1, 2, 1, 2, 1, 3, 2 >::loops( false, 8, g );
  Box< int, 4 >::ct< 0 >(); Box< int, 4 >::ct< 2 >(); Box< int, 2, 3 >::ct< 0, 0 >(); Box< int, 2, 3 >::ct< 1, 1 >(); Box< int, 3, 2, 2 >::ct< 0, 0, 0 >(); Box< int, 3, 2, 2 >::ct< 1, 0, 1 >(); Box< int, 2, 0, 3 >::ct< 0, 0, 0 >(); Box< int, 2, 2, 3, 2 >::ct< 0, 1, 0, 1 >(); Box< long, 2, 3 >::ct< 0, 1 >();
#endif
#if defined(PART_PACK)
  pack< 4 >(); pack< 1, 2 >(); pack< 9, -3, 7, 7, 0, 2147483647, -2147483647 >(); pack< 5, 4, 3, 2, 1, 0, -1, -2, -3, -4, 10, 11 >(); pack< 0, 0, 1 >();
  execs< 1, ExArg >( "arg" ); execs< 2, ExArg >( "arg" ); execs< 5, ExArg >( "arg" ); execs< 9, ExArg >( "arg" );
  execs< 1, ExTmpl >( "tmpl" ); execs< 2, ExTmpl >( "tmpl" ); execs< 5, ExTmpl >( "tmpl" ); execs< 9, ExTmpl >( "tmpl" );
  ctEx< 1 >(); ctEx< 2 >(); ctEx< 5 >(); ctEx< 10 >(); execs< 33, ExArg >( "arg" ); execs< 40, ExTmpl >( "tmpl" ); execs< 65, ExArg >( "arg" ); ctEx< 65 >();
  { ExLog lg; int const r = executeSequence< 0 >( ExArg< 0 >{ &lg } ); ex( "arg", 0, {}, "", lg, r, {} ); }
#endif
#if defined(PART_SEQ)
  seqFor< 0 >(); seqFor< 1 >(); seqFor< 2 >(); seqFor< 3 >(); seqFor< 5 >(); seqFor< 8 >(); seqFor< 17 >(); seqFor< 40 >(); seqFor< 64 >(); seqFor< 65 >(); seqFor< 100 >(); seqFor< 129 >(); seqFor< 200 >();
  nested< 3 >(); nested< 2, 3 >(); nested< 3, 2 >(); nested< 4, 1 >(); nested< 1, 4 >(); nested< 2, 3, 4 >(); nested< 4, 2, 3 >(); nested< 3, 1, 2 >(); nested< 2, 2, 3, 2 >(); nested< 1, 3, 2, 1, 2 >(); nested< 2, 0, 3 >(); nested< 0, 2 >(); nested< 2, 0 >(); nested< 1, 1, 1 >(); nested< 2, 2, 2, 2, 2, 2 >(); nested< 40, 2 >(); nested< 2, 33 >(); nested< 17, 1, 3 >(); nested< 9, 9 >(); nested< 1, 2, 1, 2, 3 >(); nested< 2, 1, 1, 2, 1, 3 >(); nested< 1, 2, 1, 1, 2, 1, 2, 3 >();
#endif
  vh::close();
  return 0;
}
