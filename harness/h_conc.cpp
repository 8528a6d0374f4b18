// Evaluations in any order and by several threads at once.   h_conc OUT SCRIPTS REPEATS
// A script is [threads, [[thread, operation, input], ...]] (module ConcGen); the operations are those of h_cfg.cpp and,
// for PART 5, evaluations on objects that all threads share (constant) or that a thread keeps and changes.
#define VH_COLLECT
#include "h_cfg.cpp"
#include "script.hpp"
#include <atomic>
#include <algorithm>
#include <map>
#include <memory>
#include <thread>
using vh::Ev;

#if PART == 5
namespace sharedObjects
{
using Cell = LinearTransform< double, InterpolatedShape< double, Cube< double >, E< double, 1 >, L< double, 2 >, E< double, 1 > > >;
using CellF = LinearTransform< float, InterpolatedShape< float, Cube< float >, E< float, 1 >, E< float, 1 >, E< float, 1 > > >;
using PE = ParentElement< double, Cube< double >, L< double, 3 >, E< double, 1 >, E< double, 2 > >;
struct World
{
  CArrayNd< int, 3, 4, 5 > ints{};
  Cell cell{}; CellF cellF{};
  Scaling< double > scal{}; UniformScaling< float > unif{};
  CArrayNd< double, 4, 2, 3 > field{};
  double buf[24];
  World()
  {
    for( int q = 0; q < 60; ++q ) ints.data()[q] = 7 * q + 1;
    double x[12][3]; for( int q = 0; q < 12; ++q ) for( int d = 0; d < 3; ++d ) x[q][d] = ( q * 5 + d * 3 ) % 7 + ( d == 0 ? 3 * ( q % 2 ) : d == 1 ? 4 * ( q / 2 % 3 ) : 5 * ( q / 6 ) );
    cell.setData( x );
    float y[8][3]; for( int q = 0; q < 8; ++q ) for( int d = 0; d < 3; ++d ) y[q][d] = float( q >> d & 1 ) * float( 2 + d ) + float( q * d % 3 ) / 8;
    cellF.setData( y );
    double h[3] = { 2, 3, 5 }; scal.setData( h ); unif.setData( 3.5f );
    for( int q = 0; q < 24; ++q ) { field.data()[q] = q * q % 11 - 3; buf[q] = q * 1.25; }
  }
};
inline World const & world() { static World const w; return w; }
inline void add( std::string & s, double v ) { s.append( reinterpret_cast< char const * >( &v ), sizeof v ); }
template< typename J > void addJ( std::string & s, J const & j, int n ) { for( int q = 0; q < n; ++q ) add( s, double( j.data()[q] ) ); }
inline In< double > in( int k ) { return launder( mixedInput< double >( k ) ); }

std::string constCell( int k )
{
  World const & w = world(); auto const x = in( k ); std::string s;
  typename Cell::JacobianType J{ 3.0 }; double det = -1;
  jacobian( w.cell, x.c, J ); addJ( s, J, 9 );
  inverseJacobian( w.cell, x.c, J, det ); addJ( s, J, 9 ); add( s, det );
  addJ( s, w.cell.getData(), 36 );
  return s;
}
std::string constCellF( int k )
{
  World const & w = world(); auto const x = in( k ); std::string s;
  float const p[3] = { float( x.c[0] ), float( x.c[1] ), float( x.c[2] ) };
  addJ( s, jacobian( w.cellF, p ), 9 ); auto const t = inverseJacobian( w.cellF, p ); addJ( s, std::get< 1 >( t ), 9 ); add( s, std::get< 0 >( t ) );
  typename CellF::JacobianType J{ 1.0f }; jacobian< QuadratureGaussLegendre< float, 3 >, 0, 2, 1 >( w.cellF, J ); addJ( s, J, 9 );
  return s;
}
std::string constScal( int k )
{
  World const & w = world(); std::string s; typename Scaling< double >::JacobianType J{ 4.0 }; double det = k; typename UniformScaling< float >::JacobianType K{ 2.0f }; float d = 3;
  jacobian( w.scal, J ); addJ( s, J, 3 ); inverseJacobian( w.scal, J, det ); addJ( s, J, 3 ); add( s, det );
  jacobian( w.unif, K ); addJ( s, K, 1 ); inverseJacobian( w.unif, K, d ); addJ( s, K, 1 ); add( s, d );
  return s;
}
std::string constField( int k )
{
  World const & w = world(); auto const x = in( k ); std::string s;
  add( s, PE::value( x.c, w.field ) ); auto const g = PE::gradient( x.c, w.field ); addJ( s, g, 3 );
  CArrayViewNd< double const, 4, 2, 3 > const v( w.buf );
  add( s, PE::value( x.c, v ) ); addJ( s, PE::gradient( x.c, v ), 3 );
  return s;
}
std::string constArray( int k )
{
  World const & w = world(); std::string s; vh::Rng r( 1 + k );
  for( int q = 0; q < 12; ++q ) { int const a = r.below( 3 ), b = r.below( 4 ), c = r.below( 5 ); add( s, w.ints( a, b, c ) ); add( s, w.ints[a][b][c] ); auto && t = w.ints[a]; add( s, t( b, c ) ); add( s, t[b][c] ); }
  add( s, w.ints.operator()< 2, 3, 4 >() );
  return s;
}
// objects a thread keeps: what they held before must not matter once they are set
struct Mine { Cell cell{}, other{}; Scaling< double > scal{}; UniformScaling< double > unif{}; CArrayNd< double, 2, 3, 4 > arr{}; CArrayNd< double, 4, 2, 3 > field{}; typename Cell::JacobianType J{}; double det = 0, buf[24]; };
inline Mine & mine() { thread_local std::unique_ptr< Mine > m = std::make_unique< Mine >(); return *m; }
std::string ownCell( int k )
{
  Mine & m = mine(); auto const x = in( k ); std::string s;
  double p[12][3]; for( int q = 0; q < 12; ++q ) for( int d = 0; d < 3; ++d ) p[q][d] = x.d[( q + 5 * d ) % 24] + ( d == 0 ? 3 * ( q % 2 ) : d == 1 ? 4 * ( q / 2 % 3 ) : 5 * ( q / 6 ) );
  m.cell.setData( p ); m.cell.getData()( 1, 2, 0, 1 ) = x.h[0]; m.other = m.cell; m.other.getData()( 0, 0, 0, 0 ) += 1;
  jacobian( m.cell, x.c, m.J ); addJ( s, m.J, 9 ); inverseJacobian( m.other, x.c, m.J, m.det ); addJ( s, m.J, 9 ); add( s, m.det );
  jacobian< QuadratureGaussLobatto< double, 3 >, 2, 1, 0 >( m.other, m.J ); addJ( s, m.J, 9 ); addJ( s, m.cell.getData(), 36 );
  return s;
}
std::string ownScal( int k )
{
  Mine & m = mine(); auto const x = in( k ); std::string s; double const h[3] = { x.h[0], x.h[1], x.h[2] };
  m.scal.setData( h ); m.unif.setData() = x.h[1];
  typename Scaling< double >::JacobianType J{ 4.0 }; inverseJacobian( m.scal, J, m.det ); addJ( s, J, 3 ); add( s, m.det ); addJ( s, jacobian( m.scal ), 3 ); addJ( s, jacobian( m.unif ), 1 ); add( s, std::get< 0 >( inverseJacobian( m.unif ) ) );
  m.scal.setData()[1] += x.c[1]; inverseJacobian( m.scal, J, m.det ); addJ( s, J, 3 ); add( s, m.det ); m.unif.setData() += 1; add( s, std::get< 0 >( inverseJacobian( m.unif ) ) );
  return s;
}
std::string ownArray( int k )
{
  Mine & m = mine(); auto const x = in( k ); std::string s; CArrayViewNd< double, 6, 4 > v( m.buf );
  for( int a = 0; a < 2; ++a ) for( int b = 0; b < 3; ++b ) for( int c = 0; c < 4; ++c ) { m.arr( a, b, c ) = x.d[12 * a + 4 * b + c]; v[a * 3 + b][c] = m.arr[a][b][c] + 1; }
  auto && t = m.arr[k % 2]; t( 1, 2 ) = 55; t[2][0] = 66; auto const copy = m.arr; m.arr( 0, 0, 0 ) = -1;
  addJ( s, copy, 24 ); addJ( s, m.arr, 24 ); for( double b : m.buf ) add( s, b );
  return s;
}
std::string ownField( int k )
{
  Mine & m = mine(); auto const x = in( k ); std::string s;
  for( int q = 0; q < 24; ++q ) m.field.data()[q] = x.d[q];
  add( s, PE::value( x.c, m.field ) ); m.field( k % 4, 1, 2 ) += 2; add( s, PE::value( x.c, m.field ) ); addJ( s, PE::gradient( x.c, m.field ), 3 );
  return s;
}
std::string kernels( int k )
{
  Mine & m = mine(); auto const x = in( k ); std::string s; long calls = 0, z = 0; int n = 3 + k; std::vector< long > v( std::size_t( n ), k + 1 );
  pmpl::genericKernelWrapper( [&] { ++calls; z = z * 3 + k; } );
  pmpl::genericKernelWrapper( n, v.data(), [&] ( long * p ) { calls += 100; for( int q = 0; q < n; ++q ) p[q] = p[q] * 2 + q; } );
  pmpl::genericKernelWrapper( 24, m.buf, [&] ( double * p ) { calls += p == m.buf; for( int q = 0; q < 24; ++q ) p[q] = x.d[q] * 3; }, false );
  add( s, double( calls ) ); add( s, double( z ) ); for( long q : v ) add( s, double( q ) ); for( double q : m.buf ) add( s, q );
  add( s, pmpl::check( x.c[0], x.c[1], 0.5 ) );
  return s;
}
std::string loops( int k )
{
  std::string s; int n = 0; int volatile z = k;
  MultiIndexRange< int, 3, 2, 4 > i{}; i.data[0] = z % 3; i.data[2] = z % 4;
  forRange( i, [&] ( auto const & j ) { ++n; if( n < 40 ) add( s, linearIndex( j ) ); } );
  forSequence< 5 >( [&] ( auto a ) { add( s, decltype( a )::value + z ); } );
  SHIVA_ASSERT_MSG( ++n > z - 1000, "never %d", n );
  add( s, n ); add( s, GaussLobattoSpacing< double, 5 >::coordinate( z % 5 ) ); add( s, QuadratureGaussLobatto< double, 4 >::weight( z % 4 ) ); add( s, EqualSpacing< float, 4 >::coordinate( z % 4 ) ); add( s, mathUtilities::pow< double, 5 >( 1.1 + z ) );
  return s;
}
}
void part()
{
  using namespace sharedObjects;
  world();
  auto & v = items();
  v.push_back( { "shared cell", constCell } ); v.push_back( { "shared cell f", constCellF } ); v.push_back( { "shared scalings", constScal } ); v.push_back( { "shared field", constField } ); v.push_back( { "shared array", constArray } );
  v.push_back( { "own cell", ownCell } ); v.push_back( { "own scalings", ownScal } ); v.push_back( { "own array", ownArray } ); v.push_back( { "own field", ownField } ); v.push_back( { "kernels", kernels } ); v.push_back( { "loops", loops } );
}
#endif

constexpr int INPUTS = 16;
struct Outcomes        // the distinct outcomes of one evaluation; the first is the one it has alone
{
  std::vector< std::string > seen;
  int id( std::string const & s ) { for( std::size_t q = 0; q < seen.size(); ++q ) if( seen[q] == s ) return int( q ); seen.push_back( s ); return int( seen.size() ) - 1; }
};
struct Step { int th, item, in; };
struct Done { unsigned long begin, end; int th, item, in; std::string out; };

static std::string alone( Item const & it, int in )
{
  int p[2]; if( pipe( p ) != 0 ) std::exit( 3 );
  pid_t const c = fork();
  if( c < 0 ) std::exit( 3 );
  if( c == 0 ) { close( p[0] ); std::string const s = it.eval( in ); std::size_t o = 0; while( o < s.size() ) { ssize_t const k = write( p[1], s.data() + o, s.size() - o ); if( k <= 0 ) _exit( 5 ); o += std::size_t( k ); } _exit( 0 ); }
  close( p[1] );
  std::string s; char b[4096]; ssize_t k;
  while( ( k = read( p[0], b, sizeof b ) ) > 0 ) s.append( b, std::size_t( k ) );
  close( p[0] );
  int st = 0; waitpid( c, &st, 0 );
  if( !WIFEXITED( st ) || WEXITSTATUS( st ) != 0 ) s += "ended " + std::to_string( st );
  return s;
}
static void record( char const * how, std::vector< Item > const & its, int threads, std::vector< std::vector< Outcomes > > & tab, std::vector< Done > const & done, bool always )
{
  struct At { unsigned long t; bool end; Done const * d; };
  std::vector< At > ev;
  bool odd = always;
  std::map< Done const *, int > ids;
  for( auto const & d : done ) { int const id = tab[std::size_t( d.item )][std::size_t( d.in )].id( d.out ); ids[&d] = id; odd = odd || id != 0; ev.push_back( { d.begin, false, &d } ); ev.push_back( { d.end, true, &d } ); }
  if( !odd ) return;
  std::sort( ev.begin(), ev.end(), [] ( At const & a, At const & b ) { return a.t < b.t; } );
  std::string ops;
  for( auto const & e : ev )
    ops += ( ops.empty() ? "" : "," ) + ( e.end ? "{\"o\":\"end\",\"t\":" + std::to_string( e.d->th ) + ",\"out\":" + std::to_string( ids[e.d] ) + "}"
           : "{\"o\":\"begin\",\"t\":" + std::to_string( e.d->th ) + ",\"f\":" + vh::quote( its[std::size_t( e.d->item )].name ) + ",\"x\":" + std::to_string( e.d->in ) + "}" );
  Ev( "conc" ).f( "how", how ).f( "threads", threads ).raw( "ops", "[" + ops + "]" );
}
int main( int argc, char ** argv )
{
  vh::open( argc, argv );
  int const reps = argc > 3 ? std::atoi( argv[3] ) : 10;
  part();
  auto const & its = items();
  int const n = int( its.size() );
  std::vector< std::vector< Outcomes > > tab{ static_cast< std::size_t >( n ), std::vector< Outcomes >( INPUTS ) };
  for( int i = 0; i < n; ++i ) for( int k = 0; k < INPUTS; ++k ) tab[std::size_t( i )][std::size_t( k )].id( alone( its[std::size_t( i )], k ) );
  long evals = 0; int unusual = 0;
  for( auto const & s : vh::scripts( argv[2] ) )
  {
    int const T = s[0].i();
    std::vector< Step > steps;
    for( auto const & o : s[1].k ) steps.push_back( { o[0].i() % T, o[1].i() % n, o[2].i() % INPUTS } );
    // one after another, in the script's order
    {
      std::vector< Done > done; unsigned long t = 0;
      for( auto const & q : steps ) { Done d{ t, 0, q.th, q.item, q.in, its[std::size_t( q.item )].eval( q.in ) }; d.end = t + 1; t += 2; done.push_back( d ); ++evals; }
      record( "sequence", its, T, tab, done, true );
    }
    // every thread its own steps, all at once
    for( int r = 0; r < reps && T > 1 && unusual < 20; ++r )
    {
      std::atomic< unsigned long > clock{ 0 }; std::atomic< int > ready{ 0 };
      std::vector< std::vector< Done > > per( static_cast< std::size_t >( T ) );
      std::vector< std::thread > ts;
      for( int t = 0; t < T; ++t ) ts.emplace_back( [&, t]
      {
        ready.fetch_add( 1 ); while( ready.load() < T ) std::this_thread::yield();
        auto & mineDone = per[std::size_t( t )];
        for( int lap = 0; lap < ( r == 0 ? 3 : 30 ); ++lap )
          for( auto const & q : steps ) if( q.th == t )
          { Done d{ clock.fetch_add( 1 ), 0, t, q.item, q.in, its[std::size_t( q.item )].eval( q.in ) }; d.end = clock.fetch_add( 1 ); mineDone.push_back( std::move( d ) ); }
      } );
      for( auto & th : ts ) th.join();
      std::vector< Done > done;
      for( auto & v : per ) for( auto & d : v ) done.push_back( std::move( d ) );
      evals += long( done.size() );
      std::size_t before = 0, after = 0;
      for( auto const & v : tab ) for( auto const & o : v ) before += o.seen.size();
      record( "threads", its, T, tab, done, r == 0 );
      for( auto const & v : tab ) for( auto const & o : v ) after += o.seen.size();
      unusual += after != before;
    }
  }
  Ev( "conc" ).f( "how", "total" ).f( "threads", 0 ).f( "evaluations", evals ).f( "operations", n ).raw( "ops", "[]" );
  vh::close();
  return 0;
}
