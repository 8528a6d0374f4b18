// A device on the host: the part of the CUDA and HIP run-time interface that kernel wrappers use.
// Device memory is inaccessible to the host except to the copies and while a kernel runs; kernels run when something waits for them.
// Launches are written  kernel <<< grid, block >>> ( args )  in the sources; the check rewrites that to  VH_LAUNCH( kernel, grid, block )( args ).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/mman.h>

#define __global__
#define __host__
#define __device__
#define __forceinline__ inline
#define __noinline__
#define __shared__ static
#define __constant__ static
#define __managed__
#define __launch_bounds__( ... )
#define VH_LAUNCH( f, ... ) vhdev::launcher( [=] ( auto && ... vh_a ) { f( std::forward< decltype( vh_a ) >( vh_a ) ... ); }, __VA_ARGS__ )

namespace vhdev
{
struct Block { char * base; std::size_t pages; char * p; std::size_t bytes; bool live, managed; };
struct Device
{
  std::vector< Block > blocks;
  std::vector< std::function< void() > > pending;
  std::string calls;
  int fault = 0, last = 0;
  bool running = false;
};
inline Device & dev() { static Device d; return d; }
inline void note( char const * c, int id, std::size_t off, std::size_t bytes, int rc )
{
  auto & s = dev().calls;
  s += std::string( s.empty() ? "" : "," ) + "{\"c\":\"" + c + "\",\"id\":" + std::to_string( id ) + ",\"off\":" + std::to_string( off ) + ",\"bytes\":" + std::to_string( bytes ) + ",\"rc\":" + std::to_string( rc ) + "}";
}
inline void open( bool on ) { for( auto & b : dev().blocks ) if( b.live && !b.managed ) mprotect( b.base, b.pages, on ? PROT_READ | PROT_WRITE : PROT_NONE ); }
// 0: not device memory; else the number of the allocation
inline int where( void const * q, std::size_t & off )
{
  auto const * p = static_cast< char const * >( q );
  for( std::size_t k = 0; k < dev().blocks.size(); ++k ) { auto const & b = dev().blocks[k]; if( p >= b.base && p < b.base + b.pages ) { off = std::size_t( p - b.p ); return int( k ) + 1; } }
  off = 0;
  return 0;
}
inline int alloc( void ** q, std::size_t bytes, bool managed )
{
  if( bytes == 0 ) { *q = nullptr; note( managed ? "managed" : "malloc", 0, 0, 0, 0 ); return 0; }
  std::size_t const page = 4096, pages = ( bytes + page - 1 + 16 ) / page * page + page;
  auto * base = static_cast< char * >( mmap( nullptr, pages, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ) );
  if( base == MAP_FAILED ) std::exit( 3 );
  std::memset( base, 0x5b, pages );
  // (the end of the memory meets a page that nobody may touch)
  char * const p = base + ( pages - page ) - ( bytes + 15 ) / 16 * 16;
  mprotect( base + pages - page, page, PROT_NONE );
  dev().blocks.push_back( { base, pages - page, p, bytes, true, managed } );
  *q = p;
  if( !managed ) open( false );
  note( managed ? "managed" : "malloc", int( dev().blocks.size() ), 0, bytes, 0 );
  return 0;
}
inline int wait()
{
  auto todo = std::move( dev().pending );
  dev().pending.clear();
  int rc = 0;
  for( auto & f : todo )
  {
    if( dev().fault ) { rc = dev().fault; dev().fault = 0; continue; }       // the kernel is lost
    open( true ); dev().running = true;
    f();
    dev().running = false; open( false );
  }
  if( rc ) dev().last = rc;
  return rc;
}
inline int sync() { int const rc = wait(); note( "sync", 0, 0, 0, rc ); return rc; }
// kind: 0 host to host, 1 host to device, 2 device to host, 3 device to device, 4 found out
inline int copy( void * to, void const * from, std::size_t bytes, int kind )
{
  int const rc = wait();
  std::size_t o1, o2;
  int const a = where( to, o1 ), b = where( from, o2 );
  int const found = ( a ? 1 : 0 ) + ( b ? 2 : 0 );
  static char const * const names[] = { "h2h", "h2d", "d2h", "d2d" };
  bool const wrong = bytes && kind != 4 && kind != found;
  if( !wrong && bytes ) { open( true ); std::memcpy( to, from, bytes ); open( false ); }
  note( wrong ? "wrong kind" : names[bytes || kind == 4 ? found : kind], found == 2 ? b : a, found == 2 ? o2 : o1, bytes, wrong ? 21 : rc );
  if( wrong ) dev().last = 21;
  return wrong ? 21 : rc;
}
inline int release( void * p )
{
  int const rc = wait();
  if( !p ) { note( "free", 0, 0, 0, rc ); return rc; }
  std::size_t off;
  int const k = where( p, off );
  bool const good = k && off == 0 && dev().blocks[std::size_t( k - 1 )].live;
  note( good ? "free" : "wrong free", k, off, 0, good ? rc : 17 );
  if( !good ) return dev().last = 17;
  auto & b = dev().blocks[std::size_t( k - 1 )];
  b.live = false;
  mprotect( b.base, b.pages, PROT_NONE );
  return rc;
}
inline int fill( void * p, int v, std::size_t bytes )
{ wait(); std::size_t off; int const k = where( p, off ); open( true ); std::memset( p, v, bytes ); open( false ); note( "memset", k, off, bytes, 0 ); return 0; }
inline int lastError( bool clear ) { int const r = dev().last; if( clear ) dev().last = 0; return r; }
inline char const * text( int e ) { return e == 0 ? "no error" : e == 700 ? "an illegal memory access was encountered" : e == 702 ? "the launch timed out and was terminated" : e == 719 ? "unspecified launch failure" : "invalid argument"; }
inline void leaveNothing()
{
  dev().pending.clear();
  for( auto & b : dev().blocks ) if( b.live ) { b.live = false; mprotect( b.base, b.pages, PROT_NONE ); }
  dev().calls.clear(); dev().last = 0; dev().fault = 0;
}
struct Dim { unsigned x = 1, y = 1, z = 1; Dim( unsigned a = 1, unsigned b = 1, unsigned c = 1 ): x( a ), y( b ), z( c ) {} };
template< typename F > struct Launcher
{
  F f;
  unsigned long n;
  template< typename ... A > void operator()( A && ... a ) const
  {
    // arguments of a kernel are copied (or moved) at the launch
    auto args = std::make_shared< std::tuple< std::decay_t< A > ... > >( std::forward< A >( a ) ... );
    F const g = f;
    unsigned long const times = n;
    dev().pending.push_back( [g, args, times] { for( unsigned long k = 0; k < times; ++k ) std::apply( [&g] ( auto & ... x ) { g( std::move( x ) ... ); }, *args ); } );
    note( "launch", 0, 0, 0, 0 );
  }
};
template< typename F > Launcher< F > launcher( F f, Dim g = {}, Dim b = {}, std::size_t = 0, void * = nullptr ) { return { f, 1ul * g.x * g.y * g.z * b.x * b.y * b.z }; }
}

inline vhdev::Dim const threadIdx{ 0, 0, 0 }, blockIdx{ 0, 0, 0 }, blockDim{}, gridDim{};
inline void __syncthreads() {}
inline void __threadfence() {}
#define VH_DEVICE_API( P, K ) \
  using P ## Error_t = int; using P ## Stream_t = void *; using dim3 = vhdev::Dim; \
  constexpr int P ## Success = 0; \
  enum K { P ## MemcpyHostToHost, P ## MemcpyHostToDevice, P ## MemcpyDeviceToHost, P ## MemcpyDeviceToDevice, P ## MemcpyDefault }; \
  template< typename T > int P ## Malloc( T ** p, std::size_t n ) { return vhdev::alloc( reinterpret_cast< void ** >( p ), n, false ); } \
  template< typename T > int P ## MallocManaged( T ** p, std::size_t n, unsigned = 1 ) { return vhdev::alloc( reinterpret_cast< void ** >( p ), n, true ); } \
  template< typename T > int P ## MallocAsync( T ** p, std::size_t n, P ## Stream_t ) { return vhdev::alloc( reinterpret_cast< void ** >( p ), n, false ); } \
  inline int P ## Free( void * p ) { return vhdev::release( p ); } \
  inline int P ## FreeAsync( void * p, P ## Stream_t ) { return vhdev::release( p ); } \
  inline int P ## Memcpy( void * a, void const * b, std::size_t n, K k ) { return vhdev::copy( a, b, n, int( k ) ); } \
  inline int P ## MemcpyAsync( void * a, void const * b, std::size_t n, K k, P ## Stream_t = nullptr ) { return vhdev::copy( a, b, n, int( k ) ); } \
  inline int P ## Memset( void * a, int v, std::size_t n ) { return vhdev::fill( a, v, n ); } \
  inline int P ## DeviceSynchronize() { return vhdev::sync(); } \
  inline int P ## StreamSynchronize( P ## Stream_t ) { return vhdev::sync(); } \
  inline int P ## GetLastError() { return vhdev::lastError( true ); } \
  inline int P ## PeekAtLastError() { return vhdev::lastError( false ); } \
  inline char const * P ## GetErrorString( int e ) { return vhdev::text( e ); } \
  inline char const * P ## GetErrorName( int e ) { return vhdev::text( e ); }
