// A stand-in for the part of CAMP's interface the library uses.
#pragma once
#include <tuple>
#include <utility>
namespace camp
{
template< typename ... T > using tuple = std::tuple< T ... >;
using std::get;
template< typename ... T > constexpr auto make_tuple( T && ... t ) { return std::make_tuple( std::forward< T >( t ) ... ); }
}
