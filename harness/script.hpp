// Reading behaviours generated by TLC: one JSON array of (nested) integers per line.
#pragma once
#include <fstream>
#include <string>
#include <vector>
#include <cstdlib>
namespace vh
{
struct Node
{
  long long v = 0;
  std::vector< Node > k;
  Node const & operator[]( std::size_t i ) const { return k.at( i ); }
  std::size_t size() const { return k.size(); }
  int i() const { return int( v ); }
};
inline Node parse( char const * & p )
{
  Node n;
  if( *p == '[' )
  {
    ++p;
    while( *p && *p != ']' ) { n.k.push_back( parse( p ) ); if( *p == ',' ) ++p; }
    if( *p ) ++p;
  }
  else { char * e; n.v = std::strtoll( p, &e, 10 ); if( e == p ) std::exit( 4 ); p = e; }
  return n;
}
inline std::vector< Node > scripts( char const * file )
{
  std::vector< Node > r;
  std::ifstream f( file );
  std::string l;
  while( std::getline( f, l ) ) if( !l.empty() ) { char const * p = l.c_str(); r.push_back( parse( p ) ); }
  return r;
}
}
