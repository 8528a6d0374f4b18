// A program made from an aggregate of the library's headers (twice: it must also be a header like any other).
#include "shiva/ShivaConfig.hpp"
#include AGG
using namespace shiva;
int main()
{
  CArrayNd< double, 2, 3 > a{ 0.0, 1.0, 2.0, 3.0, 4.0, 5.0 };
  static_assert( geometry::NCube< double, 3, -1, 1, 2 >::numVertices() == 8 );
  using B = functions::LagrangeBasis< double, 2, GaussLobattoSpacing >;
  return B::value< 1 >( 0.0 ) > 0.5 && a( 1, 2 ) > 4.5 ? 0 : 1;
}
