// Compiles whenever the compiler and the DUNE core modules are in order:
// uses nothing of dune-functions.
#include <config.h>
#include <array>
#include <dune/common/fvector.hh>
#include <dune/istl/bvector.hh>
#include <dune/grid/yaspgrid.hh>
#include <dune/localfunctions/lagrange.hh>
int main() { Dune::YaspGrid<2> grid({1.,1.},{2,2}); return grid.size(0)!=4; }
