#include "c04_common.hh"
template<int dim,FuzzKind kind> void statics(pbt::Gen& g)
{
  gen::MeshOptions o; o.maxCells=dim==3?2:6;
  int k=g.range(0,4);
  if (dim==3 && k>2) o.prisms=o.pyramids=false;
  auto grid=gen::grid<dim,dim,kind>(g,o);
  auto gv=grid->leafGridView();
  g.label("order "+std::to_string(k)); g.describe("compile-time order "+std::to_string(k)); g.nontrivial(gv.size(0)>1);
  switch (k) {
    case 0: return compareStatic<0>(g,gv);
    case 1: return compareStatic<1>(g,gv);
    case 2: return compareStatic<2>(g,gv);
    case 3: return compareStatic<3>(g,gv);
    default: return compareStatic<4>(g,gv);
  }
}
#if PART==1
PROPERTY(static_1d, 200) { statics<1,FuzzKind::mixed>(g); }
PROPERTY(static_2d_mixed, 300) { statics<2,FuzzKind::mixed>(g); }
#elif PART==2
PROPERTY(static_2d_simplex, 200) { statics<2,FuzzKind::simplex>(g); }
PROPERTY(static_2d_cube, 200) { statics<2,FuzzKind::cube>(g); }
#elif PART==3
PROPERTY(static_3d_cube, 100) { statics<3,FuzzKind::cube>(g); }
#elif PART==4
PROPERTY(static_3d_simplex, 100) { statics<3,FuzzKind::simplex>(g); }
#endif
#include "main.hh"
