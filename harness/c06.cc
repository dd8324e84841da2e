#include "vec_common.hh"
// orders above the lowest: the facet functions depend on the direction of the facet parametrisation,
// the elements support consistently oriented 2d meshes and 3d meshes with aligned local coordinates
inline gen::MeshOptions oriented(unsigned n=6) { gen::MeshOptions o; o.positive=true; o.maxCells=n; return o; }
#if PART==1
PROPERTY(rt0_2d_simplex, 3000) { rt<0,2,FuzzKind::simplex>(g,{}); }
PROPERTY(rt0_2d_cube, 3000) { rt<0,2,FuzzKind::cube>(g,{}); }
PROPERTY(rt0_2d_mixed, 3000) { rt<0,2,FuzzKind::mixed>(g,{}); }
#elif PART==2
PROPERTY(rt0_3d_simplex, 500) { gen::MeshOptions o; o.maxCells=3; rt<0,3,FuzzKind::simplex>(g,o); }
PROPERTY(rt0_3d_cube, 1500) { gen::MeshOptions o; o.maxCells=6; rt<0,3,FuzzKind::cube>(g,o); }
PROPERTY(rt0_3d_mixed, 1000) { gen::MeshOptions o; o.maxCells=4; rt<0,3,FuzzKind::mixed>(g,o); }
PROPERTY(rt0_3d_prisms, 1000) { gen::MeshOptions o; o.maxCells=4; o.pyramids=false; rt<0,3,FuzzKind::mixed>(g,o); }
#elif PART==3
PROPERTY(rt1_2d_simplex, 3000) { rt<1,2,FuzzKind::simplex>(g,oriented()); }
PROPERTY(rt1_2d_cube, 3000) { rt<1,2,FuzzKind::cube>(g,oriented()); }
PROPERTY(rt2_2d_cube, 3000) { rt<2,2,FuzzKind::cube>(g,oriented()); }
PROPERTY(rt1_3d_cube, 1000) { gen::MeshOptions o; o.maxCells=6; o.identity=true; rt<1,3,FuzzKind::cube>(g,o); }
#elif PART==4
PROPERTY(bdm1_2d_simplex, 3000) { bdm<1,2,FuzzKind::simplex>(g,oriented()); }
PROPERTY(bdm1_2d_cube, 3000) { bdm<1,2,FuzzKind::cube>(g,oriented()); }
PROPERTY(bdm2_2d_simplex, 3000) { bdm<2,2,FuzzKind::simplex>(g,oriented()); }
PROPERTY(bdm2_2d_cube, 3000) { bdm<2,2,FuzzKind::cube>(g,oriented()); }
#elif PART==5
// on single-type grids higher orders must also share DOFs correctly whatever the local orientation
PROPERTY(sharing_any_orientation, 1500) {
  gen::MeshOptions o; o.affine=true;
  int which=g.below(6);
  auto go=[&](auto gridTag, auto factory) {
    auto gv=gridTag->leafGridView(); g.nontrivial(gv.size(0)>1);
    auto b=BF::makeBasis(gv,factory);
    checkSharing(g,b); checkDerivative(g,b);
  };
  if (which==0) go(gen::grid<2,2,FuzzKind::simplex>(g,o),BF::raviartThomas<1>());
  if (which==1) go(gen::grid<2,2,FuzzKind::cube>(g,o),BF::raviartThomas<1>());
  if (which==2) go(gen::grid<2,2,FuzzKind::cube>(g,o),BF::raviartThomas<2>());
  if (which==3) go(gen::grid<2,2,FuzzKind::simplex>(g,o),BF::brezziDouglasMarini<2>());
  if (which==4) go(gen::grid<2,2,FuzzKind::cube>(g,o),BF::brezziDouglasMarini<2>());
  if (which==5) { o.maxCells=4; go(gen::grid<3,3,FuzzKind::cube>(g,o),BF::raviartThomas<1>()); }
}
#endif
#include "main.hh"
