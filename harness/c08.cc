#include "h2_common.hh"
#if PART==1
PROPERTY(hermite_1d, 2000) {
  auto grid=gen::grid<1,1,FuzzKind::simplex>(g,h2mesh<1>(6)); auto gv=grid->leafGridView(); g.nontrivial(gv.size(0)>1);
  auto b=BF::makeBasis(gv,BF::cubicHermite());
  checkEntities(g,b,{2,0}); checkH2(g,b,{3,true,true,true,true,false,false});
}
PROPERTY(hermite_2d, 2000) {
  auto grid=gen::grid<2,2,FuzzKind::simplex>(g,h2mesh<2>(5)); auto gv=grid->leafGridView(); g.nontrivial(gv.size(0)>1);
  auto b=BF::makeBasis(gv,BF::cubicHermite());
  checkEntities(g,b,{3,0,1}); checkH2(g,b,{3,true,false,true,true,false,false});
}
PROPERTY(hermite_2d_reduced, 2000) {
  auto grid=gen::grid<2,2,FuzzKind::simplex>(g,h2mesh<2>(5)); auto gv=grid->leafGridView(); g.nontrivial(gv.size(0)>1);
  auto b=BF::makeBasis(gv,BF::reducedCubicHermite());
  checkEntities(g,b,{3,0,0}); checkH2(g,b,{2,true,false,true,true,false,false});
}
#else
PROPERTY(hermite_3d, 150) {
  auto grid=gen::grid<3,3,FuzzKind::simplex>(g,h2mesh<3>(2)); auto gv=grid->leafGridView(); g.nontrivial(gv.size(0)>1);
  auto b=BF::makeBasis(gv,BF::cubicHermite());
  checkEntities(g,b,{4,0,1,0}); checkH2(g,b,{3,true,false,true,true,false,false});
}
#endif
#include "main.hh"
