#include "h2_common.hh"
#if PART==1
PROPERTY(morley, 3000) {
  auto grid=gen::grid<2,2,FuzzKind::simplex>(g,h2mesh<2>(6)); auto gv=grid->leafGridView(); g.nontrivial(gv.size(0)>1);
  auto b=BF::makeBasis(gv,BF::morley());
  checkEntities(g,b,{1,1,0}); checkH2(g,b,{2,false,false,true,false,false,true});
}
#else
PROPERTY(argyris, 800) {
  auto grid=gen::grid<2,2,FuzzKind::simplex>(g,h2mesh<2>(5)); auto gv=grid->leafGridView(); g.nontrivial(gv.size(0)>1);
  auto b=BF::makeBasis(gv,BF::argyris());
  checkEntities(g,b,{6,1,0}); checkH2(g,b,{5,true,true,true,true,true,true});
}
#endif
#include "main.hh"
