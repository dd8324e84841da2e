#include "samebasis.hh"
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/grid/yaspgrid.hh>
template<bool hybrid> auto taylorHoodFactory() { return [](const auto& gv) { return Functions::TaylorHoodPreBasis<std::decay_t<decltype(gv)>,hybrid>(gv); }; }
template<int dim, bool hybrid> auto composition() {
  if constexpr (hybrid) return BF::composite(BF::power<dim>(BF::lagrange<2>(),BF::blockedInterleaved()),BF::lagrange<1>(),BF::blockedLexicographic());
  else return BF::composite(BF::power<dim>(BF::lagrange<2>(),BF::flatInterleaved()),BF::lagrange<1>(),BF::blockedLexicographic());
}
template<bool hybrid, class TH, class GV> void compare(pbt::Gen& g, const TH& b, const GV& gv, const std::string& what)
{
  auto ref=BF::makeBasis(gv,composition<GV::dimension,hybrid>());
  sameBasis(g,b,ref,what);
  checkIndexTree(g,b);
}
template<int dim, FuzzKind kind, bool hybrid> void run(pbt::Gen& g)
{
  gen::MeshOptions o; o.maxCells=dim==3?2:4; o.prisms=o.pyramids=true;
  std::vector<std::unique_ptr<FuzzGrid<dim,dim,kind>>> grids; grids.push_back(gen::grid<dim,dim,kind>(g,o));
  if (g.coin()) grids.push_back(gen::grid<dim,dim,kind>(g,o));
  auto gv=grids[0]->leafGridView(); g.nontrivial(gv.size(0)>1);
  auto b=BF::makeBasis(gv,taylorHoodFactory<hybrid>());
  if constexpr (!hybrid) { if (g.coin()) { auto c=BF::makeBasis(gv,BF::taylorHood()); compare<hybrid>(g,c,gv,"taylorHood()"); } }
  compare<hybrid>(g,b,gv,"new");
  int steps=g.range(0,3); g.label("updates "+std::to_string(steps));
  for (int s=0;s<steps;++s) {
    int changes=g.range(0,2);
    for (int c=0;c<changes;++c) grids[g.below(grids.size())]->setMesh(gen::mesh<dim,dim>(g,kind,o));
    gv=grids[g.below(grids.size())]->leafGridView(); b.update(gv);
    compare<hybrid>(g,b,gv,"after update "+std::to_string(s));
    if (g.chance(1,4)) { auto c=b; b=c; compare<hybrid>(g,b,gv,"copy"); }
  }
}
#if PART==1
PROPERTY(flat_1d, 1500) { run<1,FuzzKind::simplex,false>(g); }
PROPERTY(hybrid_1d, 1500) { run<1,FuzzKind::simplex,true>(g); }
PROPERTY(flat_2d, 1000) { run<2,FuzzKind::mixed,false>(g); }
PROPERTY(hybrid_2d, 1000) { run<2,FuzzKind::mixed,true>(g); }
PROPERTY(flat_triangles, 600) { run<2,FuzzKind::simplex,false>(g); }
PROPERTY(hybrid_triangles, 600) { run<2,FuzzKind::simplex,true>(g); }
#else
PROPERTY(flat_3d, 300) { run<3,FuzzKind::mixed,false>(g); }
PROPERTY(hybrid_3d, 300) { run<3,FuzzKind::mixed,true>(g); }
PROPERTY(flat_cubes, 300) { run<3,FuzzKind::cube,false>(g); }
PROPERTY(hybrid_tetrahedra, 300) { run<3,FuzzKind::simplex,true>(g); }
#endif
#include "main.hh"
