// Updates on real grids that are refined and coarsened, and of bases that wrap others.
#define TREE_SIMPLEX 1
#include "samebasis.hh"
#include <dune/grid/yaspgrid.hh>
#include <dune/grid/onedgrid.hh>
#if HAVE_ALBERTA
#include <dune/grid/albertagrid.hh>
#include <dune/grid/common/gridfactory.hh>
#endif
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>
#include <dune/functions/common/subdomain.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>

// adapt(): changes the grid somehow
template<class Grid, class F, class A, class V>
void history(pbt::Gen& g, Grid& grid, const F& f, A&& adapt, V&& view)
{
  auto b=BF::makeBasis(view(),f);
  int steps=g.range(1,4); g.label("steps "+std::to_string(steps));
  for (int s=0;s<steps;++s) {
    for (int k=g.range(0,2);k-->0;) { adapt(); g.nontrivial(); }
    auto gv=view(); b.update(gv);
    auto fresh=BF::makeBasis(gv,f);
    sameBasis(g,b,fresh,"after update "+std::to_string(s));
    if (g.chance(1,4)) { auto c=b; b=c; sameBasis(g,b,fresh,"copy after update"); }
    if (g.chance(1,4)) { auto c=b; b.update(gv); sameBasis(g,b,c,"second update"); }
  }
}
template<class Grid> void randomAdapt(pbt::Gen& g, Grid& grid, std::size_t limit, std::ostringstream& log)
{
  int r=0,c=0; bool refine=std::size_t(grid.size(0))<limit && !g.chance(1,3);
  for (const auto& e:elements(grid.leafGridView())) if (g.coin()) { if (refine) { grid.mark(1,e); ++r; } else if (e.level()>0) { grid.mark(-1,e); ++c; } }
  grid.preAdapt(); grid.adapt(); grid.postAdapt();
  log << (refine?" refine ":" coarsen ") << (refine?r:c);
}
#if PART==1
template<class F> void oned(pbt::Gen& g, const F& f)
{
  OneDGrid grid(g.range(1,4),0.0,1.0); std::ostringstream log;
  history(g,grid,f,[&] { if (g.chance(1,6)) grid.globalRefine(1); else randomAdapt(g,grid,12,log); },[&] { return grid.leafGridView(); });
  g.describe("OneDGrid"+log.str());
}
PROPERTY(oned_lagrange, 1500) { oned(g,BF::lagrange(g.range(1,4))); }
PROPERTY(oned_dg, 1000) { oned(g,BF::composite(BF::lagrangeDG(g.range(0,3)),BF::lagrange<0>(),BF::lagrange<2>())); }
PROPERTY(oned_hermite, 1500) { oned(g,BF::power<2>(BF::cubicHermite(),BF::blockedInterleaved())); }
PROPERTY(oned_refined, 1000) { oned(g,BF::refinedLagrange<1>()); }
PROPERTY(oned_taylorhood, 1000) { oned(g,BF::taylorHood()); }
PROPERTY(oned_hierarchical, 1000) { oned(g,BF::power(BF::hierarchicalLagrange<2>(),2,BF::flatInterleaved())); }
template<int dim, class F> void yasp(pbt::Gen& g, const F& f, bool levels)
{
  std::array<int,dim> n; for (auto& k:n) k=g.range(1,dim==3?1:2);
  FieldVector<double,dim> up; for (auto& z:up) z=0.5+g.unit01();
  YaspGrid<dim> grid(up,n); std::ostringstream log; log << "YaspGrid";
  if (levels) {
    grid.globalRefine(dim==3?1:2);
    history(g,grid,f,[&] {},[&] { int l=g.range(0,grid.maxLevel()); log << " level " << l; return grid.levelGridView(l); }); g.nontrivial();
  }
  else history(g,grid,f,[&] { if (grid.maxLevel()<(dim==3?1:2)) { grid.globalRefine(1); log << " refine"; } },[&] { return grid.leafGridView(); });
  g.describe(log.str());
}
auto many() { return BF::composite(BF::power<2>(BF::lagrange<2>(),BF::flatInterleaved()),BF::lagrangeDG<1>(),BF::power(BF::lagrange<1>(),3,BF::blockedLexicographic()),BF::blockedLexicographic()); }
PROPERTY(yasp_many, 300) { yasp<2>(g,many(),false); }
PROPERTY(yasp_many_levels, 300) { yasp<2>(g,many(),true); }
PROPERTY(yasp_rt, 300) { yasp<2>(g,BF::composite(BF::raviartThomas<1>(),BF::rannacherTurek(),BF::nedelec<1,1,double>(),BF::brezziDouglasMarini<1>(),BF::flatLexicographic()),g.coin()); }
PROPERTY(yasp_3d, 60) { yasp<3>(g,BF::composite(BF::raviartThomas<0>(),BF::rannacherTurek(),BF::nedelec<1,1,double>(),BF::lagrange<2>(),BF::flatLexicographic()),g.coin()); }
PROPERTY(yasp_taylorhood, 200) { yasp<2>(g,BF::taylorHood(),g.coin()); }
#elif PART==2
template<class F> void alberta(pbt::Gen& g, const F& f)
{
  using Grid=AlbertaGrid<2,2>; GridFactory<Grid> gf;
  // a square of two or four triangles with a random inner point
  bool four=g.coin(); FieldVector<double,2> c{0.3+0.4*g.unit01(),0.3+0.4*g.unit01()};
  gf.insertVertex({0,0}); gf.insertVertex({1,0}); gf.insertVertex({1,1}); gf.insertVertex({0,1});
  GeometryType t=GeometryTypes::simplex(2);
  if (four) { gf.insertVertex(c); for (unsigned i=0;i<4;++i) gf.insertElement(t,std::vector<unsigned>{i,(i+1)%4,4}); }
  else { gf.insertElement(t,std::vector<unsigned>{0,1,2}); gf.insertElement(t,std::vector<unsigned>{0,2,3}); }
  auto grid=gf.createGrid(); std::ostringstream log; log << "AlbertaGrid with " << (four?4:2) << " triangles";
  history(g,*grid,f,[&] { randomAdapt(g,*grid,14,log); },[&] { return grid->leafGridView(); });
  g.describe(log.str());
}
PROPERTY(alberta_lagrange, 400) { alberta(g,BF::composite(BF::lagrange(g.range(1,4)),BF::lagrangeDG<2>(),BF::power<2>(BF::lagrange<1>(),BF::flatLexicographic()))); }
PROPERTY(alberta_vector, 400) { alberta(g,BF::composite(BF::raviartThomas<0>(),BF::raviartThomas<1>(),BF::brezziDouglasMarini<1>(),BF::nedelec<1,1,double>(),BF::flatLexicographic())); }
PROPERTY(alberta_morley, 400) { alberta(g,BF::power<2>(BF::morley(),BF::blockedInterleaved())); }
PROPERTY(alberta_hermite, 400) { alberta(g,BF::composite(BF::cubicHermite(),BF::reducedCubicHermite())); }
PROPERTY(alberta_argyris, 200) { alberta(g,BF::argyris()); }
PROPERTY(alberta_others, 400) { alberta(g,BF::composite(BF::hierarchicalP2B(),BF::rannacherTurek(),BF::refinedLagrange<1>(),BF::hierarchicalP1B())); }
PROPERTY(alberta_taylorhood, 300) { alberta(g,BF::taylorHood()); }
#else
namespace X=Dune::Functions::BasisFactory::Experimental;
// bases that wrap other bases
template<int dim, FuzzKind kind, class F> void wrapped(pbt::Gen& g, const F& f)
{
  gen::MeshOptions o; o.maxCells=4; auto grid=gen::grid<dim,dim,kind>(g,o);
  history(g,*grid,f,[&] { grid->setMesh(gen::mesh<dim,dim>(g,kind,o)); },[&] { return grid->leafGridView(); });
}
// the flat index i becomes dimension-1-i, whatever the grid
auto reversed() { return X::indexTransformation([](auto& m, const auto& raw) { m[0]=raw.dimension()-1-m[0]; },[](const auto& p, const auto& raw) -> std::size_t { return p.size()==0?raw.dimension():0; },
  [](const auto& raw) { return CDS::FlatVector(raw.dimension()); },Dune::index_constant<1>{},Dune::index_constant<1>{}); }
PROPERTY(transformed, 800) { wrapped<2,FuzzKind::mixed>(g,X::transformIndices(BF::lagrange(g.range(1,2)),reversed())); }
PROPERTY(transformed_power, 800) { wrapped<2,FuzzKind::simplex>(g,BF::power<2>(X::transformIndices(BF::composite(BF::lagrange<2>(),BF::lagrange<1>(),BF::flatLexicographic()),reversed()),BF::flatInterleaved())); }
// the sub-domain is rebuilt for the new grid
template<int dim, FuzzKind kind, class F> void restricted(pbt::Gen& g, const F& f)
{
  gen::MeshOptions o; o.maxCells=4; auto grid=gen::grid<dim,dim,kind>(g,o); auto gv=grid->leafGridView(); using GV=decltype(gv);
  namespace E=Dune::Functions::Experimental;
  E::SubDomain<GV> sub(gv); auto fill=[&] { for (const auto& e:elements(grid->leafGridView())) if (g.chance(2,3)) sub.insertElement(e); };
  fill();
  auto rf=BF::composite(E::BasisFactory::restrict(f,sub),BF::lagrange<1>(),BF::blockedLexicographic());
  auto b=BF::makeBasis(gv,rf);
  for (int s=g.range(1,3);s-->0;) {
    if (g.chance(2,3)) { grid->setMesh(gen::mesh<dim,dim>(g,kind,o)); gv=grid->leafGridView(); sub=E::SubDomain<GV>(gv); g.nontrivial(); }
    fill(); b.update(gv);
    auto fresh=BF::makeBasis(gv,rf); auto x=b.localView(), y=fresh.localView();
    PBT_CHECK(g, b.dimension()==fresh.dimension() && b.size()==fresh.size(), "dimension of an updated restricted basis");
    for (const auto& e:elements(gv)) { x.bind(e); y.bind(e); PBT_CHECK(g, x.size()==y.size(), "local size of an updated restricted basis"); for (std::size_t i=0;i<x.size();++i) PBT_CHECK(g, mi(x.index(i))==mi(y.index(i)), "index of an updated restricted basis"); }
  }
}
PROPERTY(restricted_lagrange, 800) { restricted<2,FuzzKind::mixed>(g,BF::lagrange<2>()); }
PROPERTY(restricted_vector, 800) { restricted<2,FuzzKind::simplex>(g,BF::composite(BF::raviartThomas<0>(),BF::lagrangeDG<1>(),BF::flatLexicographic())); }
// indices of a user's pre-basis exist only after initializeIndices(), which everything that wraps one has to pass on
template<class GV> class LazyPreBasis : public Functions::LeafPreBasisMixin<LazyPreBasis<GV>>
{
  using P=Functions::LagrangePreBasis<GV,2>; P p_; bool ready_=false;
  void need() const { if (!ready_) throw std::logic_error("indices are used before initializeIndices()"); }
public:
  using GridView=GV; using size_type=std::size_t; using Node=typename P::Node;
  LazyPreBasis(const GV& gv) : p_(gv) {}
  void initializeIndices() { p_.initializeIndices(); ready_=true; }
  const GridView& gridView() const { return p_.gridView(); }
  void update(const GridView& gv) { p_.update(gv); ready_=false; }
  Node makeNode() const { return p_.makeNode(); }
  size_type dimension() const { need(); return p_.dimension(); }
  size_type maxNodeSize() const { need(); return p_.maxNodeSize(); }
  template<class It> It indices(const Node& n, It it) const { need(); return p_.indices(n,it); }
};
auto lazy() { return [](const auto& gv) { return LazyPreBasis<std::decay_t<decltype(gv)>>(gv); }; }
auto eager() { return BF::lagrange<2>(); }
template<class W> void lazily(pbt::Gen& g, const W& wrap)
{
  gen::MeshOptions o; o.maxCells=4; auto grid=gen::grid<2,2,FuzzKind::mixed>(g,o);
  auto b=BF::makeBasis(grid->leafGridView(),wrap(lazy()));
  sameBasis(g,b,BF::makeBasis(grid->leafGridView(),wrap(eager())),"new basis of a user's pre-basis");
  for (int s=g.range(1,3);s-->0;) {
    grid->setMesh(gen::mesh<2,2>(g,FuzzKind::mixed,o)); g.nontrivial(); auto gv=grid->leafGridView(); b.update(gv);
    auto fresh=BF::makeBasis(gv,wrap(eager())); sameBasis(g,b,fresh,"user's pre-basis after an update");
    if (g.chance(1,3)) { auto c=b; b=c; sameBasis(g,b,fresh,"copy of a basis of a user's pre-basis"); }
    if (g.chance(1,3)) { Functions::DefaultGlobalBasis c(b.preBasis()); sameBasis(g,c,fresh,"basis made from a pre-basis"); }
  }
}
PROPERTY(lazy_plain, 150) { lazily(g,[](auto f) { return f; }); }
PROPERTY(lazy_power, 150) { lazily(g,[](auto f) { return BF::power<2>(f,BF::blockedInterleaved()); }); }
PROPERTY(lazy_dynamic_power, 150) { int n=g.range(1,3); lazily(g,[n](auto f) { return BF::power(f,n,BF::flatLexicographic()); }); }
PROPERTY(lazy_composite, 150) { lazily(g,[](auto f) { return BF::composite(BF::lagrange<1>(),f,BF::power<2>(f,BF::flatInterleaved()),BF::blockedLexicographic()); }); }
PROPERTY(lazy_transformed, 150) { lazily(g,[](auto f) { return X::transformIndices(f,reversed()); }); }
PROPERTY(lazy_nested, 150) { lazily(g,[](auto f) { return BF::composite(BF::power<2>(X::transformIndices(BF::composite(f,BF::lagrange<1>(),BF::flatLexicographic()),reversed()),BF::flatLexicographic()),f,BF::flatLexicographic()); }); }
PROPERTY(lazy_restricted, 300)
{
  namespace E=Dune::Functions::Experimental;
  gen::MeshOptions o; o.maxCells=4; auto grid=gen::grid<2,2,FuzzKind::mixed>(g,o); auto gv=grid->leafGridView(); using GV=decltype(gv);
  E::SubDomain<GV> sub(gv); auto fill=[&] { for (const auto& e:elements(grid->leafGridView())) if (g.chance(2,3)) sub.insertElement(e); }; fill();
  auto b=BF::makeBasis(gv,E::BasisFactory::restrict(lazy(),sub));
  for (int s=g.range(0,3);;) {
    auto fresh=BF::makeBasis(gv,E::BasisFactory::restrict(eager(),sub)); auto x=b.localView(); auto y=fresh.localView();
    PBT_CHECK(g, b.dimension()==fresh.dimension() && b.size()==fresh.size(), "dimension of a restricted basis");
    for (const auto& e:elements(gv)) { x.bind(e); y.bind(e); PBT_CHECK(g, x.size()==y.size(), "local size of a restricted basis"); for (std::size_t i=0;i<x.size();++i) PBT_CHECK(g, mi(x.index(i))==mi(y.index(i)), "index of a restricted basis"); }
    if (s--<=0) break;
    grid->setMesh(gen::mesh<2,2>(g,FuzzKind::mixed,o)); gv=grid->leafGridView(); sub=E::SubDomain<GV>(gv); g.nontrivial(); fill(); b.update(gv);
  }
}
// a subspace basis refers to the root basis and follows its updates
PROPERTY(subspace, 600)
{
  gen::MeshOptions o; o.maxCells=4; auto grid=gen::grid<2,2,FuzzKind::mixed>(g,o); auto f=BF::composite(BF::power<2>(BF::lagrange<2>(),BF::blockedInterleaved()),BF::lagrange<1>(),BF::blockedLexicographic());
  auto b=BF::makeBasis(grid->leafGridView(),f); auto sb=Functions::subspaceBasis(b,Indices::_0,std::size_t(1));
  for (int s=g.range(1,3);s-->0;) {
    grid->setMesh(gen::mesh<2,2>(g,FuzzKind::mixed,o)); g.nontrivial(); auto gv=grid->leafGridView(); b.update(gv);
    auto fresh=BF::makeBasis(gv,f); auto sf=Functions::subspaceBasis(fresh,Indices::_0,std::size_t(1)); auto x=sb.localView(), y=sf.localView();
    PBT_CHECK(g, sb.dimension()==sf.dimension() && &sb.gridView().indexSet()==&gv.indexSet() && sb.gridView().size(2)==gv.size(2), "subspace basis after an update of its root basis");
    for (const auto& e:elements(gv)) { x.bind(e); y.bind(e); PBT_CHECK(g, x.tree().size()==y.tree().size(), "size of the subtree"); for (std::size_t i=0;i<x.tree().size();++i) PBT_CHECK(g, mi(x.index(x.tree().localIndex(i)))==mi(y.index(y.tree().localIndex(i))), "subspace index after update"); }
  }
}
#endif
#include "main.hh"
