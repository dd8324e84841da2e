// C01-C03 for bases that the generated trees do not contain: Taylor-Hood, B-splines, and bases that wrap others.
#define TREE_SIMPLEX 1
#if CHECK==3
#define WITH_CONTAINERS 1
#endif
#include "trees_common.hh"
#include <dune/grid/yaspgrid.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/functionspacebases/periodicbasis.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>
#include <dune/functions/common/subdomain.hh>
namespace X=Dune::Functions::BasisFactory::Experimental;
namespace E=Dune::Functions::Experimental;
namespace D=Dune::Functions::ContainerDescriptors;

// the multi-indices as the basis itself gives them out
template<class B> Model asIs(const B& b)
{
  Model m; auto gv=b.gridView(); auto lv=b.localView(); MultipleCodimMultipleGeomTypeMapper mapper(gv,mcmgElementLayout());
  m.index.resize(gv.size(0)); m.leafSizes.resize(gv.size(0));
  for (const auto& e:elements(gv)) { lv.bind(e); for (std::size_t i=0;i<lv.size();++i) m.index[mapper.index(e)].push_back(mi(lv.index(i))); }
  return m;
}
template<class B> void all(pbt::Gen& g, const B& b, bool unique=true)
{
  g.nontrivial(b.gridView().size(0)>1);
#if CHECK==1
  checkIndexTree(g,b,unique); if (g.chance(1,4)) { auto c=b; checkIndexTree(g,c,unique); }
#elif CHECK==3
  checkContainers(g,b,b.containerDescriptor(),asIs(b));
#endif
}
// --- Taylor-Hood
template<bool hybrid> auto th() { return [](const auto& gv) { return Functions::TaylorHoodPreBasis<std::decay_t<decltype(gv)>,hybrid>(gv); }; }
template<bool hybrid, class GV> Model thModel(const GV& gv)
{ return mComposite({mPower(mLeaf(gv,BF::lagrange<2>()),GV::dimension,hybrid?mBI:mFI),mLeaf(gv,BF::lagrange<1>())},mBL); }
template<class F, class GV, class M> void taylorHood(pbt::Gen& g, const GV& gv, const F& f, const M& m)
{
  auto b=BF::makeBasis(gv,f);
#if CHECK==2
  g.nontrivial(gv.size(0)>1); checkNumbering(g,b,m());
#else
  all(g,b);
#endif
}
template<int dim, FuzzKind kind, bool hybrid> void runTH(pbt::Gen& g)
{
  gen::MeshOptions o; o.maxCells=dim==3?2:4; o.prisms=o.pyramids=true; auto grid=gen::grid<dim,dim,kind>(g,o); auto gv=grid->leafGridView();
  auto m=[&] { return thModel<hybrid>(gv); }; auto l=[&] { return mLeaf(gv,BF::lagrange<1>()); };
  switch (g.below(6)) {
    case 0: case 1: taylorHood(g,gv,th<hybrid>(),m); g.label("plain"); break;
    case 2: if constexpr (!hybrid) taylorHood(g,gv,BF::taylorHood(),m); else taylorHood(g,gv,th<true>(),m); g.label("plain"); break;
    case 3: taylorHood(g,gv,BF::power<2>(th<hybrid>(),BF::blockedLexicographic()),[&] { return mPower(m(),2,mBL); }); g.label("blocked power"); break;
    case 4: taylorHood(g,gv,BF::composite(th<hybrid>(),BF::lagrange<1>(),BF::blockedLexicographic()),[&] { return mComposite({m(),l()},mBL); }); g.label("blocked composite"); break;
    default: if constexpr (CHECK!=3) taylorHood(g,gv,BF::power<2>(th<hybrid>(),BF::flatLexicographic()),[&] { return mPower(m(),2,mFL); }); else taylorHood(g,gv,BF::power(th<hybrid>(),2,BF::blockedLexicographic()),[&] { return mPower(m(),2,mBL); }); g.label("other power"); break;
  }
}
PROPERTY(th_flat_1d, 150*4) { runTH<1,FuzzKind::simplex,false>(g); }
PROPERTY(th_hybrid_1d, 150*4) { runTH<1,FuzzKind::simplex,true>(g); }
PROPERTY(th_flat_2d, 300*4) { runTH<2,FuzzKind::mixed,false>(g); }
PROPERTY(th_hybrid_2d, 300*4) { runTH<2,FuzzKind::mixed,true>(g); }
PROPERTY(th_flat_3d, 100*4) { runTH<3,FuzzKind::mixed,false>(g); }
PROPERTY(th_hybrid_3d, 100*4) { runTH<3,FuzzKind::mixed,true>(g); }
#if CHECK!=2
// --- B-splines
template<int dim> void splines(pbt::Gen& g)
{
  std::array<int,dim> n; n.fill(g.range(1,dim==1?6:3)); FieldVector<double,dim> up(1.0); YaspGrid<dim> grid(up,n); auto gv=grid.leafGridView();
  unsigned p=g.range(0,dim==3?2:4); bool open=dim==3?true:!g.chance(1,4); std::vector<double> knots; for (int i=0;i<=n[0];++i) knots.push_back(double(i)/n[0]);
  if (!open && unsigned(n[0])<=p) open=true;
  g.describe("order "+std::to_string(p)+(open?"":", not open")); if (!open) p=0;
  switch (g.below(3)) {
    case 0: all(g,BF::makeBasis(gv,BF::bSpline(knots,p,open))); break;
    case 1: all(g,BF::makeBasis(gv,BF::power<2>(BF::bSpline(knots,p,open),BF::flatInterleaved()))); break;
    default: all(g,BF::makeBasis(gv,BF::composite(BF::bSpline(knots,p,open),BF::lagrange<1>(),BF::blockedLexicographic())));
  }
}
PROPERTY(splines_1d, 300*4) { splines<1>(g); }
PROPERTY(splines_2d, 300*4) { splines<2>(g); }
PROPERTY(splines_3d, 60*4) { splines<3>(g); }
// --- identified DOFs
template<class F> void periodic(pbt::Gen& g, const F& f)
{
  gen::MeshOptions o; o.maxCells=4; auto grid=gen::grid<2,2,FuzzKind::mixed>(g,o); auto gv=grid->leafGridView(); std::size_t n=BF::makeBasis(gv,f).dimension();
  X::PeriodicIndexSet s; for (int k=g.range(0,5);k-->0;) { auto a=g.below(n), b=g.below(n); s.unifyIndexPair(a,b); g.describe(std::to_string(a)+"="+std::to_string(b)); }
  switch (g.below(3)) {
    case 0: all(g,BF::makeBasis(gv,X::periodic(f,s)),false); break;
    case 1: all(g,BF::makeBasis(gv,BF::power<2>(X::periodic(f,s),BF::blockedInterleaved())),false); break;
    default: all(g,BF::makeBasis(gv,BF::composite(X::periodic(f,s),BF::lagrange<1>(),BF::flatLexicographic())),false);
  }
}
PROPERTY(periodic_lagrange, 200*4) { periodic(g,BF::lagrange(g.range(1,3))); }
PROPERTY(periodic_power, 200*4) { periodic(g,BF::power<2>(BF::lagrange<1>(),BF::flatInterleaved())); }
// --- own transformations
auto reversed() { return X::indexTransformation([](auto& m, const auto& raw) { m[0]=raw.dimension()-1-m[0]; },[](const auto& p, const auto& raw) -> std::size_t { return p.size()==0?raw.dimension():0; },
  [](const auto& raw) { return D::FlatVector(raw.dimension()); },Dune::index_constant<1>{},Dune::index_constant<1>{}); }
PROPERTY(transformed, 200*4)
{
  gen::MeshOptions o; o.maxCells=4; auto grid=gen::grid<2,2,FuzzKind::mixed>(g,o); auto gv=grid->leafGridView();
  auto t=X::transformIndices(BF::composite(BF::lagrange<2>(),BF::power<2>(BF::lagrange<1>(),BF::flatInterleaved()),BF::flatLexicographic()),reversed());
  switch (g.below(3)) {
    case 0: all(g,BF::makeBasis(gv,t)); break;
    case 1: all(g,BF::makeBasis(gv,BF::power<2>(t,BF::blockedInterleaved()))); break;
    default: all(g,BF::makeBasis(gv,BF::composite(t,BF::lagrange<1>(),BF::blockedLexicographic())));
  }
}
// --- sub-domains
template<int dim, FuzzKind kind, class F> void restricted(pbt::Gen& g, const F& f)
{
  gen::MeshOptions o; o.maxCells=dim==3?2:4; auto grid=gen::grid<dim,dim,kind>(g,o); auto gv=grid->leafGridView(); using GV=decltype(gv);
  E::SubDomain<GV> a(gv), b(gv); std::string s; for (auto* d:{&a,&b}) { bool any=false; for (const auto& e:elements(gv)) { bool in=!any || g.coin(); any=true; if (in) d->insertElement(e); s+=in?'1':'0'; } s+=' '; } g.describe(s);
  switch (g.below(3)) {
    case 0: all(g,BF::makeBasis(gv,E::BasisFactory::restrict(f,a))); break;
    case 1: all(g,BF::makeBasis(gv,BF::power<2>(E::BasisFactory::restrict(f,a),BF::blockedInterleaved()))); break;
    default: all(g,BF::makeBasis(gv,BF::composite(E::BasisFactory::restrict(f,a),BF::lagrange<1>(),E::BasisFactory::restrict(BF::lagrangeDG<1>(),b),BF::blockedLexicographic())));
  }
}
PROPERTY(restricted_mixed, 300*4) { restricted<2,FuzzKind::mixed>(g,BF::lagrange(g.range(1,3))); }
PROPERTY(restricted_triangles, 300*4) { restricted<2,FuzzKind::simplex>(g,BF::composite(BF::raviartThomas<0>(),BF::power<2>(BF::lagrange<2>(),BF::flatInterleaved()),BF::flatLexicographic())); }
PROPERTY(restricted_3d, 100*4) { restricted<3,FuzzKind::mixed>(g,BF::lagrange<2>()); }
#endif
#include "main.hh"
