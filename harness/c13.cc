// Discrete functions: blocked coefficients, other maps to the range, evaluation at global points
#include "trees2.hh"
#include <dune/grid/yaspgrid.hh>
#include <dune/grid/onedgrid.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>

// std::vector<FieldVector<double,m>> as coefficients of a scalar or vector valued basis with flat indices
template<int m, class R, class DR, class Basis>
void blocked(pbt::Gen& g, const Basis& b)
{
  constexpr int dim=Basis::GridView::dimension;
  std::vector<FieldVector<double,m>> c(b.size()); for (auto& x:c) for (auto& y:x) y=g.unit();
  auto f=Functions::makeDiscreteGlobalBasisFunction<R>(b,c); auto lf=localFunction(f);
  auto lv=b.localView();
  for (const auto& e:elements(b.gridView())) {
    lf.bind(e); lv.bind(e); auto x=gen::localPoint<dim>(g,e.type());
    std::vector<double> ref, dref; 
    for (int k=0;k<m;++k) {
      MapVec<double> ck; for (std::size_t i=0;i<c.size();++i) ck.m[{i}]=c[i][k];
      for (auto y:evalByHand(b,lv,ck,x)) ref.push_back(y);
      for (auto y:derivByHand(b,lv,ck,x)) dref.push_back(y);
    }
    compare(g,flat(lf(x)),ref,1e-9,"blocked coefficients");
    if constexpr (!std::is_void_v<DR>) compare(g,flat(derivative(lf)(x)),dref,1e-9,"derivative with blocked coefficients");
  }
}

// a user supplied map from tree nodes to components of the range
struct AllTrue { operator bool() const { return true; } template<class I> const AllTrue& operator[](const I&) const { return *this; } template<class S> void resize(const S&) const {} };
struct ReversedMap
{
  std::size_t n;
  template<class Node, class TP, class R> decltype(auto) operator()(const Node&, const TP& tp, R&& y) const { return y[n-1-tp[std::integral_constant<std::size_t,0>()]]; }
};

template<class Basis, class R, class GV>
void global(pbt::Gen& g, const Basis& b, const GV& gv, bool continuous)
{
  constexpr int dim=GV::dimension;
  auto x=randomCoefficients(g,b);
  auto f=Functions::makeDiscreteGlobalBasisFunction<R>(b,x); auto lv=b.localView();
  typename decltype(f)::Traits::DerivativeInterface df=derivative(f);
  auto lf=localFunction(f);
  for (const auto& e:elements(gv)) {
    lv.bind(e); lf.bind(e);
    auto p=gen::samplePoints<dim>(e.type(),g.range(1,3)).back();
    auto gp=e.geometry().global(p);
    compare(g,flat(f(gp)),evalByHand(b,lv,x,p),1e-8,"global evaluation");
    compare(g,flat(df(gp)),derivByHand(b,lv,x,p),1e-8,"global evaluation of the derivative");
    compare(g,flat(lf(p)),evalByHand(b,lv,x,p),1e-8,"local evaluation");
    auto d2=localFunction(df); d2.bind(e);
    compare(g,flat(d2(p)),derivByHand(b,lv,x,p),1e-8,"local function of type erased derivative");
    if (continuous) { auto q=gen::localPoint<dim>(g,e.type()); compare(g,flat(f(e.geometry().global(q))),evalByHand(b,lv,x,q),1e-7,"global evaluation at any point"); }
  }
}

#if PART==1
PROPERTY(blocked_lagrange, 1500) {
  auto grid=gen::grid<2,2,FuzzKind::mixed>(g,{}); auto gv=grid->leafGridView(); g.nontrivial(gv.size(0)>1);
  int k=g.range(1,3); g.describe("order "+std::to_string(k));
  auto b=BF::makeBasis(gv,BF::lagrange(k));
  blocked<3,FieldVector<double,3>,FieldMatrix<double,3,2>>(g,b);
  blocked<2,std::array<double,2>,void>(g,b);
}
PROPERTY(blocked_raviart, 1500) {
  gen::MeshOptions o; o.affine=true;
  auto grid=gen::grid<2,2,FuzzKind::mixed>(g,o); auto gv=grid->leafGridView(); g.nontrivial(gv.size(0)>1);
  auto b=BF::makeBasis(gv,BF::raviartThomas<0>());
  blocked<3,FieldMatrix<double,3,2>,void>(g,b);
  blocked<2,std::array<FieldVector<double,2>,2>,void>(g,b);
}
PROPERTY(range_map, 1500) {
  auto grid=gen::grid<2,2,FuzzKind::mixed>(g,{}); auto gv=grid->leafGridView(); g.nontrivial(gv.size(0)>1);
  auto b=BF::makeBasis(gv,BF::power<3>(BF::lagrange<2>(),BF::flatLexicographic()));
  auto x=randomCoefficients(g,b);
  using R=FieldVector<double,3>; using B=decltype(b);
  Functions::DiscreteGlobalBasisFunction<B,MapVec<double>,ReversedMap,R> f(b,x,ReversedMap{3});
  auto lf=localFunction(f); auto lv=b.localView();
  for (const auto& e:elements(gv)) {
    lf.bind(e); lv.bind(e); auto p=gen::localPoint<2>(g,e.type());
    auto ref=evalByHand(b,lv,x,p); std::reverse(ref.begin(),ref.end());
    compare(g,flat(lf(p)),ref,1e-9,"reversed range map");
    auto d=derivByHand(b,lv,x,p); std::vector<double> dr{d[4],d[5],d[2],d[3],d[0],d[1]};
    compare(g,flat(derivative(lf)(p)),dr,1e-9,"derivative with reversed range map");
  }
  // and for interpolation
  std::vector<double> c(7); for (auto& z:c) z=g.unit();
  auto fa=[c](const FieldVector<double,2>& x) { return smooth<R>(x,c); };
  auto far=[c](const FieldVector<double,2>& x) { auto r=smooth<R>(x,c); std::swap(r[0],r[2]); return r; };
  MapVec<double> a, d; Functions::interpolate(b,a,fa); Functions::interpolate(b,d,far,AllTrue(),ReversedMap{3});
  sameCoefficients(g,d,a,0,"interpolation with range map");
}
#elif PART==2
template<int dim> auto yasp(pbt::Gen& g)
{
  FieldVector<double,dim> up; std::array<int,dim> n; for (int d=0;d<dim;++d) { up[d]=0.5+g.unit01(); n[d]=g.range(1,dim==3?2:4); }
  auto grid=std::make_unique<YaspGrid<dim>>(up,n); if (g.coin()) grid->globalRefine(1);
  g.describe(std::to_string(dim)+"d structured grid, "+std::to_string(grid->leafGridView().size(0))+" elements"); g.nontrivial(grid->leafGridView().size(0)>1);
  return grid;
}
PROPERTY(global_yasp2, 600) {
  auto grid=yasp<2>(g); auto gv=grid->leafGridView(); int k=g.range(0,3);
  if (k>0) { auto b=BF::makeBasis(gv,BF::lagrange(k)); global<decltype(b),double>(g,b,gv,true); }
  auto b=BF::makeBasis(gv,BF::power<2>(BF::lagrangeDG(k),BF::blockedInterleaved())); global<decltype(b),FieldVector<double,2>>(g,b,gv,false);
}
PROPERTY(global_yasp_raviart, 600) {
  auto grid=yasp<2>(g); auto gv=grid->leafGridView();
  auto b=BF::makeBasis(gv,BF::raviartThomas<0>()); global<decltype(b),FieldVector<double,2>>(g,b,gv,false);
  // level views
  auto lv=grid->levelGridView(0); auto bl=BF::makeBasis(lv,BF::lagrange<2>());
  auto x=randomCoefficients(g,bl); auto f=Functions::makeDiscreteGlobalBasisFunction<double>(bl,x); auto l=bl.localView();
  for (const auto& e:elements(lv)) { l.bind(e); auto p=gen::samplePoints<2>(e.type(),1)[0]; compare(g,{f(e.geometry().global(p))},evalByHand(bl,l,x,p),1e-8,"global evaluation on a level"); }
}
PROPERTY(global_yasp3, 200) { auto grid=yasp<3>(g); auto gv=grid->leafGridView(); auto b=BF::makeBasis(gv,BF::lagrange(g.range(1,2))); global<decltype(b),double>(g,b,gv,true); }
PROPERTY(global_onedgrid, 800) {
  std::vector<double> c{0}; int n=g.range(1,6); for (int i=0;i<n;++i) c.push_back(c.back()+0.1+g.unit01());
  OneDGrid grid(c);
  // not refined: the leaf index set of OneDGrid claims to contain coarse elements, which misleads dune-grid's HierarchicSearch
  auto gv=grid.leafGridView(); g.describe("1d, "+std::to_string(gv.size(0))+" elements"); g.nontrivial(gv.size(0)>1);
  auto b=BF::makeBasis(gv,BF::lagrange(g.range(1,4))); global<decltype(b),double>(g,b,gv,true);
}
PROPERTY(global_bspline, 400) {
  auto grid=yasp<2>(g); auto gv=grid->leafGridView(); int k=g.range(1,3);
  std::vector<double> knots;   // kept alive
  FieldVector<double,2> lo(0), up; std::array<unsigned,2> n; 
  auto b=BF::makeBasis(gv,[&](const auto& gv) { typename std::decay_t<decltype(gv)>::Grid const& G=gv.grid(); auto e=grid->domainSize(); auto s=grid->levelSize(grid->maxLevel()); n={unsigned(s[0]),unsigned(s[1])};
    return Functions::BSplinePreBasis<std::decay_t<decltype(gv)>>(gv,lo,e,n,k,true); });
  global<decltype(b),double>(g,b,gv,true);
}
#endif
#include "main.hh"
