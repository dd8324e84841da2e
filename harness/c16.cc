// Histories of local views and local functions against a model that only knows source and element of each object.
#define TREE_SIMPLEX 1
#include "samebasis.hh"
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
#include <dune/functions/common/subdomain.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/gridfunctions/coarsefunctiononfinegridview.hh>
#include <dune/functions/gridfunctions/finefunctiononcoarsegridview.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/grid/yaspgrid.hh>
namespace FX=Dune::Functions::Experimental;

struct Hist { std::ostringstream s; };

// es[src]: elements of source src; make(src): a new object; check(obj,src,el): object bound to element el of source src
template<class Obj, class Es, class Make, class Check>
void history(pbt::Gen& g, const Es& es, Make&& make, Check&& check, bool crossSource=true)
{
  struct Slot { std::unique_ptr<Obj> o; std::size_t src=0; std::optional<std::size_t> el; bool movedFrom=false; };
  constexpr bool assignable=std::is_copy_assignable_v<Obj>, moveAssignable=std::is_move_assignable_v<Obj>;
  std::vector<Slot> slots(4); std::ostringstream log;
  auto fin=[&] { g.describe(log.str()); };
  auto pick=[&](bool live) -> int { std::vector<int> c; for (int i=0;i<4;++i) if (bool(slots[i].o)==live && (!live || !slots[i].movedFrom)) c.push_back(i); return c.empty()?-1:c[g.below(c.size())]; };
  auto verify=[&](int i) {
    auto& s=slots[i]; if (!s.o || s.movedFrom) return;
    PBT_CHECK(g, s.o->bound()==s.el.has_value(), log.str(), ": object ", i, " bound()=", s.o->bound());
    check(*s.o,s.src,s.el,log.str()+": object "+std::to_string(i));
  };
  int n=g.range(4,24), sharing=0;
  for (int k=0;k<n;++k) {
    int op=g.below(11);
    if (pick(true)<0) op=0;
    switch (op) {
      case 0: { int i=g.below(4); slots[i]={}; slots[i].src=g.below(es.size()); slots[i].o=std::make_unique<Obj>(make(slots[i].src)); log << " new" << i << "(" << slots[i].src << ")"; break; }
      case 1: case 2: case 3: { int i=pick(true); auto& s=slots[i]; std::size_t e=g.below(es[s.src].size()); log << " bind" << i << "(" << e << ")";
        auto tmp=std::make_unique<std::decay_t<decltype(es[0][0])>>(es[s.src][e]); s.o->bind(*tmp); tmp.reset(); s.el=e; break; }
      case 4: { int i=pick(true); log << " unbind" << i; slots[i].o->unbind(); slots[i].el.reset(); break; }
      case 5: { int i=pick(true), j=g.below(4); if (i==j) break; log << " copy" << i << ">" << j; slots[j].o=std::make_unique<Obj>(std::as_const(*slots[i].o)); slots[j].src=slots[i].src; slots[j].el=slots[i].el; slots[j].movedFrom=false; ++sharing; break; }
      case 6: { int i=pick(true), j=g.below(4); if (i==j) break; log << " move" << i << ">" << j; slots[j].o=std::make_unique<Obj>(std::move(*slots[i].o)); slots[j].src=slots[i].src; slots[j].el=slots[i].el; slots[j].movedFrom=false; slots[i].movedFrom=true; ++sharing;
        if (g.coin()) slots[i]={}; break; }
      case 7: if constexpr (assignable) { int i=pick(true), j=g.below(4); if (!slots[j].o || (!crossSource && slots[i].src!=slots[j].src)) break; log << " assign" << i << ">" << j; *slots[j].o=std::as_const(*slots[i].o); slots[j].src=slots[i].src; slots[j].el=slots[i].el; slots[j].movedFrom=false; ++sharing; } break;
      case 8: if constexpr (moveAssignable) { int i=pick(true), j=g.below(4); if (i==j || !slots[j].o || (!crossSource && slots[i].src!=slots[j].src)) break; log << " moveassign" << i << ">" << j; *slots[j].o=std::move(*slots[i].o); slots[j].src=slots[i].src; slots[j].el=slots[i].el; slots[j].movedFrom=false; slots[i].movedFrom=true; ++sharing; } break;
      case 9: if constexpr (moveAssignable) { int i=pick(true), j=pick(true); if (i==j || (!crossSource && slots[i].src!=slots[j].src)) break; log << " swap" << i << "," << j; using std::swap; swap(*slots[i].o,*slots[j].o); std::swap(slots[i].src,slots[j].src); std::swap(slots[i].el,slots[j].el); ++sharing; } break;
      case 10: { int i=pick(true); log << " delete" << i; slots[i]={}; break; }
    }
    if (g.chance(1,3)) { int i=pick(true); if (i>=0) verify(i); }
  }
  for (int i=0;i<4;++i) verify(i);
  // what remains is independent of the others
  for (int i=0;i<4;++i) { slots[i]={}; for (int j=i+1;j<4;++j) verify(j); }
  g.nontrivial(sharing>0); fin();
}

template<class GV> auto elementsOf(const GV& gv) { std::vector<typename GV::template Codim<0>::Entity> r; for (const auto& e:elements(gv)) r.push_back(e); return r; }

template<class LV, class Basis, class E>
void checkLocalView(pbt::Gen& g, const LV& lv, const Basis& b, const E* e, const std::string& at)
{
  constexpr int dim=Basis::GridView::dimension;
  PBT_CHECK(g, &lv.globalBasis()==&b, at, ": globalBasis()");
  PBT_CHECK(g, lv.maxSize()==b.localView().maxSize(), at, ": maxSize()");
  if (!e) return;
  PBT_CHECK(g, lv.element()==*e, at, ": element()");
  auto f=b.localView(); f.bind(*e);
  PBT_CHECK(g, lv.size()==f.size() && lv.tree().size()==f.tree().size(), at, ": size ", lv.size());
  for (std::size_t i=0;i<f.tree().size();++i) { auto k=f.tree().localIndex(i); PBT_CHECK(g, lv.tree().localIndex(i)==k, at, ": localIndex"); PBT_CHECK(g, mi(lv.index(k))==mi(f.index(k)), at, ": index ", str(mi(lv.index(k)))); }
  auto x=gen::localPoint<dim>(g,e->type());
  std::vector<double> a, c;
  auto collect=[&](const auto& tree, auto& v) { TypeTree::forEachNode(tree,[&](auto& n, auto&& tp) {
    v.push_back(n.size()); v.push_back(n.treeIndex()); for (std::size_t i=0;i<n.size();++i) v.push_back(n.localIndex(i));
    if constexpr (requires { n.finiteElement(); }) if (n.size()>0) {
      v.push_back(n.element()==*e);
      const auto& fe=n.finiteElement(); v.push_back(fe.size());
      for (auto& z:util::values(fe,x)) for (auto w:z) v.push_back(w);
      std::vector<typename std::decay_t<decltype(fe)>::Traits::LocalBasisType::Traits::JacobianType> J; fe.localBasis().evaluateJacobian(x,J);
      for (auto& j:J) for (std::size_t r=0;r<j.N();++r) for (auto w:j[r]) v.push_back(w);
      for (std::size_t i=0;i<fe.size();++i) v.push_back(fe.localCoefficients().localKey(i).subEntity());
    }
  }); };
  collect(lv.tree(),a); collect(f.tree(),c);
  PBT_CHECK(g, a.size()==c.size(), at, ": tree");
  for (std::size_t i=0;i<a.size();++i) PBT_CHECK(g, a[i]==c[i], at, ": the tree differs from that of a fresh local view (", a[i], " instead of ", c[i], ")");
}

// two bases from the same factory on different meshes
template<int dim, FuzzKind kind, class F> void views(pbt::Gen& g, const F& f, bool positive=false)
{
  gen::MeshOptions o; o.maxCells=dim==3?2:4; o.positive=positive;
  auto g1=gen::grid<dim,dim,kind>(g,o), g2=gen::grid<dim,dim,kind>(g,o);
  auto b1=BF::makeBasis(g1->leafGridView(),f(0)), b2=BF::makeBasis(g2->leafGridView(),f(1));
  using B=decltype(b1); std::vector<const B*> bs{&b1,&b2};
  std::vector es{elementsOf(g1->leafGridView()),elementsOf(g2->leafGridView())};
  using LV=typename B::LocalView;
  history<LV>(g,es,[&](std::size_t s) { return bs[s]->localView(); },[&](const LV& lv, std::size_t s, const auto& el, const std::string& at) {
    checkLocalView(g,lv,*bs[s],el?&es[s][*el]:nullptr,at); });
}
#define V(NAME,N,DIM,KIND,...) PROPERTY(NAME,N) { views<DIM,FuzzKind::KIND>(g,[&](int) { return __VA_ARGS__; }); }
#if PART==1
V(view_lagrange,200,2,mixed,BF::lagrange<2>())
PROPERTY(view_lagrange_order,200) { views<2,FuzzKind::mixed>(g,[&](int k) { return BF::lagrange(1+k); }); }
V(view_dg,200,2,mixed,BF::composite(BF::lagrangeDG<1>(),BF::lagrange<0>()))
V(view_rt,200,2,mixed,BF::raviartThomas<0>())
V(view_nedelec,200,2,cube,BF::nedelec<1,1,double>())
V(view_hierarchical,200,2,simplex,BF::composite(BF::hierarchicalP2B(),BF::hierarchicalLagrange<2>()))
V(view_rannacherturek,200,2,mixed,BF::power<2>(BF::rannacherTurek(),BF::blockedInterleaved()))
PROPERTY(view_dynamic,200) { views<2,FuzzKind::mixed>(g,[&](int k) { return BF::power(BF::composite(BF::lagrange<1>(),BF::lagrange<2>()),2+k,BF::blockedLexicographic()); }); }
V(view_taylorhood,200,2,simplex,BF::taylorHood())
#elif PART==2
V(view_bdm,200,2,simplex,BF::brezziDouglasMarini<1>())
V(view_morley,200,2,simplex,BF::morley())
V(view_argyris,150,2,simplex,BF::argyris())
V(view_hermite,200,2,simplex,BF::power<2>(BF::cubicHermite(),BF::flatInterleaved()))
V(view_reduced_hermite,200,2,simplex,BF::composite(BF::reducedCubicHermite(),BF::lagrange<1>(),BF::flatLexicographic()))
V(view_hermite_1d,200,1,simplex,BF::cubicHermite())
V(view_refined,200,2,simplex,BF::power(BF::refinedLagrange<1>(),2,BF::blockedInterleaved()))
#elif PART==3
template<class Path, class F> void subspaceViews(pbt::Gen& g, const F& f, const Path& path)
{
  gen::MeshOptions o; o.maxCells=4;
  auto g1=gen::grid<2,2,FuzzKind::simplex>(g,o), g2=gen::grid<2,2,FuzzKind::simplex>(g,o);
  auto r1=BF::makeBasis(g1->leafGridView(),f), r2=BF::makeBasis(g2->leafGridView(),f);
  auto b1=Functions::subspaceBasis(r1,path), b2=Functions::subspaceBasis(r2,path);
  using B=decltype(b1); std::vector<const B*> bs{&b1,&b2};
  std::vector es{elementsOf(g1->leafGridView()),elementsOf(g2->leafGridView())};
  using LV=typename B::LocalView;
  history<LV>(g,es,[&](std::size_t s) { return bs[s]->localView(); },[&](const LV& lv, std::size_t s, const auto& el, const std::string& at) { checkLocalView(g,lv,*bs[s],el?&es[s][*el]:nullptr,at); });
}
PROPERTY(view_subspace,200) { auto f=BF::composite(BF::power<2>(BF::lagrange<2>(),BF::blockedInterleaved()),BF::lagrange<1>()); subspaceViews(g,f,TypeTree::treePath(Indices::_0,std::size_t(g.below(2)))); }
PROPERTY(view_subspace_inner,200) { auto f=BF::composite(BF::lagrange<1>(),BF::power<2>(BF::morley(),BF::flatInterleaved()),BF::flatLexicographic()); subspaceViews(g,f,TypeTree::treePath(Indices::_1)); }
PROPERTY(view_restricted,200)
{
  gen::MeshOptions o; o.maxCells=5; auto grid=gen::grid<2,2,FuzzKind::mixed>(g,o); auto gv=grid->leafGridView(); using GV=decltype(gv);
  FX::SubDomain<GV> s1(gv), s2(gv); for (const auto& e:elements(gv)) { if (g.coin()) s1.insertElement(e); if (g.coin()) s2.insertElement(e); }
  auto f=[&](auto& s) { return BF::composite(FX::BasisFactory::restrict(BF::composite(BF::lagrange<2>(),BF::lagrangeDG<1>()),s),BF::lagrange<1>()); };
  auto b1=BF::makeBasis(gv,f(s1)), b2=BF::makeBasis(gv,f(s2)); using B=decltype(b1); std::vector<const B*> bs{&b1,&b2};
  std::vector es{elementsOf(gv),elementsOf(gv)}; using LV=typename B::LocalView;
  history<LV>(g,es,[&](std::size_t s) { return bs[s]->localView(); },[&](const LV& lv, std::size_t s, const auto& el, const std::string& at) { checkLocalView(g,lv,*bs[s],el?&es[s][*el]:nullptr,at); });
}
PROPERTY(view_bspline,200)
{
  std::array<unsigned,2> n{unsigned(g.range(1,3)),unsigned(g.range(1,3))}; std::array<int,2> ni{int(n[0]),int(n[1])};
  YaspGrid<2> grid({1.0,1.0},ni); auto gv=grid.leafGridView(); using B=Functions::BSplineBasis<decltype(gv)>;
  FieldVector<double,2> lo{0,0}, up{1,1}; B b1(gv,lo,up,n,unsigned(g.range(1,3))), b2(gv,lo,up,n,unsigned(g.range(0,2))); std::vector<const B*> bs{&b1,&b2};
  std::vector es{elementsOf(gv),elementsOf(gv)}; using LV=typename B::LocalView;
  history<LV>(g,es,[&](std::size_t s) { return bs[s]->localView(); },[&](const LV& lv, std::size_t s, const auto& el, const std::string& at) { checkLocalView(g,lv,*bs[s],el?&es[s][*el]:nullptr,at); });
}
PROPERTY(view_transformed,200)
{
  namespace X=Dune::Functions::BasisFactory::Experimental;
  views<2,FuzzKind::mixed>(g,[&](int) { return X::transformIndices(BF::composite(BF::lagrange<1>(),BF::lagrange<2>(),BF::blockedLexicographic()),
    X::indexTransformation([](auto& m, const auto&) { m[0]=1-m[0]; },[](auto p, const auto& raw) -> std::size_t { if (p.size()>0) p[0]=1-p[0]; return raw.size(p); },Dune::index_constant<2>{},Dune::index_constant<2>{})); });
}
#else
// local functions: the reference is a fresh local function of the same grid function
template<class T> void flattenV(const T& t, std::vector<double>& v)
{
  if constexpr (std::is_arithmetic_v<T>) v.push_back(t);
  else if constexpr (requires { t.N(); t.M(); t[0][0]; }) { for (std::size_t i=0;i<t.N();++i) for (std::size_t j=0;j<t.M();++j) v.push_back(t[i][j]); }
  else Hybrid::forEach(Hybrid::integralRange(Hybrid::size(t)), [&](auto i) { flattenV(t[i],v); });
}
template<class LF, class Ref, class E>
void checkValues(pbt::Gen& g, const LF& lf, Ref&& ref, const E& e, const std::string& at)
{
  constexpr int dim=E::mydimension;
  PBT_CHECK(g, lf.localContext()==e, at, ": localContext()");
  ref.bind(e);
  auto x=gen::localPoint<dim>(g,e.type()); std::vector<double> a,b; flattenV(lf(x),a); flattenV(ref(x),b);
  PBT_CHECK(g, a.size()==b.size(), at, ": range");
  for (std::size_t i=0;i<a.size();++i) PBT_CHECK(g, a[i]==b[i] || (std::isnan(a[i]) && std::isnan(b[i])), at, ": value ", a[i], " instead of ", b[i]);
}
enum Deriv { none=0, once=1 };
template<bool deriv, class Fn, class Es>
void localFunctions(pbt::Gen& g, const std::vector<const Fn*>& fs, const Es& es, bool cross=true)
{
  using LF=std::decay_t<decltype(localFunction(*fs[0]))>;
  history<LF>(g,es,[&](std::size_t s) { return localFunction(*fs[s]); },[&](const LF& lf, std::size_t s, const auto& el, const std::string& at) {
    if (el) checkValues(g,lf,localFunction(*fs[s]),es[s][*el],at);
    if constexpr (deriv) if (g.coin()) {
      auto copy=std::make_unique<LF>(lf);
      auto d=derivative(*copy);
      auto df=derivative(*fs[s]);
      PBT_CHECK(g, d.bound()==el.has_value(), at, ": derivative bound()=", d.bound());
      if (g.coin()) { copy->bind(es[s][0]); copy.reset(); }       // the derivative does not depend on it
      if (el) checkValues(g,d,localFunction(df),es[s][*el],at+" (derivative)");
      auto k=g.below(es[s].size()); d.bind(es[s][k]); checkValues(g,d,localFunction(df),es[s][k],at+" (derivative bound later)");
      d.unbind(); PBT_CHECK(g, !d.bound(), at, ": derivative after unbind()");
      PBT_CHECK(g, lf.bound()==el.has_value(), at, ": bound() after use of the derivative"); if (el) checkValues(g,lf,localFunction(*fs[s]),es[s][*el],at+" after use of the derivative");
    }
  },cross);
}
template<int dim, FuzzKind kind, class Range, bool deriv, class F> void discrete(pbt::Gen& g, const F& f)
{
  gen::MeshOptions o; o.maxCells=dim==3?2:4;
  auto g1=gen::grid<dim,dim,kind>(g,o), g2=gen::grid<dim,dim,kind>(g,o);
  auto b1=BF::makeBasis(g1->leafGridView(),f), b2=BF::makeBasis(g2->leafGridView(),f);
  std::vector<double> v1(b1.dimension()), v2(b2.dimension()); for (auto& x:v1) x=g.unit(); for (auto& x:v2) x=g.unit();
  auto f1=Functions::makeDiscreteGlobalBasisFunction<Range>(b1,v1), f2=Functions::makeDiscreteGlobalBasisFunction<Range>(b2,v2);
  std::vector es{elementsOf(g1->leafGridView()),elementsOf(g2->leafGridView())};
  localFunctions<deriv>(g,std::vector<const decltype(f1)*>{&f1,&f2},es);
}
#if PART==4
PROPERTY(discrete_lagrange,200) { discrete<2,FuzzKind::mixed,double,true>(g,BF::lagrange<2>()); }
PROPERTY(discrete_power,200) { discrete<2,FuzzKind::mixed,FieldVector<double,2>,true>(g,BF::power<2>(BF::lagrange<1>(),BF::flatInterleaved())); }
PROPERTY(discrete_tuple,200) { discrete<2,FuzzKind::simplex,TupleVector<FieldVector<double,2>,double>,false>(g,BF::composite(BF::power<2>(BF::lagrange<2>(),BF::flatLexicographic()),BF::lagrange<1>(),BF::flatLexicographic())); }
PROPERTY(discrete_rt,200) { discrete<2,FuzzKind::mixed,FieldVector<double,2>,true>(g,BF::raviartThomas<0>()); }
PROPERTY(discrete_hermite,200) { discrete<2,FuzzKind::simplex,double,true>(g,BF::cubicHermite()); }
PROPERTY(discrete_morley,200) { discrete<2,FuzzKind::simplex,double,true>(g,BF::morley()); }
PROPERTY(discrete_argyris,100) { discrete<2,FuzzKind::simplex,double,true>(g,BF::argyris()); }
PROPERTY(discrete_refined,200) { discrete<2,FuzzKind::simplex,double,true>(g,BF::refinedLagrange<1>()); }
PROPERTY(discrete_subspace,200)
{
  gen::MeshOptions o; o.maxCells=4; auto grid=gen::grid<2,2,FuzzKind::mixed>(g,o); auto gv=grid->leafGridView();
  auto b=BF::makeBasis(gv,BF::power<3>(BF::lagrange<2>(),BF::flatInterleaved())); std::vector<double> v(b.dimension()); for (auto& x:v) x=g.unit();
  auto f1=Functions::makeDiscreteGlobalBasisFunction<double>(Functions::subspaceBasis(b,std::size_t(g.below(3))),v), f2=Functions::makeDiscreteGlobalBasisFunction<double>(Functions::subspaceBasis(b,std::size_t(g.below(3))),v);
  std::vector es{elementsOf(gv),elementsOf(gv)};
  localFunctions<true>(g,std::vector<const decltype(f1)*>{&f1,&f2},es);
}
PROPERTY(discrete_restricted,200)
{
  gen::MeshOptions o; o.maxCells=5; auto grid=gen::grid<2,2,FuzzKind::mixed>(g,o); auto gv=grid->leafGridView(); using GV=decltype(gv);
  FX::SubDomain<GV> s1(gv), s2(gv); for (const auto& e:elements(gv)) { if (g.coin()) s1.insertElement(e); if (g.coin()) s2.insertElement(e); }
  auto f=[&](auto& s) { return BF::composite(FX::BasisFactory::restrict(BF::lagrange<2>(),s),BF::lagrange<1>(),BF::flatLexicographic()); };
  auto b1=BF::makeBasis(gv,f(s1)), b2=BF::makeBasis(gv,f(s2)); std::vector<double> v1(b1.dimension()), v2(b2.dimension()); for (auto& x:v1) x=g.unit(); for (auto& x:v2) x=g.unit();
  auto f1=Functions::makeDiscreteGlobalBasisFunction<FieldVector<double,2>>(b1,v1), f2=Functions::makeDiscreteGlobalBasisFunction<FieldVector<double,2>>(b2,v2);
  std::vector es{elementsOf(gv),elementsOf(gv)};
  localFunctions<true>(g,std::vector<const decltype(f1)*>{&f1,&f2},es);
}
#elif PART==5
struct Env { std::shared_ptr<FuzzGrid<2,2,FuzzKind::mixed>> grid; };
auto analytic(double a, double b)
{ using X=FieldVector<double,2>; return Functions::makeDifferentiableFunctionFromCallables(Functions::SignatureTag<double(X)>(),[a,b](const X& x) { return a*x[0]*x[0]+b*x[1]; },[a,b](const X& x) { return FieldVector<double,2>{2*a*x[0],b}; }); }
template<class M, bool deriv> void gridFunctions(pbt::Gen& g, M&& make)
{
  gen::MeshOptions o; o.maxCells=4; std::shared_ptr g1=gen::grid<2,2,FuzzKind::mixed>(g,o), g2=gen::grid<2,2,FuzzKind::mixed>(g,o);
  std::vector es{elementsOf(g1->leafGridView()),elementsOf(g2->leafGridView())};
  double c[4]; for (auto& x:c) x=g.unit();
  auto f1=make(g1->leafGridView(),c[0],c[1]), f2=make(g2->leafGridView(),c[2],c[3]);
  localFunctions<deriv>(g,std::vector<const decltype(f1)*>{&f1,&f2},es);
}
template<bool deriv, class M> void gridF(pbt::Gen& g, M&& make) { gridFunctions<M,deriv>(g,std::forward<M>(make)); }
PROPERTY(analytic_lf,300) { gridF<true>(g,[](auto gv, double a, double b) { return Functions::makeAnalyticGridViewFunction(analytic(a,b),gv); }); }
PROPERTY(analytic_lambda,300) { gridF<false>(g,[](auto gv, double a, double b) { return Functions::makeAnalyticGridViewFunction([a,b](const auto& x) { return a*x[0]+b*x[1]*x[1]; },gv); }); }
PROPERTY(composed,300) { gridF<false>(g,[](auto gv, double a, double b) {
  return Functions::makeComposedGridFunction([](double x, double y) { return x*y+x; },Functions::makeAnalyticGridViewFunction(analytic(a,b),gv),Functions::makeAnalyticGridViewFunction([a](const auto& x) { return a-x[1]; },gv)); }); }
PROPERTY(facenormal,300) { gridF<false>(g,[](auto gv, double a, double b) { return Functions::FaceNormalGridFunction(gv); }); }
PROPERTY(erased_analytic,300) { gridF<true>(g,[](auto gv, double a, double b) { using GV=decltype(gv);
  return Functions::GridViewFunction<double(FieldVector<double,2>),GV>(Functions::makeAnalyticGridViewFunction(analytic(a,b),gv)); }); }
PROPERTY(erased_discrete,300)
{
  gen::MeshOptions o; o.maxCells=4; auto grid=gen::grid<2,2,FuzzKind::mixed>(g,o); auto gv=grid->leafGridView(); using GV=decltype(gv);
  auto b=BF::makeBasis(gv,BF::lagrange<2>()); std::vector<double> v(b.dimension()), w(b.dimension()); for (auto& x:v) x=g.unit(); for (auto& x:w) x=g.unit();
  using Fn=Functions::GridViewFunction<double(FieldVector<double,2>),GV>;
  Fn f1=Functions::makeDiscreteGlobalBasisFunction<double>(b,v), f2=Functions::makeDiscreteGlobalBasisFunction<double>(b,w), f3=Functions::makeAnalyticGridViewFunction(analytic(1,2),gv);
  std::vector es{elementsOf(gv),elementsOf(gv),elementsOf(gv)};
  // type erased local functions of different dynamic types
  localFunctions<true>(g,std::vector<const Fn*>{&f1,&f2,&f3},es);
}
#else
template<class Wrap> void levels(pbt::Gen& g, bool up, Wrap&& wrap)
{
  std::array<int,2> n{int(g.range(1,2)),int(g.range(1,2))}; YaspGrid<2> grid({1.0,1.0},n); grid.globalRefine(g.range(1,2));
  int top=grid.maxLevel(), cl=g.range(0,top), fl=g.range(cl,top);
  auto cgv=grid.levelGridView(cl), fgv=grid.levelGridView(fl);
  auto src=up?cgv:fgv, dst=up?fgv:cgv;
  g.label(cl==fl?"same level":"levels "+std::to_string(fl-cl)+" apart");
  auto b=BF::makeBasis(src,BF::lagrange<2>()); std::vector<double> v(b.dimension()), w(b.dimension()); for (auto& x:v) x=g.unit(); for (auto& x:w) x=g.unit();
  auto f1=Functions::makeDiscreteGlobalBasisFunction<double>(b,v), f2=Functions::makeDiscreteGlobalBasisFunction<double>(b,w);
  wrap(f1,f2,dst);
}
PROPERTY(coarse_on_fine,300) { levels(g,true,[&](auto& f1, auto& f2, auto dst) {
  auto h1=Functions::CoarseFunctionOnFineGridView(f1,dst), h2=Functions::CoarseFunctionOnFineGridView(f2,dst); std::vector es{elementsOf(dst),elementsOf(dst)};
  localFunctions<true>(g,std::vector<const decltype(h1)*>{&h1,&h2},es); }); }
PROPERTY(fine_on_coarse,300) { levels(g,false,[&](auto& f1, auto& f2, auto dst) {
  auto h1=Functions::FineFunctionOnCoarseGridView(f1,dst), h2=Functions::FineFunctionOnCoarseGridView(f2,dst); std::vector es{elementsOf(dst),elementsOf(dst)};
  localFunctions<true>(g,std::vector<const decltype(h1)*>{&h1,&h2},es); }); }
#endif
#endif
#include "main.hh"
