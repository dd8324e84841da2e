// Checks of functions on generated basis trees (C11, C12, C13, C17, C20, C28).
#ifndef VERIF_TREES2_HH
#define VERIF_TREES2_HH
#ifndef CHECK
#define CHECK 0
#endif
#include "trees_common.hh"
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/common/tuplevector.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/backends/istlvectorfactory.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/boundarydofs.hh>
#include <dune/functions/functionspacebases/subentitydofs.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/common/subdomain.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>

namespace CD2 = Dune::Functions::ContainerDescriptors;
template<class T> struct Unk : std::false_type {};
template<> struct Unk<CD2::Unknown> : std::true_type {};
template<class... C> struct Unk<CD2::Tuple<C...>> : std::bool_constant<(Unk<C>::value || ...)> {};
template<class C, std::size_t n> struct Unk<CD2::Array<C,n>> : Unk<C> {};
template<class C> struct Unk<CD2::Vector<C>> : Unk<C> {};
template<class C, std::size_t n> struct Unk<CD2::UniformArray<C,n>> : Unk<C> {};
template<class C> struct Unk<CD2::UniformVector<C>> : Unk<C> {};

// a coefficient vector that knows nothing about the structure of the indices
template<class T>
struct MapVec
{
  std::map<MI,T> m; std::size_t resized=0;
  template<class I> requires requires(const I& i) { i.size(); i[0]; } T& operator[](const I& i) { return m[mi(i)]; }
  template<class I> requires requires(const I& i) { i.size(); i[0]; } const T& operator[](const I& i) const { return m.at(mi(i)); }
  template<class SP> void resize(const SP&) { ++resized; }
  using value_type=T;
};

// all multi-indices with the number of the leaf node they belong to
template<class Basis>
std::map<MI,int> leafOf(const Basis& b)
{
  std::map<MI,int> r; auto lv=b.localView();
  for (const auto& e:elements(b.gridView())) {
    lv.bind(e); int leaf=0;
    TypeTree::forEachLeafNode(lv.tree(), [&](auto& node, auto&&) {
      for (std::size_t i=0;i<node.size();++i) r[mi(lv.index(node.localIndex(i)))]=leaf;
      ++leaf;
    });
  }
  return r;
}
template<class Basis>
MapVec<double> randomCoefficients(pbt::Gen& g, const Basis& b)
{ MapVec<double> v; for (auto& [m,l]:leafOf(b)) v.m[m]=g.unit(); return v; }

template<class C, class F>
void flatten(const C& c, F&& f)
{
  if constexpr (requires { c.size(); }) Hybrid::forEach(Hybrid::integralRange(Hybrid::size(c)), [&](auto i) { flatten(c[i],f); });
  else f(double(c));
}
template<int n, int m, class F> void flatten(const FieldMatrix<double,n,m>& c, F&& f) { for (int i=0;i<n;++i) for (int j=0;j<m;++j) f(c[i][j]); }
template<class C, class F>
void flattenSet(C& c, F&& f)
{
  if constexpr (std::is_arithmetic_v<C>) f(c);
  else Hybrid::forEach(Hybrid::integralRange(Hybrid::size(c)), [&](auto i) { flattenSet(c[i],f); });
}
template<class C> std::vector<double> flat(const C& c) { std::vector<double> v; flatten(c,[&](double x){v.push_back(x);}); return v; }

template<class C, class F>
void eachScalar(C& c, F&& f)
{
  if constexpr (requires { c.size(); }) Hybrid::forEach(Hybrid::integralRange(Hybrid::size(c)), [&](auto i) { eachScalar(c[i],f); });
  else f(c);
}
template<int n, int m, class F> void eachScalar(FieldMatrix<double,n,m>& c, F&& f) { for (int i=0;i<n;++i) for (int j=0;j<m;++j) f(c[i][j]); }

// the entry of a nested value below a tree path, by plain nested access
template<class R, class TP, std::size_t k=0>
auto entry(const R& r, const TP& tp)
{
  if constexpr (k==TP::size() || !requires { r[Dune::Indices::_0]; }) return r;
  else { auto x=r[tp[std::integral_constant<std::size_t,k>()]]; return entry<decltype(x),TP,k+1>(x,tp); }
}
template<class R, class TP>
auto entryOf(const R& r, const TP& tp) { return entry<R,TP,0>(r,tp); }

template<class Basis, class V>
std::vector<double> evalByHand(const Basis& b, const typename Basis::LocalView& lv, const V& coef, const auto& x)
{
  std::vector<double> r;
  TypeTree::forEachLeafNode(lv.tree(), [&](auto& node, auto&&) {
    using RT=typename std::decay_t<decltype(node)>::FiniteElement::Traits::LocalBasisType::Traits::RangeType;
    if (node.size()==0) { for (std::size_t i=0;i<RT::dimension;++i) r.push_back(0); return; }   // outside of a sub-domain
    auto v=util::values(node.finiteElement(),x);
    auto s=v.at(0); s=0;
    for (std::size_t i=0;i<v.size();++i) s.axpy(coef[lv.index(node.localIndex(i))],v[i]);
    for (auto y:s) r.push_back(y);
  });
  return r;
}
template<class Basis, class V>
std::vector<double> derivByHand(const Basis& b, const typename Basis::LocalView& lv, const V& coef, const auto& x)
{
  std::vector<double> r; auto geo=lv.element().geometry(); auto jit=geo.jacobianInverseTransposed(x);
  TypeTree::forEachLeafNode(lv.tree(), [&](auto& node, auto&&) {
    using FE=typename std::decay_t<decltype(node)>::FiniteElement;
    std::vector<typename FE::Traits::LocalBasisType::Traits::JacobianType> j;
    if (node.size()==0) { for (std::size_t i=0;i<FE::Traits::LocalBasisType::Traits::RangeType::dimension*geo.coorddimension;++i) r.push_back(0); return; }
    node.finiteElement().localBasis().evaluateJacobian(x,j);
    auto s=j.at(0); s=0;
    for (std::size_t i=0;i<j.size();++i) s.axpy(coef[lv.index(node.localIndex(i))],j[i]);
    for (std::size_t row=0;row<s.N();++row) { typename std::decay_t<decltype(geo)>::GlobalCoordinate y; jit.mv(s[row],y); for (auto z:y) r.push_back(z); }
  });
  return r;
}
inline void compare(pbt::Gen& g, const std::vector<double>& a, const std::vector<double>& b, double tol, const std::string& what)
{
  PBT_CHECK(g, a.size()==b.size(), what, ": ", a.size(), " instead of ", b.size(), " components");
  double scale=1; for (auto x:b) scale=std::max(scale,std::abs(x));
  for (std::size_t i=0;i<a.size();++i) PBT_CHECK(g, std::abs(a[i]-b[i])<=tol*scale, what, ": component ", i, " is ", a[i], " instead of ", b[i]);
}

// copies coefficients into another container
template<class Basis, class V>
void fill(const Basis& b, V& v, const MapVec<double>& x)
{
  auto lv=b.localView(); auto vb=Functions::istlVectorBackend(v);
  for (const auto& e:elements(b.gridView())) { lv.bind(e); for (std::size_t i=0;i<lv.size();++i) vb[lv.index(i)]=x[lv.index(i)]; }
}
template<class Basis, class V>
MapVec<double> readBack(const Basis& b, const V& v)
{
  MapVec<double> r; auto lv=b.localView();
  for (const auto& e:elements(b.gridView())) { lv.bind(e); for (std::size_t i=0;i<lv.size();++i) r[lv.index(i)]=v[lv.index(i)]; }
  return r;
}

// calls f(vector, name) with coefficient containers of all kinds suited to the basis
template<class Basis, class F>
void withContainers(pbt::Gen& g, const Basis& b, F&& f)
{
  using D=decltype(b.containerDescriptor());
  switch (g.below(3)) {
    case 1: if constexpr (!Unk<D>::value) { auto v=Functions::makeISTLVector<double>(b.containerDescriptor()); auto vb=Functions::istlVectorBackend(v); vb=0; f(v,"ISTL vector"); return; }
    case 2: if constexpr (!Unk<D>::value) { auto v=Functions::makeContainer<double>(b.containerDescriptor(),0.0); f(v,"generic container"); return; }
    default: { MapVec<double> v; for (auto& [m,l]:leafOf(b)) v.m[m]=0; f(v,"map"); }
  }
}
template<class V> decltype(auto) backend(V& v) { if constexpr (requires { v.resized; }) return (v); else return Functions::istlVectorBackend(v); }

// --- C11 ---------------------------------------------------------------------
inline void sameCoefficients(pbt::Gen& g, const MapVec<double>& a, const MapVec<double>& b, double tol, const std::string& what)
{
  PBT_CHECK(g, a.m.size()==b.m.size(), what, ": number of coefficients");
  for (auto& [k,x]:b.m) { auto it=a.m.find(k); PBT_CHECK(g, it!=a.m.end() && std::abs(it->second-x)<=tol, what, ": coefficient ", str(k), " is ", it==a.m.end()?NAN:it->second, " instead of ", x); }
}

// a smooth function with as many components as the range has scalars
template<class R, class X>
R smooth(const X& x, const std::vector<double>& c)
{
  R r; std::size_t k=0;
  eachScalar(r,[&](auto& y) { double s=c[k%c.size()]; for (std::size_t d=0;d<x.size();++d) s+=c[(k+d+1)%c.size()]*x[d]+0.3*c[(2*k+d)%c.size()]*x[d]*x[d]; y=s; ++k; });
  return r;
}

template<class R, bool derivatives, class Basis>
void checkProjection(pbt::Gen& g, const Basis& b)
{
  auto x=randomCoefficients(g,b); auto leaf=leafOf(b);
  auto f=Functions::makeDiscreteGlobalBasisFunction<R>(b,x);
  MapVec<double> y;
  Functions::interpolate(b,y,f);
  PBT_CHECK(g, y.resized>=1, "interpolate did not resize the vector");
  sameCoefficients(g,y,x,1e-7,"interpolation of a discrete function");
  // other containers
  withContainers(g,b,[&](auto& v, const std::string& what) {
    Functions::interpolate(b,v,f);
    sameCoefficients(g,readBack(b,backend(v)),y,0,what);
    g.label(what);
  });
  // components are independent of each other
  int nl=0; for (auto& [m,l]:leaf) nl=std::max(nl,l+1);
  if (nl>1) {
    int k=g.below(nl); auto x2=x; for (auto& [m,v]:x2.m) if (leaf[m]==k) v+=0.5;
    auto f2=Functions::makeDiscreteGlobalBasisFunction<R>(b,x2); MapVec<double> y2;
    Functions::interpolate(b,y2,f2);
    for (auto& [m,v]:y2.m) if (leaf[m]!=k) PBT_CHECK(g, v==y.m.at(m), "coefficient ", str(m), " of leaf ", leaf[m], " changes with component ", k);
    sameCoefficients(g,y2,x2,1e-7,"interpolation of a second discrete function");
  }
  if constexpr (!derivatives) {
    // an analytic function: coefficients are those of the local interpolation of the matching component
    std::vector<double> c(7); for (auto& z:c) z=g.unit();
    using GC=typename Basis::GridView::template Codim<0>::Geometry::GlobalCoordinate;
    auto fa=[c](const GC& x) { return smooth<R>(x,c); };
    MapVec<double> z; Functions::interpolate(b,z,fa);
    auto lv=b.localView(); MapVec<double> ref;
    for (const auto& e:elements(b.gridView())) {
      lv.bind(e); auto geo=e.geometry();
      TypeTree::forEachLeafNode(lv.tree(), [&](auto& node, auto&& tp) {
        std::vector<double> out; if (node.size()==0) return;
        node.finiteElement().localInterpolation().interpolate([&](const auto& xl) { return entryOf(fa(geo.global(xl)),tp); }, out);
        for (std::size_t i=0;i<node.size();++i) ref[lv.index(node.localIndex(i))]=out.at(i);
      });
    }
    double s=1; for (auto& [k,v]:ref.m) s=std::max(s,std::abs(v));
    sameCoefficients(g,z,ref,1e-9*s,"interpolation of an analytic function");
    // the interpolant reproduces: interpolating it again changes nothing
    auto fd=Functions::makeDiscreteGlobalBasisFunction<R>(b,z); MapVec<double> z2; Functions::interpolate(b,z2,fd);
    sameCoefficients(g,z2,z,1e-7*s,"second interpolation");
  }
}

// --- C12 ---------------------------------------------------------------------
template<class R, bool derivatives, class Basis>
void checkMasked(pbt::Gen& g, const Basis& b)
{
  using GC=typename Basis::GridView::template Codim<0>::Geometry::GlobalCoordinate;
  std::vector<double> c(7); for (auto& z:c) z=g.unit();
  auto run=[&](const auto& f) {
    auto leaf=leafOf(b);
    MapVec<double> full; Functions::interpolate(b,full,f);
    MapVec<char> mask; unsigned den=g.range(1,4); for (auto& [m,l]:leaf) mask.m[m]=g.below(den+1)>0;
    if (g.chance(1,8)) for (auto& [m,x]:mask.m) x=0;
    MapVec<double> old; for (auto& [m,l]:leaf) old.m[m]=g.unit()+100;
    auto verify=[&](const MapVec<double>& now, const std::string& what) {
      for (auto& [m,x]:old.m) {
        if (mask.m.at(m)) PBT_CHECK(g, now.m.at(m)==full.m.at(m), what, ": selected coefficient ", str(m), " is ", now.m.at(m), " instead of ", full.m.at(m));
        else PBT_CHECK(g, now.m.at(m)==x, what, ": coefficient ", str(m), " with clear bit changed from ", x, " to ", now.m.at(m));
      }
      PBT_CHECK(g, now.m.size()==old.m.size(), what, ": number of coefficients");
    };
    { auto v=old; Functions::interpolate(b,v,f,mask); verify(v,"masked interpolation"); }
    using D=decltype(b.containerDescriptor());
    if constexpr (!Unk<D>::value) {
      auto bits=Functions::makeContainer<char>(b.containerDescriptor(),0);
      auto bb=Functions::istlVectorBackend(bits); auto lv=b.localView();
      for (const auto& e:elements(b.gridView())) { lv.bind(e); for (std::size_t i=0;i<lv.size();++i) bb[lv.index(i)]=mask[lv.index(i)]; }
      if (g.coin()) { auto v=Functions::makeISTLVector<double>(b.containerDescriptor()); fill(b,v,old); Functions::interpolate(b,v,f,bits); verify(readBack(b,Functions::istlVectorBackend(v)),"masked interpolation into an ISTL vector"); }
      else { auto v=Functions::makeContainer<double>(b.containerDescriptor()); fill(b,v,old); Functions::interpolate(b,v,f,bits); verify(readBack(b,Functions::istlVectorBackend(v)),"masked interpolation into a generic container"); }
      if constexpr (std::is_same_v<D,CD2::FlatVector>) {
        std::vector<bool> vb(b.size()); for (auto& [m,x]:mask.m) vb[m[0]]=x;
        auto v=old; Functions::interpolate(b,v,f,vb); verify(v,"masked interpolation with vector<bool>");
      }
    }
    // subspaces
    auto rlv=b.localView(); auto first=*b.gridView().template begin<0>(); rlv.bind(first);
    std::vector<std::function<void()>> todo;
    if constexpr (!derivatives) TypeTree::forEachNode(rlv.tree(), [&](auto& node, auto&& tp) {
      auto sub=[&g,&b,&f,&full,&mask,&old,tp,c]() {
        auto sb=Functions::subspaceBasis(b,tp);
        std::set<MI> inside; auto lv=sb.localView();
        for (const auto& e:elements(b.gridView())) { lv.bind(e); for (std::size_t i=0;i<lv.tree().size();++i) inside.insert(mi(lv.index(lv.tree().localIndex(i)))); }
        auto fs=[&](const GC& x) { return entryOf(f(x),tp); };
        auto v=old;
        Functions::interpolate(sb,v,fs);
        for (auto& [m,x]:old.m) {
          if (inside.count(m)) PBT_CHECK(g, v.m.at(m)==full.m.at(m), "subspace interpolation: coefficient ", str(m), " of the subtree is ", v.m.at(m), " instead of ", full.m.at(m));
          else PBT_CHECK(g, v.m.at(m)==x, "subspace interpolation: coefficient ", str(m), " outside of the subtree changed from ", x, " to ", v.m.at(m));
        }
        v=old;
        Functions::interpolate(sb,v,fs,mask);
        for (auto& [m,x]:old.m) {
          if (inside.count(m) && mask.m.at(m)) PBT_CHECK(g, v.m.at(m)==full.m.at(m), "masked subspace interpolation: coefficient ", str(m), " is ", v.m.at(m), " instead of ", full.m.at(m));
          else PBT_CHECK(g, v.m.at(m)==x, "masked subspace interpolation: coefficient ", str(m), " changed from ", x, " to ", v.m.at(m));
        }
      };
      todo.push_back(sub);
    });
    if (!todo.empty()) for (int k=0;k<2;++k) g.pick(todo)();
  };
  if constexpr (derivatives) { auto x=randomCoefficients(g,b); run(Functions::makeDiscreteGlobalBasisFunction<R>(b,x)); }
  else run([c](const GC& x) { return smooth<R>(x,c); });
}

// --- C13 ---------------------------------------------------------------------
template<class R, bool withDeriv, class Basis>
void checkDiscreteFunction(pbt::Gen& g, const Basis& b)
{
  constexpr int dim=Basis::GridView::dimension;
  auto x=randomCoefficients(g,b);
  auto check=[&](const auto& f, const std::string& what) {
    auto lf=localFunction(f); auto lv=b.localView();
    for (const auto& e:elements(b.gridView())) {
      lf.bind(e); lv.bind(e);
      PBT_CHECK(g, lf.bound() && lf.localContext()==e, what, ": local context");
      for (int k=0;k<2;++k) {
        auto p=gen::localPoint<dim>(g,e.type());
        compare(g,flat(lf(p)),evalByHand(b,lv,x,p),1e-9,what);
        if constexpr (withDeriv) {
          auto d=evalByHand(b,lv,x,p); auto ref=derivByHand(b,lv,x,p);
          auto dl=derivative(lf);
          PBT_CHECK(g, dl.bound() && dl.localContext()==e, what, ": derivative of a bound local function is bound");
          compare(g,flat(dl(p)),ref,1e-9,what+": derivative of local function");
          auto df=derivative(f); auto dlf=localFunction(df); dlf.bind(e);
          compare(g,flat(dlf(p)),ref,1e-9,what+": local function of derivative");
        }
      }
    }
  };
  check(Functions::makeDiscreteGlobalBasisFunction<R>(b,x),"discrete function");
  withContainers(g,b,[&](auto& v, const std::string& what) {
    if constexpr (requires { v.resized; }) v=x; else fill(b,v,x);
    switch (g.below(3)) {
      case 0: check(Functions::makeDiscreteGlobalBasisFunction<R>(b,v),what); break;
      case 1: check(Functions::makeDiscreteGlobalBasisFunction<R>(b,std::as_const(v)),what+" (const)"); break;
      // the basis (and a backend) may be passed by value
      case 2: check(Functions::makeDiscreteGlobalBasisFunction<R>(Basis(b),backend(v)),what+" (moved basis)"); break;
    }
    g.label(what);
  });
  // coefficients that are changed later are seen after the next bind
  {
    auto f=Functions::makeDiscreteGlobalBasisFunction<R>(b,x);
    auto lf=localFunction(f); auto lv=b.localView(); auto e=*b.gridView().template begin<0>();
    lf.bind(e); for (auto& [m,v]:x.m) v=-v+1; lf.bind(e); lv.bind(e);
    auto p=gen::localPoint<dim>(g,e.type());
    compare(g,flat(lf(p)),evalByHand(b,lv,x,p),1e-9,"after changing coefficients");
  }
}

// --- C17 ---------------------------------------------------------------------
template<class R, class Basis>
void checkSubspaces(pbt::Gen& g, const Basis& b)
{
  constexpr int dim=Basis::GridView::dimension;
  auto x=randomCoefficients(g,b);
  auto f=Functions::makeDiscreteGlobalBasisFunction<R>(b,x);
  auto tlv=b.localView(); { auto first=*b.gridView().template begin<0>(); tlv.bind(first); }
  auto lf=localFunction(f);
  TypeTree::forEachNode(tlv.tree(), [&](auto&, auto&& tp) {
    auto test=[&](const auto& sb, const std::string& what) {
      PBT_CHECK(g, &sb.rootBasis()==&b && sb.dimension()==b.dimension() && sb.size()==b.size(), what, ": root basis");
      PBT_CHECK(g, sb.gridView().size(0)==b.gridView().size(0), what, ": grid view");
      auto slv=sb.localView(); auto lv=b.localView();
      // restrict coefficients: entries outside of the subtree are made useless
      std::set<MI> inside;
      for (const auto& e:elements(b.gridView())) {
        slv.bind(e); lv.bind(e);
        auto& n=TypeTree::child(lv.tree(),tp); auto& s=slv.tree();
        PBT_CHECK(g, slv.element()==e && s.size()==n.size() && slv.bound(), what, ": size of the subtree");
        PBT_CHECK(g, slv.maxSize()>=s.size() && slv.size()==lv.size(), what, ": sizes");
        for (std::size_t i=0;i<n.size();++i) {
          PBT_CHECK(g, s.localIndex(i)==n.localIndex(i), what, ": local index ", i);
          PBT_CHECK(g, mi(slv.index(s.localIndex(i)))==mi(lv.index(n.localIndex(i))), what, ": multi-index ", i);
          inside.insert(mi(lv.index(n.localIndex(i))));
        }
        std::vector<std::vector<double>> va, vb; auto p=gen::localPoint<dim>(g,e.type());
        auto collect=[&](auto& t, auto& out) { TypeTree::forEachLeafNode(t,[&](auto& node, auto&&) { std::vector<double> v; if (node.size()>0) for (auto& y:util::values(node.finiteElement(),p)) for (auto z:y) v.push_back(z); for (std::size_t i=0;i<node.size();++i) v.push_back(node.localIndex(i)); out.push_back(v); }); };
        collect(n,va); collect(s,vb);
        PBT_CHECK(g, va==vb, what, ": finite elements of the subtree");
      }
      auto y=x; for (auto& [m,v]:y.m) if (!inside.count(m)) v=std::numeric_limits<double>::quiet_NaN();
      using SR=decltype(entryOf(std::declval<R>(),tp));
      auto fs=Functions::makeDiscreteGlobalBasisFunction<SR>(sb,y); auto ls=localFunction(fs);
      for (const auto& e:elements(b.gridView())) {
        ls.bind(e); lf.bind(e); auto p=gen::localPoint<dim>(g,e.type());
        auto a=flat(ls(p)), c=flat(entryOf(lf(p),tp));
        compare(g,a,c,1e-10,what+": discrete function");
        PBT_CHECK(g, std::none_of(a.begin(),a.end(),[](double z){return std::isnan(z);}), what, ": coefficients outside of the subtree are used");
      }
    };
    auto s=Functions::subspaceBasis(b,tp);
    test(s,"subspace");
    // in two steps
    constexpr std::size_t len=std::decay_t<decltype(tp)>::size();
    if constexpr (len>=1) {
      // b -> first digit -> rest
      auto inner=TypeTree::pop_back(tp); auto last=TypeTree::treePath(tp[std::integral_constant<std::size_t,len-1>()]);
      auto s1=Functions::subspaceBasis(b,inner); auto s2=Functions::subspaceBasis(s1,last);
      test(s2,"nested subspace");
      auto s3=Functions::subspaceBasis(s1,tp[std::integral_constant<std::size_t,len-1>()]);
      test(s3,"nested subspace by index");
      auto s4=Functions::subspaceBasis(Functions::subspaceBasis(s,TypeTree::treePath()),TypeTree::treePath());
      test(s4,"nested subspace of empty path");
    }
  });
}

// --- C20 ---------------------------------------------------------------------
template<class RE, class K>
bool contained(const RE& re, int i, int c, const K& key)
{
  constexpr int dim=RE::dimension;
  int cc=key.codim(), j=key.subEntity();
  if (cc<c) return false;
  std::set<int> outer; for (int k=0;k<re.size(i,c,dim);++k) outer.insert(re.subEntity(i,c,k,dim));
  for (int k=0;k<re.size(j,cc,dim);++k) if (!outer.count(re.subEntity(j,cc,k,dim))) return false;
  return true;
}
template<class LV>
std::vector<std::size_t> dofsByHand(const LV& lv, int i, int c)
{
  constexpr int dim=LV::GridView::dimension;
  auto re=referenceElement<double,dim>(lv.element().type()); std::vector<std::size_t> r;
  TypeTree::forEachLeafNode(lv.tree(), [&](auto& node, auto&&) {
    if (node.size()==0) return;
    auto& lc=node.finiteElement().localCoefficients();
    for (std::size_t k=0;k<node.size();++k) if (contained(re,i,c,lc.localKey(k))) r.push_back(node.localIndex(k));
  });
  return r;
}
template<class Basis>
void checkTraversals(pbt::Gen& g, const Basis& b)
{
  constexpr int dim=Basis::GridView::dimension;
  auto gv=b.gridView();
  auto reuse=Functions::subEntityDOFs(b);
  auto lv=b.localView();
  auto same=[&](auto& s, const std::vector<std::size_t>& ref, const std::string& what) {
    std::vector<std::size_t> a(s.begin(),s.end());
    PBT_CHECK(g, a==ref, what, ": ", a.size(), " DOFs, expected ", ref.size());
    PBT_CHECK(g, s.size()==ref.size() && std::is_sorted(a.begin(),a.end()), what, ": size and order");
    for (std::size_t k=0;k<ref.size();++k) PBT_CHECK(g, s[k]==ref[k], what, ": operator[]");
    std::set<std::size_t> in(ref.begin(),ref.end());
    for (std::size_t k=0;k<lv.size();++k) PBT_CHECK(g, s.contains(k)==(in.count(k)>0), what, ": contains(", k, ")");
  };
  std::set<MI> boundary; 
  using Visit=std::tuple<std::size_t,std::size_t,int>; // element, local index, facet
  MultipleCodimMultipleGeomTypeMapper mapper(gv,mcmgElementLayout());
  std::map<Visit,int> expected;
  for (const auto& e:elements(gv)) {
    lv.bind(e); auto re=referenceElement<double,dim>(e.type());
    for (int c=0;c<=dim;++c) for (int i=0;i<re.size(c);++i) {
      auto ref=dofsByHand(lv,i,c);
      auto s=Functions::subEntityDOFs(lv,i,c); same(s,ref,"subEntityDOFs(i,c)");
      if (g.chance(1,3)) same(reuse.bind(lv,i,c),ref,"subEntityDOFs bound again");
    }
    for (const auto& is:intersections(gv,e)) {
      auto ref=dofsByHand(lv,is.indexInInside(),1);
      auto s=Functions::subEntityDOFs(lv,is); same(s,ref,"subEntityDOFs(intersection)");
      same(reuse.bind(lv,is),ref,"subEntityDOFs bound again to an intersection");
      if (is.boundary()) for (auto k:ref) { boundary.insert(mi(lv.index(k))); ++expected[{mapper.index(e),k,is.indexInInside()}]; }
    }
  }
  g.label(boundary.size()<b.dimension() ? "has interior DOFs" : "all DOFs on the boundary");
  std::set<MI> visited;
  Functions::forEachBoundaryDOF(b,[&](auto&& m) { visited.insert(mi(m)); });
  auto diff=[&](const char* what) { PBT_CHECK(g, visited==boundary, what, ": ", visited.size(), " DOFs visited, ", boundary.size(), " lie on the boundary"); visited.clear(); };
  diff("forEachBoundaryDOF(index)");
  std::set<std::pair<std::size_t,std::size_t>> el, el0; for (auto& [v,n]:expected) el0.insert({std::get<0>(v),std::get<1>(v)});
  Functions::forEachBoundaryDOF(b,[&](std::size_t i, auto&& l) { visited.insert(mi(l.index(i))); el.insert({mapper.index(l.element()),i}); });
  diff("forEachBoundaryDOF(local index, local view)");
  PBT_CHECK(g, el==el0, "forEachBoundaryDOF: visited pairs of element and local index");
  std::set<Visit> v3, v30; for (auto& [v,n]:expected) v30.insert(v);
  Functions::forEachBoundaryDOF(b,[&](std::size_t i, auto&& l, auto&& is) {
    PBT_CHECK(g, is.boundary() && is.inside()==l.element(), "intersection passed to the callback");
    visited.insert(mi(l.index(i))); v3.insert({mapper.index(l.element()),i,is.indexInInside()}); });
  diff("forEachBoundaryDOF(local index, local view, intersection)");
  PBT_CHECK(g, v3==v30, "forEachBoundaryDOF: visited triples");
}

// --- C28 ---------------------------------------------------------------------
template<class Tree, class Basis>
void checkTransformed(pbt::Gen& g, const Basis& b, Params& p)
{
  using namespace Dune::Functions;
  constexpr int dim=Basis::GridView::dimension;
  auto gv=b.gridView();
  auto f=Tree::factory(p);
  constexpr auto lo=Basis::PreBasis::minMultiIndexSize, hi=Basis::PreBasis::maxMultiIndexSize;
  // the tree of the raw indices
  std::map<MI,std::set<std::size_t>> t; std::set<MI> full; auto lv=b.localView();
  for (const auto& e:elements(gv)) { lv.bind(e); for (std::size_t i=0;i<lv.size();++i) { auto m=mi(lv.index(i)); full.insert(m); MI q; for (auto d:m) { t[q].insert(d); q.push_back(d); } t[q]; } }
  auto compareWith=[&](const auto& tb, const std::function<MI(const MI&)>& T, const std::string& what) {
    checkIndexTree(g,tb);
    PBT_CHECK(g, tb.dimension()==b.dimension(), what, ": dimension");
    auto tl=tb.localView(); auto rl=b.localView();
    for (const auto& e:elements(gv)) {
      tl.bind(e); rl.bind(e);
      PBT_CHECK(g, tl.size()==rl.size() && tl.maxSize()>=rl.size(), what, ": local size");
      for (std::size_t i=0;i<rl.size();++i) PBT_CHECK(g, mi(tl.index(i))==T(mi(rl.index(i))), what, ": local DOF ", i, " has index ", str(mi(tl.index(i))), " instead of ", str(T(mi(rl.index(i)))));
      std::vector<std::vector<double>> va, vb; auto x=gen::localPoint<dim>(g,e.type());
      auto collect=[&](auto& tr, auto& out) { TypeTree::forEachLeafNode(tr,[&](auto& node, auto&&) { std::vector<double> v; for (auto& y:util::values(node.finiteElement(),x)) for (auto z:y) v.push_back(z); for (std::size_t i=0;i<node.size();++i) v.push_back(node.localIndex(i)); out.push_back(v); }); };
      collect(tl.tree(),va); collect(rl.tree(),vb);
      PBT_CHECK(g, va==vb, what, ": finite elements");
    }
  };
  // (a) flat numbering in a random order: index (position)
  {
    auto perm=g.permutation(full.size()); std::map<MI,std::size_t> number; std::size_t k=0; for (auto& m:full) number[m]=perm[k++];
    auto indexTrans=[number](auto& multiIndex, const auto&) { auto n=number.at(mi(multiIndex)); multiIndex.resize(1); multiIndex[0]=n; };
    std::size_t n=full.size();
    auto size=[n](const auto& prefix, const auto&) -> std::size_t { return prefix.size()==0 ? n : 0; };
    auto cd=[n](const auto&) { return ContainerDescriptors::FlatVector(n); };
    auto tr=BF::Experimental::transformIndices(f,BF::Experimental::indexTransformation(indexTrans,size,cd,Dune::index_constant<1>{},Dune::index_constant<hi>{}));
    auto tb=BF::makeBasis(gv,tr);
    compareWith(tb,[&](const MI& m) { return MI{number.at(m)}; },"flattened");
    PBT_CHECK(g, tb.containerDescriptor().size()==n, "descriptor of the flattened basis");
    // used inside of a power basis
    auto pb=BF::makeBasis(gv,BF::power<2>(tr,BF::flatInterleaved()));
    checkIndexTree(g,pb); PBT_CHECK(g, pb.size()==2*n, "power of a transformed basis");
  }
  // (b) permutation of the digits below the root
  {
    auto n=t[{}].size(); auto perm=g.permutation(n); std::vector<std::size_t> inv(n); for (std::size_t i=0;i<n;++i) inv[perm[i]]=i;
    auto indexTrans=[perm](auto& m, const auto&) { m[0]=perm.at(m[0]); };
    auto size=[inv](const auto& prefix, const auto& raw) -> std::size_t { auto q=prefix; if (q.size()>0) q[0]=inv.at(q[0]); return raw.size(q); };
    auto cd=[](const auto&) { return ContainerDescriptors::Unknown{}; };
    auto tr=BF::Experimental::transformIndices(f,BF::Experimental::indexTransformation(indexTrans,size,cd,Dune::index_constant<lo>{},Dune::index_constant<hi>{}));
    compareWith(BF::makeBasis(gv,tr),[&](MI m) { m[0]=perm[m[0]]; return m; },"permuted first digit");
  }
  // (c) one more digit
  {
    auto k=g.range(1,3);
    auto number=std::make_shared<std::map<MI,std::size_t>>(); std::size_t c=0; for (auto& m:full) (*number)[m]=c++;
    std::size_t N=full.size();
    auto indexTrans=[number,k](auto& m, const auto&) { auto n=number->at(mi(m)); m.resize(2); m[0]=n/k; m[1]=n%k; };
    auto size=[N,k](const auto& prefix, const auto&) -> std::size_t { if (prefix.size()==0) return (N+k-1)/k; if (prefix.size()==1) return std::min<std::size_t>(k,N-prefix[0]*k); return 0; };
    auto cd=[](const auto&) { return ContainerDescriptors::Unknown{}; };
    auto tr=BF::Experimental::transformIndices(f,BF::Experimental::indexTransformation(indexTrans,size,cd,Dune::index_constant<2>{},Dune::index_constant<(hi>2?hi:2)>{}));
    compareWith(BF::makeBasis(gv,tr),[&](const MI& m) { auto n=number->at(m); return MI{n/k,n%k}; },"blocked");
  }
}

#if CHECK==15
#include "samebasis.hh"
// --- C15: histories of mesh changes and updates
template<class Tree, int dim, FuzzKind kind>
void runUpdates(pbt::Gen& g, const gen::MeshOptions& o)
{
  std::vector<std::unique_ptr<FuzzGrid<dim,dim,kind>>> grids; grids.push_back(gen::grid<dim,dim,kind>(g,o));
  if (g.coin()) grids.push_back(gen::grid<dim,dim,kind>(g,o));
  std::size_t cur=0;
  Params p{g,{}};
  auto f=Tree::factory(p);
  auto b=BF::makeBasis(grids[0]->leafGridView(),f);
  int steps=g.range(1,4);
  for (int s=0;s<steps;++s) {
    int changes=g.range(0,2);
    for (int c=0;c<changes;++c) { auto& G=*grids[g.below(grids.size())]; G.setMesh(gen::mesh<dim,dim>(g,kind,o)); g.nontrivial(); }
    cur=g.below(grids.size());
    auto gv=grids[cur]->leafGridView();
    b.update(gv);
    auto fresh=BF::makeBasis(gv,f);
    sameBasis(g,b,fresh,"after update "+std::to_string(s));
    checkIndexTree(g,b);
    if (g.chance(1,4)) { auto c=b; b=c; sameBasis(g,b,fresh,"copy after update"); }
  }
  g.label("steps "+std::to_string(steps)); if (grids.size()>1) g.label("two grids");
}
#endif
#if CHECK==19
#include <dune/functions/common/subdomain.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>
#include "samebasis.hh"
namespace FE_ = Dune::Functions::Experimental;
template<class T> void valuesOfLeaf(const T& fe, const auto& x, std::vector<std::vector<double>>& v)
{
  auto vals=util::values(fe,x); v.resize(vals.size());
  std::vector<typename T::Traits::LocalBasisType::Traits::JacobianType> J; fe.localBasis().evaluateJacobian(x,J);
  for (std::size_t i=0;i<vals.size();++i) { for (auto w:vals[i]) v[i].push_back(w); for (std::size_t r=0;r<J[i].N();++r) for (auto w:J[i][r]) v[i].push_back(w); }
}
// a restricted basis r (made from the same factory as w) lives on the elements in 'in'; oriented: functions may differ by a factor
template<class Range, bool derivatives, class R, class W, class S>
void checkRestricted(pbt::Gen& g, const R& r, const W& w, const S& sub, const std::vector<bool>& in, bool oriented, const std::string& what)
{
  constexpr int dim=W::GridView::dimension;
  auto gv=w.gridView(); MultipleCodimMultipleGeomTypeMapper mapper(gv,mcmgElementLayout());
  bool any=std::count(in.begin(),in.end(),true)>0;
  PBT_CHECK(g, &r.gridView().indexSet()==&gv.indexSet(), what, ": grid view");
  if (any) checkIndexTree(g,r); else PBT_CHECK(g, r.dimension()==0, what, ": dimension on an empty sub-domain is ", r.dimension());
  auto x=r.localView(); auto y=w.localView();
  std::map<MI,MI> fwd, bwd; std::map<MI,double> factor;
  std::set<MI> scaled;
  // elements in a random order, some repeatedly
  std::vector<typename W::GridView::template Codim<0>::Entity> es; for (const auto& e:elements(gv)) es.push_back(e);
  auto order=g.permutation(es.size()); for (int k=g.below(3);k-->0;) order.push_back(g.below(es.size()));
  for (auto k:order) {
    const auto& e=es[k];
    x.bind(e); y.bind(e);
    std::string at=what+(in[mapper.index(e)]?": on a contained element":": outside of the sub-domain");
    PBT_CHECK(g, x.size()==(in[mapper.index(e)]?y.size():0), at, " local size ", x.size(), " (whole basis: ", y.size(), ")");
    std::size_t off=0;
    TypeTree::forEachLeafNode(x.tree(),[&](auto& n, auto&&) { for (std::size_t i=0;i<n.size();++i) PBT_CHECK(g, n.localIndex(i)==off+i, at, " local index"); off+=n.size(); });
    PBT_CHECK(g, off==x.size(), at, " the leaf nodes do not make up the tree");
    if (!in[mapper.index(e)]) continue;
    for (std::size_t i=0;i<y.size();++i) {
      auto a=mi(x.index(i)), b=mi(y.index(i));
      auto [it,n1]=fwd.insert({b,a}); PBT_CHECK(g, it->second==a, at, ": one DOF has indices ", str(a), " and ", str(it->second));
      auto [jt,n2]=bwd.insert({a,b}); PBT_CHECK(g, jt->second==b, at, ": two DOFs have index ", str(a));
    }
    auto pts=gen::samplePoints<dim>(e.type(),2);
    std::vector<std::vector<std::vector<double>>> vx, vy;
    auto collect=[&](auto& t, auto& out) { TypeTree::forEachLeafNode(t,[&](auto& n, auto&&) {
      PBT_CHECK(g, n.element()==e, at, " element of a leaf node");
      std::vector<std::vector<double>> v(n.size());
      for (auto& p:pts) valuesOfLeaf(n.finiteElement(),p,v);
      out.push_back(v); }); };
    collect(x.tree(),vx); collect(y.tree(),vy);
    PBT_CHECK(g, vx.size()==vy.size(), at, " tree");
    for (std::size_t l=0;l<vx.size();++l) for (std::size_t i=0;i<vx[l].size();++i) {
      double f=1;
      if (oriented) { std::size_t m=0; for (std::size_t k=0;k<vy[l][i].size();++k) if (std::abs(vy[l][i][k])>std::abs(vy[l][i][m])) m=k; if (vy[l][i][m]!=0) f=vx[l][i][m]/vy[l][i][m]; PBT_CHECK(g, std::isfinite(f) && std::abs(f)>1e-6, at, " values"); }
      double tol=0; if (oriented) for (auto z:vx[l][i]) tol=std::max(tol,1e-8*std::abs(z));
      for (std::size_t k=0;k<vy[l][i].size();++k) PBT_CHECK(g, std::abs(vx[l][i][k]-f*vy[l][i][k])<=tol, at, " leaf ", l, " function ", i, " has value ", vx[l][i][k], " instead of ", f*vy[l][i][k]);
    }
  }
  PBT_CHECK(g, fwd.size()==r.dimension(), what, ": dimension ", r.dimension(), ", used indices ", fwd.size());
  // discrete functions
  if constexpr (!derivatives) {
    if (oriented) return;
    MapVec<double> cw, cr; for (auto& [m,l]:leafOf(w)) cw.m[m]=g.unit();
    for (auto& [a,b]:bwd) cr.m[a]=cw.m.at(b);
    auto fw=Functions::makeDiscreteGlobalBasisFunction<Range>(w,cw);
    auto fr=Functions::makeDiscreteGlobalBasisFunction<Range>(r,cr);
    auto lw=localFunction(fw); auto lr=localFunction(fr);
    MapVec<double> ci; for (auto& [a,b]:bwd) ci.m[a]=1e300;
    auto f1=[&](const auto& X) { Range y; int k=0; flattenSet(y,[&](auto& v) { v=0.3+k*X[0]-X[dim-1]; ++k; }); return y; };
    MapVec<double> cv; Functions::interpolate(w,cv,f1); Functions::interpolate(r,ci,f1);
    for (auto& [a,b]:bwd) PBT_CHECK(g, std::abs(ci.m.at(a)-cv.m.at(b))<=1e-10*(1+std::abs(cv.m.at(b))), what, ": interpolated coefficient ", str(a), " is ", ci.m.at(a), " instead of ", cv.m.at(b));
    PBT_CHECK(g, ci.m.size()==bwd.size(), what, ": interpolation wrote foreign coefficients");
    for (auto k:order) {
      const auto& e=es[k]; lw.bind(e); lr.bind(e);
      auto p=gen::localPoint<dim>(g,e.type());
      std::vector<double> a, b; flatten(lr(p),[&](double v) { a.push_back(v); }); flatten(lw(p),[&](double v) { b.push_back(v); });
      for (std::size_t i=0;i<a.size();++i) PBT_CHECK(g, std::abs(a[i]-(in[mapper.index(e)]?b[i]:0))<=1e-10, what, ": the discrete function is ", a[i], " instead of ", b[i], in[mapper.index(e)]?"":" x 0");
    }
  }
}
template<class Tree, class Basis>
void runRestricted(pbt::Gen& g, const Basis& w, Params& p)
{
  auto gv=w.gridView(); using GV=decltype(gv);
  auto f=Tree::factory(p);
  MultipleCodimMultipleGeomTypeMapper mapper(gv,mcmgElementLayout());
  std::vector<typename GV::template Codim<0>::Entity> es; for (const auto& e:elements(gv)) es.push_back(e);
  auto insertSome=[&](auto& sub, auto& in) {
    for (auto k:g.permutation(es.size())) if (g.coin()) { sub.insertElement(es[k]); in[mapper.index(es[k])]=true; if (g.chance(1,5)) sub.insertElement(es[k]); }
  };
  FE_::SubDomain<GV> sub(gv), sub2(gv); std::vector<bool> in(es.size()), in2(es.size());
  insertSome(sub,in); insertSome(sub2,in2);
  std::size_t n=std::count(in.begin(),in.end(),true);
  g.label(n==0?"empty sub-domain":n==in.size()?"whole domain":"part of the domain"); g.nontrivial(n>0 && n<in.size());
  auto rf=FE_::BasisFactory::restrict(f,sub), rf2=FE_::BasisFactory::restrict(f,sub2);
  auto r=BF::makeBasis(gv,rf);
  constexpr bool D=Tree::derivatives; constexpr bool O=Tree::positive || Tree::derivatives || Tree::oriented;
  checkRestricted<typename Tree::Range,D>(g,r,w,sub,in,O,"restricted basis");
  if (g.coin()) { auto c=r; r=c; checkRestricted<typename Tree::Range,D>(g,r,w,sub,in,O,"copied restricted basis"); }
  // inside of other bases: same leaves, indices by the merging rule
  int what=g.below(3);
  auto check=[&](const auto& c, auto&& parts) {   // parts(element index): list of (basis indices, digit transformation)
    auto x=c.localView();
    bool all=true;
    for (const auto& e:es) {
      x.bind(e); std::vector<MI> ref; parts(e,ref);
      PBT_CHECK(g, x.size()==ref.size(), "nested restricted basis: local size ", x.size(), " instead of ", ref.size());
      for (std::size_t i=0;i<ref.size();++i) PBT_CHECK(g, mi(x.index(i))==ref[i], "nested restricted basis: index ", str(mi(x.index(i))), " instead of ", str(ref[i]));
      std::size_t off=0;
      TypeTree::forEachLeafNode(x.tree(),[&](auto& n, auto&&) { for (std::size_t i=0;i<n.size();++i) PBT_CHECK(g, n.localIndex(i)==off+i, "nested restricted basis: local index"); off+=n.size(); if (n.size()>0) PBT_CHECK(g, n.size()==n.finiteElement().size(), "finite element"); });
    }
    (void)all;
  };
  auto add=[&](const auto& basis, const auto& e, std::vector<MI>& ref, auto&& T) { auto v=basis.localView(); v.bind(e); for (std::size_t i=0;i<v.size();++i) ref.push_back(T(mi(v.index(i)))); };
  if (what==0) {
    auto l=BF::makeBasis(gv,BF::lagrange<1>()); auto r2=BF::makeBasis(gv,rf2);
    auto c=BF::makeBasis(gv,BF::composite(rf,BF::lagrange<1>(),rf2,BF::blockedLexicographic()));
    check(c,[&](const auto& e, auto& ref) { add(r,e,ref,[](MI m) { m.insert(m.begin(),0); return m; }); add(l,e,ref,[](MI m) { m.insert(m.begin(),1); return m; }); add(r2,e,ref,[](MI m) { m.insert(m.begin(),2); return m; }); });
    PBT_CHECK(g, c.dimension()==r.dimension()+l.dimension()+r2.dimension(), "composite of restricted bases: dimension");
    PBT_CHECK(g, c.localView().maxSize()>=2*0, "");
  }
  else if (what==1) {
    auto r2=BF::makeBasis(gv,rf2); std::size_t s=r.size(), s2=s+r2.size();
    auto c=BF::makeBasis(gv,BF::composite(rf,rf2,rf,BF::flatLexicographic()));
    check(c,[&](const auto& e, auto& ref) { add(r,e,ref,[&](MI m) { return m; }); add(r2,e,ref,[&](MI m) { m[0]+=s; return m; }); add(r,e,ref,[&](MI m) { m[0]+=s2; return m; }); });
    if (n>0 && std::count(in2.begin(),in2.end(),true)>0) checkIndexTree(g,c);
  }
  else {
    auto c=BF::makeBasis(gv,BF::power<2>(rf,BF::blockedInterleaved()));
    check(c,[&](const auto& e, auto& ref) { for (std::size_t k=0;k<2;++k) add(r,e,ref,[&](MI m) { m.push_back(k); return m; }); });
    auto d=BF::makeBasis(gv,BF::power(rf,3,BF::flatInterleaved()));
    check(d,[&](const auto& e, auto& ref) { for (std::size_t k=0;k<3;++k) add(r,e,ref,[&](MI m) { m[0]=3*m[0]+k; return m; }); });
  }
  // more elements are inserted: update
  if (g.coin()) {
    insertSome(sub,in); r.update(gv);
    checkRestricted<typename Tree::Range,D>(g,r,w,sub,in,O,"updated restricted basis");
    auto fresh=BF::makeBasis(gv,rf); auto a=r.localView(), b=fresh.localView();
    for (const auto& e:es) { a.bind(e); b.bind(e); PBT_CHECK(g, a.size()==b.size(), "update: local size"); for (std::size_t i=0;i<a.size();++i) PBT_CHECK(g, mi(a.index(i))==mi(b.index(i)), "update: index"); }
  }
}
#endif
template<class Tree, int dim, FuzzKind kind>
void runTree2(pbt::Gen& g)
{
  gen::MeshOptions o; o.maxCells=dim==3?2:4; o.prisms=o.pyramids=Tree::prisms; o.positive=Tree::positive; o.affine=Tree::affine;
  g.describe(Tree::name()); g.label(Tree::name());
#if CHECK==15
  runUpdates<Tree,dim,kind>(g,o);
  return;
#endif
  auto grid=gen::grid<dim,dim,kind>(g,o); auto gv=grid->leafGridView();
  Params p{g,{}};
  using SD=Dune::Functions::Experimental::SubDomain<decltype(gv)>; std::array<std::unique_ptr<SD>,2> subs;
  if constexpr (Tree::restricted) {
    unsigned den=g.range(1,4); std::string d;
    for (int k=0;k<2;++k) { subs[k]=std::make_unique<SD>(gv); bool any=CHECK>12; for (const auto& e:elements(gv)) { bool in=g.below(den+1)>0 || !any; any=true; if (in) subs[k]->insertElement(e); d+=in?'1':'0'; } d+=' '; p.subs[k]=subs[k].get(); }
    g.describe(d);
  }
  auto b=BF::makeBasis(gv,Tree::factory(p));
  g.nontrivial(gv.size(0)>1);
#if CHECK==11
  checkProjection<typename Tree::Range,Tree::derivatives>(g,b);
#elif CHECK==12
  checkMasked<typename Tree::Range,Tree::derivatives>(g,b);
#elif CHECK==13
  checkDiscreteFunction<typename Tree::Range,Tree::withDeriv>(g,b);
#elif CHECK==17
  checkSubspaces<typename Tree::Range>(g,b);
#elif CHECK==20
  checkTraversals(g,b);
  auto lv=b.localView(); auto first=*gv.template begin<0>(); lv.bind(first);
  int nodes=0; TypeTree::forEachNode(lv.tree(), [&](auto&, auto&&) { ++nodes; });
  int pick=g.below(nodes), k=0;
  TypeTree::forEachNode(lv.tree(), [&](auto&, auto&& tp) { if (k++==pick) { auto sb=Functions::subspaceBasis(b,tp); checkTraversals(g,sb); } });
#elif CHECK==19
  runRestricted<Tree>(g,b,p);
#elif CHECK==28
  checkTransformed<Tree>(g,b,p);
#endif
}
#endif
