// Multi-index access, vector backends and flat views against plain nested access.
#include "pbt.hh"
#include "util.hh"
#include <array>
#include <complex>
#include <deque>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/dynvector.hh>
#include <dune/common/reservedvector.hh>
#include <dune/common/tuplevector.hh>
#include <dune/common/typetree/treepath.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/common/indexaccess.hh>
#include <dune/functions/common/overflowarray.hh>
#include <dune/functions/common/multiindex.hh>
#include <dune/functions/common/densevectorview.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/functionspacebases/flatvectorview.hh>
using namespace Dune; namespace F=Dune::Functions; using util::MI;

// ---- what a container is: decided by its type alone ----
enum Kind { scalar, dynamic, fixed, tuple };
template<class T> struct Is { static constexpr Kind kind=scalar; };
template<class T,class A> struct Is<std::vector<T,A>> { static constexpr Kind kind=dynamic; };
template<class T,class A> struct Is<BlockVector<T,A>> { static constexpr Kind kind=dynamic; };
template<class T,class A> struct Is<DynamicVector<T,A>> { static constexpr Kind kind=dynamic; };
template<class T,int n> struct Is<ReservedVector<T,n>> { static constexpr Kind kind=dynamic; };
template<class T,std::size_t n> struct Is<std::array<T,n>> { static constexpr Kind kind=fixed; };
template<class T,int n> struct Is<FieldVector<T,n>> { static constexpr Kind kind=fixed; };
template<class T,int n,int m> struct Is<FieldMatrix<T,n,m>> { static constexpr Kind kind=fixed; };
template<class... T> struct Is<TupleVector<T...>> { static constexpr Kind kind=tuple; };
template<class... T> struct Is<MultiTypeBlockVector<T...>> { static constexpr Kind kind=tuple; };
template<class T> constexpr Kind kindOf=Is<std::remove_cv_t<std::remove_reference_t<T>>>::kind;

template<class C, class V> void entries(C& c, V&& v)
{
  if constexpr (kindOf<C> ==tuple) [&]<std::size_t... k>(std::index_sequence<k...>) { (v(k,c[index_constant<k>()]),...); }(std::make_index_sequence<std::decay_t<C>::size()>());
  else for (std::size_t i=0;i<c.size();++i) v(i,c[i]);
}
// visits all nodes of the container, the scalars last: pre(path,node) for inner ones, leaf(path,scalar)
template<class C, class Pre, class Leaf> void walk(C& c, MI& path, Pre&& pre, Leaf&& leaf)
{
  if constexpr (kindOf<C> ==scalar) leaf(path,c);
  else { pre(path,c); entries(c,[&](std::size_t i, auto& e) { path.push_back(i); walk(e,path,pre,leaf); path.pop_back(); }); }
}
template<class C> struct Scalar { using type=C; };
template<class C> using ScalarOf=typename Scalar<C>::type;
template<class T,class A> struct Scalar<std::vector<T,A>> : Scalar<T> {};
template<class T,class A> struct Scalar<BlockVector<T,A>> : Scalar<T> {};
template<class T,class A> struct Scalar<DynamicVector<T,A>> : Scalar<T> {};
template<class T,int n> struct Scalar<ReservedVector<T,n>> : Scalar<T> {};
template<class T,std::size_t n> struct Scalar<std::array<T,n>> : Scalar<T> {};
template<class T,int n> struct Scalar<FieldVector<T,n>> : Scalar<T> {};
template<class T,int n,int m> struct Scalar<FieldMatrix<T,n,m>> : Scalar<T> {};
template<class T,class... R> struct Scalar<TupleVector<T,R...>> : Scalar<T> {};
template<class T,class... R> struct Scalar<MultiTypeBlockVector<T,R...>> : Scalar<T> {};

// TupleVector<T> is assignable from anything T is explicitly constructible from (dune-common), then assigning a value is not what it seems
template<class C> struct Single : std::false_type {};
template<template<class...> class X,class... T> struct Single<X<T...>> : std::bool_constant<(kindOf<X<T...>> ==tuple && sizeof...(T)==1) || (Single<T>::value || ...)> {};
template<class T,int n> struct Single<ReservedVector<T,n>> : Single<T> {};
template<class T,std::size_t n> struct Single<std::array<T,n>> : Single<T> {};
template<class C> void shape(pbt::Gen& g, C& c, int lo=0)
{
  if constexpr (kindOf<C> !=scalar) {
    if constexpr (kindOf<C> ==dynamic) c.resize(g.range(g.chance(1,10)?lo:1,3));
    entries(c,[&](std::size_t, auto& e) { shape(g,e,lo); });
  }
}
template<class C> using ScalarPtr=std::conditional_t<std::is_const_v<C>,const ScalarOf<std::remove_const_t<C>>,ScalarOf<std::remove_const_t<C>>>*;
template<class C> auto scalars(C& c) { std::vector<std::pair<MI,ScalarPtr<C>>> r; MI p; walk(c,p,[](auto&&...){},[&](const MI& q, auto& s) { r.push_back({q,&s}); }); return r; }
template<class C> void number(C& c) { int k=0; for (auto& [p,s]:scalars(c)) *s=ScalarOf<C>(++k); }
template<class I> I index(const MI& m) { I r; r.resize(m.size()); for (std::size_t i=0;i<m.size();++i) r[i]=m[i]; return r; }
using RI=ReservedVector<std::size_t,10>; using VI=std::vector<std::size_t>; using OI=F::OverflowArray<F::StaticMultiIndex<std::size_t,2>,10>; using DI=std::deque<unsigned>;

template<class C> struct SizeOf
{
  using SizePrefix=RI; const C* c; const MI* bad=nullptr; std::size_t badSize=0;
  template<class P> std::size_t size(const P& prefix) const
  {
    MI want=util::mi(prefix), p; std::size_t r=0; auto* k=c;
    if (bad && want==*bad) return badSize;
    walk(*k,p,[&](const MI& q, auto& n) { if (q==want) { if constexpr (kindOf<decltype(n)> ==tuple) r=std::decay_t<decltype(n)>::size(); else r=n.size(); } },[](auto&&...){}); return r;
  }
};

template<class C> void nested(pbt::Gen& g)
{
  C c; shape(g,c); number(c); const C& k=c; auto all=scalars(c);
  auto snapshot=[&] { std::vector<ScalarOf<C>> v; for (auto& [p,s]:scalars(c)) v.push_back(*s); return v; };
  auto before=snapshot(); std::ostringstream d; d << all.size() << " scalars, paths";
  auto b=F::istlVectorBackend(c); auto cb=F::istlVectorBackend(k); const auto b2=b;
  static_assert(F::hasUniqueFieldType<C&>() && std::is_same_v<decltype(F::fieldTypes<C&>()),TypeList<ScalarOf<C>&>> && std::is_same_v<decltype(F::fieldTypes<const C&>()),TypeList<const ScalarOf<C>&>>);
  using S=ScalarOf<C>;
  static_assert(std::is_same_v<decltype(b[RI()]),S&> && std::is_same_v<decltype(cb[RI()]),const S&> && std::is_same_v<decltype(b2[RI()]),S&>);
  PBT_CHECK(g, &b.vector()==&c && &cb.vector()==&c, "wrapped vector");
  for (auto& [p,s]:all) {
    MI q=p; while (!q.empty() && q.back()==0 && g.chance(1,2)) q.pop_back();
    auto t=util::str(q)+" for "+util::str(p); if (d.str().size()<200) d << " " << util::str(q);
    PBT_CHECK(g, &b[index<RI>(q)]==s, "backend: ", t); PBT_CHECK(g, &b2[index<VI>(q)]==s, "const backend: ", t); PBT_CHECK(g, &cb[index<OI>(q)]==s, "backend of constant vector: ", t);
    PBT_CHECK(g, &F::resolveDynamicMultiIndex(c,index<DI>(q))==s, "resolveDynamicMultiIndex: ", t);
    if (q.empty()) q.push_back(0);
    PBT_CHECK(g, (&F::hybridMultiIndexAccess<S&>(c,index<RI>(q))==s), "hybridMultiIndexAccess: ", t); PBT_CHECK(g, (&F::hybridMultiIndexAccess<const S&>(k,index<OI>(q))==s), "hybridMultiIndexAccess of constant container: ", t);
  }
  PBT_CHECK(g, snapshot()==before, "reading modified the container");
  if (!all.empty()) {
    auto i=g.below(all.size()); auto want=before; want[i]=S(1000+int(i)); int how=g.below(3);
    if (how==0) b[index<VI>(all[i].first)]=want[i]; else if (how==1) F::hybridMultiIndexAccess<S&>(c,index<RI>(all[i].first))=want[i]; else b2[index<RI>(all[i].first)]=want[i];
    PBT_CHECK(g, snapshot()==want, "writing to ", util::str(all[i].first), " did not modify exactly this entry");
  }
  // assignment
  { C e=c; auto eb=F::istlVectorBackend(e); auto now=snapshot();
    if constexpr (!Single<C>::value) { eb=S(7); auto q=scalars(e); PBT_CHECK(g, q.size()==all.size(), "assignment of a value changed the shape"); for (auto& [p,s]:q) PBT_CHECK(g, *s==S(7), "assignment of a value: entry ", util::str(p)); }
    eb=c; auto q=scalars(e); PBT_CHECK(g, q.size()==all.size(), "assignment of a vector: shape"); for (std::size_t i=0;i<q.size();++i) PBT_CHECK(g, *q[i].second==now[i], "assignment of a vector: entry ", util::str(q[i].first)); PBT_CHECK(g, snapshot()==now, "assignment modified its source"); }
  g.nontrivial(all.size()>1); g.describe(d.str());
}
template<class C> void resize(pbt::Gen& g)
{
  C c, e; shape(g,c,1); shape(g,e,0); number(c); auto eb=F::istlVectorBackend(e); SizeOf<C> sp{&c};
  auto sizes=[&](const C& x) { std::vector<std::pair<MI,std::size_t>> r; MI p; walk(x,p,[&](const MI& q, auto& n) { r.push_back({q,SizeOf<C>{&x}.size(q)}); },[](auto&&...){}); return r; };
  eb.resize(sp); PBT_CHECK(g, sizes(e)==sizes(c), "sizes after resize()");
  number(e); auto a=scalars(c), b=scalars(e); PBT_CHECK(g, a.size()==b.size(), "number of entries after resize()");
  for (std::size_t i=0;i<a.size();++i) PBT_CHECK(g, a[i].first==b[i].first && *a[i].second==*b[i].second, "entry ", util::str(a[i].first), " after resize()");
  // sizes the container cannot have
  std::vector<std::pair<MI,std::size_t>> bad; { MI p; walk(std::as_const(c),p,[&](const MI& q, auto& n) { if constexpr (kindOf<decltype(n)> !=dynamic) bad.push_back({q,std::size_t(SizeOf<C>{&c}.size(q))+1}); },[&](const MI& q, auto&) { bad.push_back({q,2}); }); }
  if (!bad.empty()) { auto& [q,s]=bad[g.below(bad.size())]; SizeOf<C> wrong{&c,&q,s}; bool thrown=false; try { eb.resize(wrong); } catch (RangeError&) { thrown=true; } PBT_CHECK(g, thrown, "resize() to the impossible size ", s, " of entry ", util::str(q)); }
  g.nontrivial(a.size()>1); g.describe(std::to_string(a.size())+" scalars");
}
