// Random basis trees: a reference model of multi-indices, and checks against it.
// The tree types themselves are generated (gen_trees.py).
#ifndef VERIF_TREES_COMMON_HH
#define VERIF_TREES_COMMON_HH
#include "config.h"
#include <optional>
#include "pbt.hh"
#include "util.hh"
#include "meshgen.hh"
#include <dune/grid/common/mcmgmapper.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#if TREE_SIMPLEX
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#endif

using namespace Dune;
using namespace Dune::Functions::BasisFactory;
namespace BF = Dune::Functions::BasisFactory;
using util::MI; using util::mi; using util::str;

enum IMS { mBL, mBI, mFL, mFI };

struct Model
{
  std::vector<std::vector<MI>> index;   // by element, in depth first order of the leaves
  std::vector<std::vector<std::size_t>> leafSizes; // by element: sizes of the leaf nodes, depth first
  std::map<MI,std::set<std::size_t>> children() const
  {
    std::map<MI,std::set<std::size_t>> t;
    for (auto& e:index) for (auto& m:e) { MI p; for (auto d:m) { t[p].insert(d); p.push_back(d); } t[p]; }
    return t;
  }
  std::size_t rootSize() const { std::set<std::size_t> s; for (auto& e:index) for (auto& m:e) s.insert(m.at(0)); return s.size(); }
};

template<class GV, class F>
Model mLeaf(const GV& gv, const F& f)
{
  Model m; auto b=BF::makeBasis(gv,f); auto lv=b.localView(); MultipleCodimMultipleGeomTypeMapper mapper(gv,mcmgElementLayout());
  m.index.resize(gv.size(0)); m.leafSizes.resize(gv.size(0));
  for (const auto& e:elements(gv)) {
    lv.bind(e); auto& I=m.index[mapper.index(e)];
    for (std::size_t i=0;i<lv.size();++i) I.push_back(mi(lv.index(i)));
    m.leafSizes[mapper.index(e)].push_back(lv.tree().finiteElement().size());
  }
  return m;
}

inline void merge(Model& r, const Model& c, IMS ims, std::size_t k, std::size_t n, std::size_t offset)
{
  r.index.resize(c.index.size()); r.leafSizes.resize(c.index.size());
  for (std::size_t e=0;e<c.index.size();++e) {
    for (auto m:c.index[e]) {
      switch (ims) {
        case mBL: m.insert(m.begin(),k); break;
        case mBI: m.push_back(k); break;
        case mFL: m[0]+=offset; break;
        case mFI: m[0]=m[0]*n+k; break;
      }
      r.index[e].push_back(m);
    }
    for (auto s:c.leafSizes[e]) r.leafSizes[e].push_back(s);
  }
}
inline Model mPower(const Model& c, std::size_t n, IMS ims)
{ Model r; auto s=c.rootSize(); for (std::size_t k=0;k<n;++k) merge(r,c,ims,k,n,k*s); return r; }
inline Model mComposite(const std::vector<Model>& c, IMS ims)
{ Model r; std::size_t off=0; for (std::size_t k=0;k<c.size();++k) { merge(r,c[k],ims,k,c.size(),off); off+=c[k].rootSize(); } return r; }

template<class Basis>
std::size_t sizeOf(const Basis& b, const MI& p)
{ typename Basis::SizePrefix s; for (auto d:p) s.push_back(d); return b.size(s); }

// C01: no model of the numbering needed, only the tree property
template<class Basis>
void checkIndexTree(pbt::Gen& g, const Basis& b, bool unique=true)
{
  std::map<MI,std::set<std::size_t>> tree; std::set<MI> full; tree[{}];
  auto lv=b.localView();
  using PB=typename Basis::PreBasis;
  for (const auto& e:elements(b.gridView())) {
    lv.bind(e);
    PBT_CHECK(g, lv.size()<=lv.maxSize(), "local size ", lv.size(), " > maxSize ", lv.maxSize());
    PBT_CHECK(g, lv.size()==lv.tree().size(), "size of the tree");
    std::set<MI> local;
    for (std::size_t i=0;i<lv.size();++i) {
      auto m=mi(lv.index(i));
      PBT_CHECK(g, m.size()>=PB::minMultiIndexSize && m.size()<=PB::maxMultiIndexSize && m.size()<=PB::multiIndexBufferSize, "length of ", str(m));
      PBT_CHECK(g, local.insert(m).second || !unique, "two local DOFs have the multi-index ", str(m));
      full.insert(m);
      MI p; for (auto d:m) { tree[p].insert(d); p.push_back(d); }
    }
  }
  for (auto& [p,c]:tree) {
    PBT_CHECK(g, !full.count(p), "index ", str(p), " is a prefix of another one");
    PBT_CHECK(g, c.empty() || *c.rbegin()+1==c.size(), "the digits below ", str(p), " are not consecutive: ", c.size(), " digits, largest ", *c.rbegin());
    PBT_CHECK(g, sizeOf(b,p)==c.size(), "size(", str(p), ")=", sizeOf(b,p), " but ", c.size(), " digits are used");
  }
  for (auto& m:full) if (m.size()<=Basis::PreBasis::multiIndexBufferSize) PBT_CHECK(g, sizeOf(b,m)==0, "size of the full index ", str(m), " is ", sizeOf(b,m));
  PBT_CHECK(g, b.size()==tree[{}].size(), "size()=", b.size());
  PBT_CHECK(g, b.dimension()==full.size(), "dimension()=", b.dimension(), " but ", full.size(), " multi-indices");
}

// C02
template<class Basis>
void checkNumbering(pbt::Gen& g, const Basis& b, const Model& m)
{
  auto gv=b.gridView(); auto lv=b.localView(); MultipleCodimMultipleGeomTypeMapper mapper(gv,mcmgElementLayout());
  for (const auto& e:elements(gv)) {
    lv.bind(e); auto idx=mapper.index(e); auto& I=m.index[idx];
    PBT_CHECK(g, lv.size()==I.size(), "local size ", lv.size(), " instead of ", I.size());
    for (std::size_t i=0;i<I.size();++i) { auto x=mi(lv.index(i)); PBT_CHECK(g, x==I[i], "local DOF ", i, " has multi-index ", str(x), ", documented ", str(I[i])); }
    std::size_t next=0, leaf=0;
    TypeTree::forEachLeafNode(lv.tree(), [&](auto& node, auto&&) {
      PBT_CHECK(g, leaf<m.leafSizes[idx].size() && node.finiteElement().size()==m.leafSizes[idx][leaf] && node.size()==node.finiteElement().size(), "size of leaf ", leaf);
      for (std::size_t i=0;i<node.size();++i) { PBT_CHECK(g, node.localIndex(i)==next, "local index ", node.localIndex(i), " of DOF ", i, " of leaf ", leaf, ", expected ", next); ++next; }
      ++leaf;
    });
    PBT_CHECK(g, leaf==m.leafSizes[idx].size() && next==lv.size(), "number of leaves");
    PBT_CHECK(g, lv.element()==e, "element");
  }
  auto t=m.children();
  for (auto& [p,c]:t) if (p.size()<=Basis::PreBasis::multiIndexBufferSize) PBT_CHECK(g, sizeOf(b,p)==c.size(), "size(", str(p), ")=", sizeOf(b,p), " instead of ", c.size());
}

#ifdef WITH_CONTAINERS
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/backends/istlvectorfactory.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
namespace CD = Dune::Functions::ContainerDescriptors;

template<class T> struct HasUnknown : std::false_type {};
template<> struct HasUnknown<CD::Unknown> : std::true_type {};
template<class... C> struct HasUnknown<CD::Tuple<C...>> : std::bool_constant<(HasUnknown<C>::value || ...)> {};
template<class C, std::size_t n> struct HasUnknown<CD::Array<C,n>> : HasUnknown<C> {};
template<class C> struct HasUnknown<CD::Vector<C>> : HasUnknown<C> {};
template<class C, std::size_t n> struct HasUnknown<CD::UniformArray<C,n>> : HasUnknown<C> {};
template<class C> struct HasUnknown<CD::UniformVector<C>> : HasUnknown<C> {};

// --- the descriptor against the sizes of the model
using Children = std::map<MI,std::set<std::size_t>>;
template<class D>
void checkDescriptor(pbt::Gen& g, const D& d, const Children& t, MI p)
{
  if constexpr (std::is_same_v<D,CD::Unknown>) return;
  else {
  auto it=t.find(p); PBT_CHECK(g, it!=t.end(), "descriptor has a node ", str(p), " outside of the index tree");
  PBT_CHECK(g, d.size()==it->second.size(), "descriptor node ", str(p), " has size ", d.size(), " instead of ", it->second.size());
  if constexpr (!std::is_same_v<D,CD::Value>) {
    Hybrid::forEach(Hybrid::integralRange(Hybrid::size(d)), [&](auto i) { auto q=p; q.push_back(i); checkDescriptor(g,d[i],t,q); });
  }
  }
}

// --- own recursion over all scalars of a nested container
template<class C, class F>
void forEachScalar(C& c, MI p, F&& f)
{
  if constexpr (requires { c.size(); }) Hybrid::forEach(Hybrid::integralRange(Hybrid::size(c)), [&](auto i) { auto q=p; q.push_back(i); forEachScalar(c[i],q,f); });
  else f(c,p);
}

// every scalar of the container has a multi-index and vice versa
template<class C>
void checkContainer(pbt::Gen& g, C& c, const std::set<MI>& full, double init, const std::string& what)
{
  std::set<MI> seen; std::map<MI,double*> at;
  forEachScalar(c,{},[&](double& x, const MI& p) {
    PBT_CHECK(g, full.count(p), what, ": entry ", str(p), " is no multi-index of the basis");
    PBT_CHECK(g, x==init, what, ": entry ", str(p), " is initialised to ", x, " instead of ", init);
    at[p]=&x;
  });
  PBT_CHECK(g, at.size()==full.size(), what, ": ", at.size(), " scalar entries, ", full.size(), " multi-indices");
  std::set<double*> addr; for (auto& [p,a]:at) addr.insert(a);
  PBT_CHECK(g, addr.size()==at.size(), what, ": entries are not distinct");
}
template<class Basis, class C>
void checkAccess(pbt::Gen& g, const Basis& b, C& c, const std::string& what)
{
  std::map<MI,double*> at; forEachScalar(c,{},[&](double& x, const MI& p) { at[p]=&x; });
  auto v=Functions::istlVectorBackend(c); auto lv=b.localView();
  for (const auto& e:elements(b.gridView())) {
    lv.bind(e);
    for (std::size_t i=0;i<lv.size();++i) {
      double& x=v[lv.index(i)];
      auto it=at.find(mi(lv.index(i)));
      PBT_CHECK(g, it!=at.end() && &x==it->second, what, ": the backend reaches another entry by ", str(mi(lv.index(i))));
    }
  }
}

// a dynamic nested container that can represent any index tree of static depth structure given by the descriptor type
template<class D> struct DynOf;
template<class T> auto dynType(const CD::Value&) -> T;
template<class B, class D>
void checkContainers(pbt::Gen& g, const B& b, const D& d, const Model& m)
{
  auto t=m.children();
  checkDescriptor(g,d,t,{});
  if constexpr (HasUnknown<D>::value) { g.label("descriptor unknown"); }
  else {
    std::set<MI> full; for (auto& e:m.index) for (auto& x:e) full.insert(x);
    double init=g.unit()+2;
    {
      auto c=Functions::makeContainer<double>(d,init);
      checkContainer(g,c,full,init,"makeContainer"); checkAccess(g,b,c,"makeContainer");
      auto c0=Functions::makeContainer<double>(d);
      checkContainer(g,c0,full,0,"makeContainer (default)");
      // resize a damaged copy
      using C=std::decay_t<decltype(c)>;
      if constexpr (requires(C& x) { x.resize(0); }) { if constexpr (requires { typename C::value_type::value_type; } || std::is_same_v<C,std::vector<double>>) {
        C e; if (g.coin()) e.resize(g.below(5));
        auto ve=Functions::istlVectorBackend(e);
        ve.resize(b); ve=init;
        checkContainer(g,e,full,init,"resize"); checkAccess(g,b,e,"resize");
      } }
      else {
        auto ve=Functions::istlVectorBackend(c); ve.resize(b); ve=3.0;
        checkContainer(g,c,full,3.0,"resize of full container");
      }
    }
    {
      auto c=Functions::makeISTLVector<double>(d);
      checkContainer(g,c,full,0,"makeISTLVector"); checkAccess(g,b,c,"makeISTLVector");
      using C=std::decay_t<decltype(c)>;
      if constexpr (std::is_default_constructible_v<C>) {
        if constexpr (requires(C& x) { x.resize(0); }) {
          C e; auto ve=Functions::istlVectorBackend(e);
          ve.resize(b); ve=init;
          checkContainer(g,e,full,init,"resize of ISTL vector"); checkAccess(g,b,e,"resize of ISTL vector");
          ve.resize(b);
          checkContainer(g,e,full,init,"resize to the same size");
        }
      }
    }
  }
}
#endif

struct Params { pbt::Gen& g; std::map<int,int> v; const void* subs[2]={nullptr,nullptr}; template<class S> const S& sub(int k) const { return *static_cast<const S*>(subs[k]); } int operator()(int id, int lo, int hi) { auto it=v.find(id); if (it!=v.end()) return it->second; int x=g.range(lo,hi); g.describe("p"+std::to_string(id)+"="+std::to_string(x)); return v[id]=x; } };

template<class Tree, int dim, FuzzKind kind>
void runTree(pbt::Gen& g)
{
  gen::MeshOptions o; o.maxCells=dim==3?2:4; o.prisms=o.pyramids=Tree::prisms;
  auto grid=gen::grid<dim,dim,kind>(g,o); auto gv=grid->leafGridView();
  g.describe(Tree::name()); g.label(Tree::name());
  Params p{g,{}};
  auto f=Tree::factory(p);
  auto b=BF::makeBasis(gv,f);
  g.nontrivial(gv.size(0)>1);
#if CHECK==1
  checkIndexTree(g,b);
  // same for a basis built directly from the pre-basis, and a copy
  if (g.chance(1,4)) { auto c=b; checkIndexTree(g,c); }
#elif CHECK==2
  checkNumbering(g,b,Tree::model(gv,p));
#elif CHECK==3
  auto m=Tree::model(gv,p);
  checkContainers(g,b,b.containerDescriptor(),m);
#endif
}
#endif
