// Sub-domains: index set, grid view, interface and skeleton against sets of elements.
#include "config.h"
#include "pbt.hh"
#include "util.hh"
#include "meshgen.hh"
#include <dune/grid/yaspgrid.hh>
#include <dune/grid/onedgrid.hh>
#include <dune/grid/common/mcmgmapper.hh>
#include <dune/functions/common/subdomain.hh>
using namespace Dune; namespace FE_=Dune::Functions::Experimental;
using EntityId=std::pair<int,std::size_t>;   // codimension, number by a mapper of the host grid view

template<class GV> struct Ref {
  GV gv; MultipleCodimMultipleGeomTypeMapper<GV> mapper;
  std::vector<typename GV::template Codim<0>::Entity> es;
  Ref(const GV& v) : gv(v), mapper(v,[](GeometryType, int) { return 1; }) { for (const auto& e:elements(gv)) es.push_back(e); }
  template<class E> EntityId id(const E& e, int i, int c) const { return {c,mapper.subIndex(e,i,c)}; }
};
// in: numbers of the elements that were inserted
template<class GV, class SD>
void checkSubDomain(pbt::Gen& g, const Ref<GV>& ref, const SD& sub, const std::set<std::size_t>& in, std::map<EntityId,std::size_t>* stable=nullptr)
{
  constexpr int dim=GV::dimension;
  auto sgv=sub.gridView(); const auto& is=sub.indexSet();
  PBT_CHECK(g, &sgv.indexSet()==&is && &sgv.grid()==&ref.gv.grid(), "grid view of a sub-domain");
  std::map<EntityId,GeometryType> contained;
  for (auto k:in) { const auto& e=ref.es[k]; auto re=referenceElement(e); for (int c=0;c<=dim;++c) for (int i=0;i<re.size(c);++i) contained[ref.id(e,i,c)]=re.type(i,c); }
  std::map<GeometryType,std::set<std::size_t>> used; std::array<std::set<EntityId>,dim+1> perCodim; std::array<std::set<GeometryType>,dim+1> types;
  for (auto& [id,t]:contained) { perCodim[id.first].insert(id); types[id.first].insert(t); }
  std::map<EntityId,std::size_t> number;
  for (const auto& e:ref.es) {
    auto re=referenceElement(e);
    Hybrid::forEach(std::make_index_sequence<dim+1>{}, [&](auto cc) {
      constexpr int c=cc;
      for (int i=0;i<re.size(c);++i) {
        auto id=ref.id(e,i,c); bool has=contained.count(id);
        auto s=e.template subEntity<c>(i);
        PBT_CHECK(g, is.contains(s)==has && sgv.contains(s)==has, "contains() of an entity of codimension ", c);
        if (has) {
          auto n=is.subIndex(e,i,c);
          PBT_CHECK(g, is.index(s)==n && is.template index<c>(s)==n && is.template subIndex<0>(e,i,c)==n, "index and subIndex differ");
          auto [it,ins]=number.insert({id,n}); PBT_CHECK(g, it->second==n, "an entity of codimension ", c, " has two indices");
          used[s.type()].insert(n);
        }
        else {
          bool a=false, b=false;
          try { is.index(s); } catch (const InvalidStateException&) { a=true; }
          try { is.subIndex(e,i,c); } catch (const InvalidStateException&) { b=true; }
          PBT_CHECK(g, a && b, "the index of an entity of codimension ", c, " that is not contained is given");
        }
      }
    });
    if constexpr (requires { sub.contains(e); }) PBT_CHECK(g, sub.contains(e)==bool(contained.count(ref.id(e,0,0))), "SubDomain::contains");
  }
  std::map<GeometryType,std::size_t> count; for (auto& [id,t]:contained) ++count[t];
  for (auto& [t,s]:used) PBT_CHECK(g, s.size()==count[t] && *s.rbegin()+1==s.size(), "indices of type ", t, " are not consecutive");
  for (int d=0;d<=dim;++d) for (unsigned id=0;id<(1u<<d);++id) { GeometryType t(id,d); PBT_CHECK(g, std::size_t(is.size(t))==(count.count(t)?count[t]:0) && std::size_t(sgv.size(t))==is.size(t), "size(", t, ")=", is.size(t)); }
  for (int c=0;c<=dim;++c) {
    PBT_CHECK(g, is.size(c)==perCodim[c].size() && std::size_t(sgv.size(c))==is.size(c), "size(", c, ")=", is.size(c));
    auto t=is.types(c); PBT_CHECK(g, t.size()==types[c].size() && std::set<GeometryType>(t.begin(),t.end())==types[c], "types(", c, ")");
  }
  // iteration
  std::vector<std::size_t> visited, expected;
  for (const auto& e:ref.es) if (contained.count(ref.id(e,0,0))) expected.push_back(ref.mapper.index(e));
  for (const auto& e:elements(sgv)) visited.push_back(ref.mapper.index(e));
  PBT_CHECK(g, visited==expected, "elements(): ", visited.size(), " instead of ", expected.size());
  visited.clear(); for (const auto& e:elements(sgv,Partitions::all)) visited.push_back(ref.mapper.index(e)); PBT_CHECK(g, visited==expected, "elements(all)");
  visited.clear(); for (const auto& e:elements(sgv,Partitions::interior)) visited.push_back(ref.mapper.index(e));
  { std::vector<std::size_t> ex; for (const auto& e:ref.es) if (e.partitionType()==InteriorEntity && contained.count(ref.id(e,0,0))) ex.push_back(ref.mapper.index(e)); PBT_CHECK(g, visited==ex, "elements(interior)"); }
  visited.clear(); for (auto it=sgv.template begin<0>(), end=sgv.template end<0>(); it!=end; ++it) { auto jt=it; visited.push_back(ref.mapper.index(*jt)); } PBT_CHECK(g, visited==expected, "begin() and end()");
  // a sub-domain grid view is the usual thing for mappers
  for (const auto& e:elements(sgv)) { int n=0, m=0; for (const auto& s:intersections(sgv,e)) { PBT_CHECK(g, s.inside()==e, "intersections"); ++n; } for ([[maybe_unused]] const auto& s:intersections(ref.gv,e)) ++m; PBT_CHECK(g, n==m, "number of intersections"); }
  if (stable) { for (auto& [id,n]:*stable) PBT_CHECK(g, number.at(id)==n, "inserting an element changed the index of another entity"); *stable=number; }
}
template<class GV, class A, class B>
void checkInterface(pbt::Gen& g, const Ref<GV>& ref, const A& a, const B& b, const std::set<std::size_t>& inA, const std::set<std::size_t>& inB)
{
  std::map<std::size_t,std::size_t> pos; for (std::size_t k=0;k<ref.es.size();++k) pos[ref.mapper.index(ref.es[k])]=k;
  auto has=[&](const std::set<std::size_t>& s, const auto& e) { return s.count(pos.at(ref.mapper.index(e)))>0; };
  using Key=std::tuple<std::size_t,std::size_t,int>;
  auto key=[&](const auto& is) { return Key{ref.mapper.index(is.inside()),is.neighbor()?ref.mapper.index(is.outside()):999999,is.indexInInside()}; };
  FE_::SubDomainInterface iface(a,b); FE_::SubDomainSkeleton skel(a);
  std::vector<Key> expected, visited;
  for (const auto& e:ref.es) for (const auto& is:intersections(ref.gv,e)) {
    bool nb=is.neighbor();
    bool oriented=nb && has(inA,is.inside()) && has(inB,is.outside());
    bool either=oriented || (nb && has(inB,is.inside()) && has(inA,is.outside()));
    if (oriented) expected.push_back(key(is));
    PBT_CHECK(g, iface.contains(is)==either, "SubDomainInterface::contains");
    if (either) PBT_CHECK(g, iface.isOriented(is)==oriented, "SubDomainInterface::isOriented");
    PBT_CHECK(g, skel.contains(is)==(nb && has(inA,is.inside()) && has(inA,is.outside())), "SubDomainSkeleton::contains");
  }
  for (const auto& is:iface) visited.push_back(key(is));
  PBT_CHECK(g, visited.size()==expected.size(), "the interface has ", visited.size(), " intersections instead of ", expected.size());
  auto sorted=[](auto v) { std::sort(v.begin(),v.end()); return v; };
  PBT_CHECK(g, sorted(visited)==sorted(expected), "the interface visits other intersections");
  // stepwise with copies of the iterator
  std::vector<Key> again;
  auto it=iface.begin(); auto copy=it; const auto end=iface.end();
  for (; it!=end; ++it) { again.push_back(key(*it)); auto c=it; PBT_CHECK(g, c==it, "copy of an interface iterator"); if (!(c==end)) { ++c; PBT_CHECK(g, (c!=it), "advanced interface iterator"); } PBT_CHECK(g, key(*it)==again.back(), "a copy shares state with the iterator"); }
  PBT_CHECK(g, again==visited, "second traversal");
  if (!(copy==end)) PBT_CHECK(g, key(*copy)==visited[0], "the first iterator moved");
}
template<class Grid> void runOn(pbt::Gen& g, const Grid& grid)
{
  auto gv=grid.leafGridView(); using GV=decltype(gv); Ref<GV> ref(gv);
  std::size_t n=ref.es.size();
  FE_::SubDomain<GV> a(gv), b(gv); std::set<std::size_t> inA, inB;
  std::map<EntityId,std::size_t> stable;
  int density=g.range(1,3);
  checkSubDomain(g,ref,a,inA,&stable);
  int steps=0;
  for (auto k:g.permutation(n)) if (g.chance(density,4)) {
    a.insertElement(ref.es[k]); inA.insert(k);
    if (g.chance(1,6)) a.insertElement(ref.es[k]);
    if (steps++<2 || g.chance(1,6)) checkSubDomain(g,ref,a,inA,&stable);
  }
  for (std::size_t k=0;k<n;++k) if (g.coin()) { b.insertElement(ref.es[k]); inB.insert(k); }
  g.nontrivial(!inA.empty() && inA.size()<n); g.label(inA.empty()?"empty":inA.size()==n?"everything":"part");
  checkSubDomain(g,ref,a,inA,&stable); checkSubDomain(g,ref,b,inB);
  checkInterface(g,ref,a,b,inA,inB); checkInterface(g,ref,b,a,inB,inA); checkInterface(g,ref,a,a,inA,inA);
  { auto c=a; checkSubDomain(g,ref,c,inA); }
}
template<int dim, FuzzKind kind> void fuzz(pbt::Gen& g)
{ gen::MeshOptions o; o.maxCells=dim==3?3:6; o.prisms=o.pyramids=true; auto grid=gen::grid<dim,dim,kind>(g,o); runOn(g,*grid); }
PROPERTY(lines, 1500) { fuzz<1,FuzzKind::simplex>(g); }
PROPERTY(triangles, 1000) { fuzz<2,FuzzKind::simplex>(g); }
PROPERTY(mixed_2d, 1500) { fuzz<2,FuzzKind::mixed>(g); }
PROPERTY(mixed_3d, 600) { fuzz<3,FuzzKind::mixed>(g); }
PROPERTY(tetrahedra, 300) { fuzz<3,FuzzKind::simplex>(g); }
PROPERTY(yasp_2d, 500) { std::array<int,2> n{int(g.range(1,3)),int(g.range(1,3))}; YaspGrid<2> grid({1.0,1.0},n); g.describe("YaspGrid "+std::to_string(n[0])+"x"+std::to_string(n[1])); if (g.chance(1,3)) { grid.globalRefine(1); } runOn(g,grid); }
PROPERTY(oned, 500) {
  OneDGrid grid(g.range(1,4),0.0,1.0);
  for (int r=g.range(0,2);r-->0;) { for (const auto& e:elements(grid.leafGridView())) if (g.coin()) grid.mark(1,e); grid.preAdapt(); grid.adapt(); grid.postAdapt(); }
  runOn(g,grid);
}
#include "main.hh"
