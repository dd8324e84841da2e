// Periodic bases against the partition computed by breadth-first search.
#include "samebasis.hh"
#include <dune/grid/yaspgrid.hh>
#include <dune/functions/functionspacebases/periodicbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/backends/istlvectorfactory.hh>
#include <dune/functions/backends/containerfactory.hh>
namespace BFE=Dune::Functions::BasisFactory::Experimental;
using Pairs=std::vector<std::pair<std::size_t,std::size_t>>;

// class number of each raw index (by breadth-first search)
static std::vector<std::size_t> classes(std::size_t n, const Pairs& pairs, std::size_t& count)
{
  std::vector<std::vector<std::size_t>> adj(n); for (auto [a,b]:pairs) { adj[a].push_back(b); adj[b].push_back(a); }
  std::vector<std::size_t> c(n,n); count=0;
  for (std::size_t i=0;i<n;++i) if (c[i]==n) { std::vector<std::size_t> q{i}; c[i]=count; while (!q.empty()) { auto j=q.back(); q.pop_back(); for (auto k:adj[j]) if (c[k]==n) { c[k]=count; q.push_back(k); } } ++count; }
  return c;
}
static Pairs randomPairs(pbt::Gen& g, std::size_t n)
{
  Pairs r; int style=g.below(5); int m=g.range(0,int(std::min<std::size_t>(2*n,24)));
  auto I=[&] { return std::size_t(g.below(n)); };
  g.label(std::string("identifications: ")+std::array<const char*,5>{"none or few","random","chain","star","duplicates and loops"}[style]);
  if (style==0) { m=std::min(m,2); for (int k=0;k<m;++k) r.push_back({I(),I()}); }
  else if (style==1) for (int k=0;k<m;++k) r.push_back({I(),I()});
  else if (style==2) { auto a=I(); for (int k=0;k<m;++k) { auto b=I(); r.push_back({a,b}); a=b; } }
  else if (style==3) { auto a=I(); for (int k=0;k<m;++k) { auto b=I(); if (g.coin()) r.push_back({a,b}); else r.push_back({b,a}); } }
  else { for (int k=0;k<m;++k) { if (!r.empty() && g.chance(1,3)) { auto p=r[g.below(r.size())]; if (g.coin()) std::swap(p.first,p.second); r.push_back(p); } else if (g.chance(1,4)) { auto a=I(); r.push_back({a,a}); } else r.push_back({I(),I()}); } }
  return r;
}
static BFE::PeriodicIndexSet indexSet(pbt::Gen& g, Pairs pairs, bool shuffle)
{
  BFE::PeriodicIndexSet s;
  if (shuffle) for (std::size_t i=pairs.size();i>1;--i) { std::swap(pairs[i-1],pairs[g.below(i)]); if (g.coin()) std::swap(pairs[0].first,pairs[0].second); }
  for (auto [a,b]:pairs) s.unifyIndexPair(a,b);
  return s;
}

// block(m) removes the digits that do not belong to the periodic index
template<class Raw, class Basis>
void checkQuotient(pbt::Gen& g, const Raw& raw, const Basis& b, const std::vector<std::size_t>& cls, std::size_t count)
{
  PBT_CHECK(g, b.dimension()==count, "dimension ", b.dimension(), " instead of ", count);
  PBT_CHECK(g, b.size()==count, "size ", b.size(), " instead of ", count);
  PBT_CHECK(g, &b.gridView().indexSet()==&raw.gridView().indexSet(), "grid view");
  std::string d; describeDescriptor(b.containerDescriptor(),d);
  PBT_CHECK(g, d=="?" || d=="("+std::to_string(count)+(count?":.)":":)"), "container descriptor ", d, " for ", count, " indices");
  auto x=b.localView(); auto y=raw.localView();
  PBT_CHECK(g, x.maxSize()==y.maxSize(), "maxSize");
  std::map<std::size_t,std::size_t> toClass, toIndex;
  for (const auto& e:elements(b.gridView())) {
    x.bind(e); y.bind(e);
    PBT_CHECK(g, x.size()==y.size(), "local size");
    for (std::size_t i=0;i<x.size();++i) {
      auto mx=mi(x.index(i)), my=mi(y.index(i));
      PBT_CHECK(g, mx.size()==1 && mx[0]<count, "index ", str(mx));
      auto c=cls.at(my[0]);
      auto [it,ins]=toClass.insert({mx[0],c}); PBT_CHECK(g, it->second==c, "index ", mx[0], " belongs to DOFs that are not identified");
      auto [jt,jns]=toIndex.insert({c,mx[0]}); PBT_CHECK(g, jt->second==mx[0], "identified DOFs have indices ", jt->second, " and ", mx[0]);
    }
    std::vector<std::size_t> sx, sy;
    TypeTree::forEachLeafNode(x.tree(),[&](auto& n, auto&&) { sx.push_back(n.size()); for (std::size_t i=0;i<n.size();++i) sx.push_back(n.localIndex(i)); });
    TypeTree::forEachLeafNode(y.tree(),[&](auto& n, auto&&) { sy.push_back(n.size()); for (std::size_t i=0;i<n.size();++i) sy.push_back(n.localIndex(i)); });
    PBT_CHECK(g, sx==sy, "tree differs");
  }
  PBT_CHECK(g, toClass.size()==count, "not all indices are used");
  for (std::size_t i=0;i<std::min<std::size_t>(count,4);++i) PBT_CHECK(g, sizeOf(b,{i})==0, "size of a leaf");
  checkIndexTree(g,b,false);
}

template<class Grid, class Factory>
void runOn(pbt::Gen& g, const Grid& grid, const Factory& f, bool blocked=true)
{
  auto gv=grid.leafGridView(); using GV=decltype(gv);
  auto raw=BF::makeBasis(gv,f);
  auto pairs=randomPairs(g,raw.dimension());
  std::size_t count; auto cls=classes(raw.dimension(),pairs,count);
  { std::ostringstream s; s << raw.dimension() << " DOFs, identify"; for (auto [a,b]:pairs) s << " " << a << "=" << b; g.describe(s.str()); }
  g.nontrivial(count<raw.dimension());
  auto set=indexSet(g,pairs,false);
  auto b=BF::makeBasis(gv,BFE::periodic(f,set));
  checkQuotient(g,raw,b,cls,count);
  switch (g.below(5)) {
    case 0: { auto c=BF::makeBasis(gv,BFE::periodic(raw,set)); sameBasis(g,c,b,"made from a basis"); break; }
    case 1: { auto c=BF::makeBasis(gv,BFE::periodic(raw.preBasis(),set)); sameBasis(g,c,b,"made from a pre-basis"); break; }
    case 2: { auto c=BF::makeBasis(gv,BFE::periodic(f,indexSet(g,pairs,true))); checkQuotient(g,raw,c,cls,count); break; }
    case 3: { // all pairs of the transitive closure
      Pairs all; for (std::size_t i=0;i<cls.size();++i) for (std::size_t j=0;j<i;++j) if (cls[i]==cls[j] && all.size()<500) all.push_back({j,i});
      if (all.size()<500) { auto c=BF::makeBasis(gv,BFE::periodic(f,indexSet(g,all,true))); checkQuotient(g,raw,c,cls,count); }
      break; }
    case 4: { auto c=b; b=c; c.update(gv); checkQuotient(g,raw,c,cls,count); checkQuotient(g,raw,b,cls,count); break; }
  }
  { // containers
    auto v=Functions::makeContainer<double>(b.containerDescriptor()); PBT_CHECK(g, std::size_t(v.size())==count, "makeContainer has size ", v.size());
    auto w=Functions::makeISTLVector<double>(b.containerDescriptor()); PBT_CHECK(g, w.dim()==count, "makeISTLVector has size ", w.dim());
  }
  // as a child of other bases
  if (blocked) {
    auto pf=BFE::periodic(f,set);
    
    auto check=[&](const auto& c, const MI& digits, int where, int comps, std::size_t perComp, const char* what) {
      (void)digits; (void)where;
      PBT_CHECK(g, c.dimension()==perComp*comps, what, ": dimension ", c.dimension());
      checkIndexTree(g,c,false);
    };
    auto c1=BF::makeBasis(gv,BF::power<2>(pf,BF::blockedInterleaved())); check(c1,{},0,2,count,"blocked power");
    auto c2=BF::makeBasis(gv,BF::power<2>(pf,BF::flatInterleaved())); check(c2,{},0,2,count,"flat power");
    auto c3=BF::makeBasis(gv,BF::power(pf,3,BF::flatLexicographic())); check(c3,{},0,3,count,"lexicographic power");
    auto c4=BF::makeBasis(gv,BF::composite(pf,BF::lagrange<1>(),BF::blockedLexicographic()));
    PBT_CHECK(g, c4.dimension()==count+gv.size(GV::dimension), "composite: dimension"); checkIndexTree(g,c4,false);
    auto lv=c2.localView(), l3=c3.localView(); auto y=b.localView();
    for (const auto& e:elements(gv)) {
      lv.bind(e); l3.bind(e); y.bind(e);
      for (std::size_t k=0;k<2;++k) for (std::size_t i=0;i<y.size();++i) {
        auto m=mi(lv.index(lv.tree().child(k).localIndex(0)-0+i)); 
        PBT_CHECK(g, m==(MI{mi(y.index(i))[0]*2+k}), "flat power of a periodic basis: index ", str(m));
      }
      for (std::size_t k=0;k<3;++k) for (std::size_t i=0;i<y.size();++i) PBT_CHECK(g, mi(l3.index(k*y.size()+i))==(MI{mi(y.index(i))[0]+k*count}), "lexicographic power of a periodic basis");
    }
  }
}
template<int dim, FuzzKind kind, class F>
void run(pbt::Gen& g, const F& f, bool scalar=true)
{
  gen::MeshOptions o; o.maxCells=dim==3?2:5;
  auto grid=gen::grid<dim,dim,kind>(g,o);
  runOn(g,*grid,f,scalar);
}
#if PART==1
PROPERTY(p1_1d, 1000) { run<1,FuzzKind::simplex>(g,BF::lagrange<1>()); }
PROPERTY(p1_mixed, 500) { run<2,FuzzKind::mixed>(g,BF::lagrange<1>()); }
PROPERTY(p3_triangles, 300) { run<2,FuzzKind::simplex>(g,BF::lagrange<3>()); }
#elif PART==2
PROPERTY(dg_mixed, 300) { run<2,FuzzKind::mixed>(g,BF::lagrangeDG<1>()); }
PROPERTY(p2_3d, 200) { run<3,FuzzKind::mixed>(g,BF::lagrange<2>()); }
PROPERTY(runtime_order, 300) { run<2,FuzzKind::mixed>(g,BF::lagrange(g.range(1,2))); }
#else
template<int dim, FuzzKind kind, class F>
void runFlat(pbt::Gen& g, const F& f)
{
  gen::MeshOptions o; o.maxCells=4;
  auto grid=gen::grid<dim,dim,kind>(g,o);
  runOn(g,*grid,f,false);
}
PROPERTY(flat_power, 300) { runFlat<2,FuzzKind::mixed>(g,BF::power<2>(BF::lagrange<1>(),BF::flatInterleaved())); }
PROPERTY(flat_composite, 300) { runFlat<2,FuzzKind::simplex>(g,BF::composite(BF::power<2>(BF::lagrange<2>(),BF::flatLexicographic()),BF::lagrange<1>(),BF::flatLexicographic())); }
// the torus: opposite sides of a structured grid are identified by position
PROPERTY(torus, 500)
{
  std::array<int,2> n{int(g.range(1,4)),int(g.range(1,4))}; bool px=g.coin(), py=g.coin();
  YaspGrid<2> grid({1.0,1.0},n); auto gv=grid.leafGridView(); const auto& is=gv.indexSet();
  auto eq=[](double a, double b) { return std::abs(a-b)<1e-9; };
  BFE::PeriodicIndexSet set; Pairs pairs;
  bool direct=g.coin();   // only pairs of one direction, or all of them
  for (auto& v:vertices(gv)) for (auto& w:vertices(gv)) {
    auto a=v.geometry().corner(0), b=w.geometry().corner(0);
    bool sx=eq(a[0],b[0]), sy=eq(a[1],b[1]), tx=px && eq(std::abs(a[0]-b[0]),1), ty=py && eq(std::abs(a[1]-b[1]),1);
    if ((tx && sy) || (ty && sx) || (!direct && tx && ty)) { pairs.push_back({is.index(v),is.index(w)}); set.unifyIndexPair(is.index(v),is.index(w)); }
  }
  std::size_t count; auto raw=BF::makeBasis(gv,BF::lagrange<1>()); auto cls=classes(raw.dimension(),pairs,count);
  g.nontrivial(px||py); g.label(direct?"opposite points only":"all pairs"); { std::ostringstream s; s << n[0] << "x" << n[1] << (px?" periodic in x":"") << (py?" periodic in y":""); g.describe(s.str()); }
  PBT_CHECK(g, count==std::size_t(px?n[0]:n[0]+1)*std::size_t(py?n[1]:n[1]+1), "harness");
  auto b=BF::makeBasis(gv,BFE::periodic(BF::lagrange<1>(),set));
  checkQuotient(g,raw,b,cls,count);
}
#endif
#include "main.hh"
