// Bases built from a finite element and a layout of degrees of freedom.
#include "samebasis.hh"
#include <dune/localfunctions/lagrange/lagrangesimplex.hh>
#include <dune/localfunctions/lagrange/lagrangecube.hh>
#include <dune/localfunctions/lagrange/p0.hh>
#include <dune/localfunctions/refined.hh>
#include <dune/functions/functionspacebases/lfeprebasismixin.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/common/mapperutilities.hh>
namespace F=Dune::Functions;
struct Layout { std::map<std::pair<int,unsigned>,int> n; int operator()(GeometryType t, int dim) const { auto it=n.find({dim-int(t.dim()),t.id()>>1}); return it==n.end()?0:it->second; } };
// a finite element of a given element type with the degrees of freedom of a layout, in random order
template<int dim> struct TestFE
{
  struct LB { using Traits=LocalBasisTraits<double,dim,FieldVector<double,dim>,double,1,FieldVector<double,1>,FieldMatrix<double,1,dim>>; std::size_t n=0; std::size_t size() const { return n; } unsigned order() const { return 0; }
    void evaluateFunction(const typename Traits::DomainType&, std::vector<typename Traits::RangeType>& v) const { v.assign(n,1); } void evaluateJacobian(const typename Traits::DomainType&, std::vector<typename Traits::JacobianType>& v) const { v.assign(n,typename Traits::JacobianType(0)); } };
  struct LC { std::vector<LocalKey> k; std::size_t size() const { return k.size(); } const LocalKey& localKey(std::size_t i) const { return k[i]; } };
  struct LI { std::size_t n=0; template<class Fn,class C> void interpolate(const Fn&, std::vector<C>& c) const { c.assign(n,0); } };
  using Traits=LocalFiniteElementTraits<LB,LC,LI>; GeometryType t; LB lb; LC lc; LI li;
  TestFE(pbt::Gen& g, GeometryType type, const Layout& l) : t(type) { auto re=referenceElement<double,dim>(t); std::vector<LocalKey> k; for (int c=0;c<=dim;++c) for (int i=0;i<re.size(c);++i) for (int j=0;j<l(re.type(i,c),dim);++j) k.push_back(LocalKey(i,c,j)); for (auto i:g.permutation(k.size())) lc.k.push_back(k[i]); lb.n=li.n=k.size(); }
  const LB& localBasis() const { return lb; } const LC& localCoefficients() const { return lc; } const LI& localInterpolation() const { return li; } std::size_t size() const { return lb.n; } GeometryType type() const { return t; }
};
template<int dim> Layout layout(pbt::Gen& g)
{
  Layout l; std::ostringstream s; s << "layout"; for (int c=0;c<=dim;++c) { int b=g.below(3); if (g.chance(1,3)) b=0; for (unsigned id=0;id<=(c==dim?0u:c==0&&dim==3?3u:dim-c==2?1u:c==0&&dim==2?1u:0u);++id) { l.n[{c,id}]=g.chance(1,4)?int(g.below(4)):b; s << " " << c << "/" << id << ":" << l.n[{c,id}]; } } g.describe(s.str()); return l;
}
// a pre-basis for grids with several element types
template<class GV> struct MixedPreBasis : F::LeafPreBasisMapperMixin<GV>
{
  static constexpr int dim=GV::dimension; using FE=TestFE<dim>; std::map<unsigned,FE> fes;
  MixedPreBasis(const GV& gv, const Layout& l, std::map<unsigned,FE> f) : F::LeafPreBasisMapperMixin<GV>(gv,l), fes(std::move(f)) {}
  struct Node : F::LeafBasisNode { using Element=typename GV::template Codim<0>::Entity; using FiniteElement=FE; using size_type=std::size_t; const std::map<unsigned,FE>* m; const Element* e=nullptr; const FE* fe=nullptr; Node(const std::map<unsigned,FE>* x) : m(x) {}
    const Element& element() const { return *e; } const FE& finiteElement() const { return *fe; } void bind(const Element& x) { e=&x; fe=&m->at(x.type().id()>>1); this->setSize(fe->size()); } };
  Node makeNode() const { return Node(&fes); }
};
// numbering of a flat basis against the mesh: f maps the mixin's index to the basis' index
template<class Basis, class Leaf, class Map> void checkNumbering(pbt::Gen& g, const Basis& basis, const Layout& l, Leaf&& leaf, Map&& map, const std::string& what)
{
  constexpr int dim=Basis::GridView::dimension; const auto& mesh=basis.gridView().grid().mesh();
  std::map<std::tuple<int,unsigned>,std::size_t> first; std::set<std::size_t> used; std::size_t total=0; auto lv=basis.localView();
  for (int c=0;c<=dim;++c) for (auto& e:mesh.ent[c]) total+=l(e.type,dim);
  for (const auto& e:elements(basis.gridView())) {
    lv.bind(e); const auto& node=leaf(lv.tree()); const auto& lc=node.finiteElement().localCoefficients();
    PBT_CHECK(g, node.size()==lc.size() && lv.size()<=lv.maxSize(), what, ": local size ", lv.size(), " with maxSize ", lv.maxSize());
    for (std::size_t i=0;i<node.size();++i) {
      auto k=lc.localKey(i); std::size_t I=map(mi(lv.index(node.localIndex(i)))); unsigned s=mesh.sub[e.impl().pos()][k.codim()][k.subEntity()];
      PBT_CHECK(g, I<total, what, ": index ", I, " of ", total); PBT_CHECK(g, I>=k.index(), what, ": index ", I, " of DOF ", k.index(), " of its entity");
      auto [it,isNew]=first.insert({{int(k.codim()),s},I-k.index()}); PBT_CHECK(g, it->second==I-k.index(), what, ": DOF ", k.index(), " of entity ", s, " of codimension ", k.codim(), " has index ", I, ", but its first DOF has index ", it->second);
      if (isNew) for (int j=0;j<l(mesh.ent[k.codim()][s].type,dim);++j) PBT_CHECK(g, used.insert(it->second+j).second, what, ": index ", it->second+j, " is used by several entities");
    }
  }
  PBT_CHECK(g, used.size()==total && (used.empty() || *used.rbegin()==total-1), what, ": ", used.size(), " of ", total, " indices are used");
  return;
}
template<class Basis> std::size_t entityTotal(const Basis& b, const Layout& l) { std::size_t n=0; for (int c=0;c<=Basis::GridView::dimension;++c) for (auto& e:b.gridView().grid().mesh().ent[c]) n+=l(e.type,Basis::GridView::dimension); return n; }
auto self=[](const auto& t) -> const auto& { return t; };
template<int dim, FuzzKind kind> void run(pbt::Gen& g)
{
  gen::MeshOptions o; o.maxCells=dim==3?2:5; o.prisms=o.pyramids=true;
  auto grid=gen::grid<dim,dim,kind>(g,o); auto gv=grid->leafGridView(); using GV=decltype(gv); g.nontrivial(gv.size(0)>1);
  auto l=layout<dim>(g); std::map<unsigned,TestFE<dim>> fes; for (unsigned id=0;id<(1u<<(dim-1));++id) fes.emplace(id,TestFE<dim>(g,GeometryType(2*id,dim),l));
  if (kind==FuzzKind::simplex) fes.emplace(0,TestFE<dim>(g,GeometryTypes::simplex(dim),l));
  auto flat=[](const MI& m) { return m.at(0); };
  auto go=[&](const auto& factory) {
    auto b=BF::makeBasis(gv,factory); auto p=BF::makeBasis(gv,BF::power<2>(factory,BF::blockedInterleaved())); auto q=BF::makeBasis(gv,BF::composite(BF::lagrange<1>(),BF::power(factory,3,BF::flatLexicographic()),BF::blockedLexicographic()));
    auto check=[&](const std::string& w) {
      auto n=entityTotal(b,l); PBT_CHECK(g, b.dimension()==n && b.size()==n, w, ": dimension ", b.dimension(), " instead of ", n);
      checkNumbering(g,b,l,self,flat,w); PBT_CHECK(g, p.dimension()==2*n && p.size()==n, w, ": power: dimension ", p.dimension());
      for (int k=0;k<2;++k) checkNumbering(g,p,l,[&](auto& t) -> const auto& { return t.child(k); },[&](const MI& m) { PBT_CHECK(g, m.size()==2 && m[1]==std::size_t(k), "power: index"); return m[0]; },w+": power");
      for (int k=0;k<3;++k) checkNumbering(g,q,l,[&](auto& t) -> const auto& { return t.child(Indices::_1).child(k); },[&](const MI& m) { PBT_CHECK(g, m.size()==2 && m[0]==1 && m[1]>=k*n, "composite: index"); return m[1]-k*n; },w+": composite");
      const auto& e=*elements(gv).begin(); auto lv=b.localView(); lv.bind(e); auto copy=lv; PBT_CHECK(g, &copy.tree().finiteElement()==&lv.tree().finiteElement(), w, ": copied view"); if (gv.indexSet().types(0).size()==1) { std::size_t max=0; for (const auto& x:elements(gv)) { lv.bind(x); max=std::max(max,std::size_t(lv.size())); } PBT_CHECK(g, lv.maxSize()==max, w, ": maxSize ", lv.maxSize(), " instead of ", max); }
    };
    check("new"); int steps=g.range(0,2); for (int s=0;s<steps;++s) { if (g.coin()) grid->setMesh(gen::mesh<dim,dim>(g,kind,o)); gv=grid->leafGridView(); b.update(gv); p.update(gv); q.update(gv); check("after update"); if (g.coin()) { auto c=b; b=std::move(c); check("copy"); } }
  };
  if constexpr (kind==FuzzKind::mixed) go([=](const auto& v) { return MixedPreBasis<GV>(v,l,fes); });
  else { unsigned id=GeometryType(kind==FuzzKind::cube?GeometryTypes::cube(dim):GeometryTypes::simplex(dim)).id()>>1; auto fe=fes.at(id); if (g.coin()) go([=](const auto& v) { return F::LFEPreBasisMixin(v,fe,l); }); else go([=](const auto& v) { return F::LFEPreBasisMixin<GV,TestFE<dim>>(v,TestFE<dim>(fe),l); }); }
}
// the same space in two ways
template<class LFE, int dim, FuzzKind kind, class Other> void same(pbt::Gen& g, const Other& other, Layout l)
{
  gen::MeshOptions o; o.maxCells=dim==3?2:5; auto grid=gen::grid<dim,dim,kind>(g,o); auto gv=grid->leafGridView(); using GV=decltype(gv); g.nontrivial(gv.size(0)>1); g.describe("other basis");
  F::DefaultGlobalBasis<F::LFEPreBasisMixin<GV,LFE>> b(gv,l); auto c=BF::makeBasis(gv,other); sameBasis(g,b,c,"new"); if (g.coin()) grid->setMesh(gen::mesh<dim,dim>(g,kind,o)); gv=grid->leafGridView(); b.update(gv); c.update(gv); sameBasis(g,b,c,"after update");
}
template<int dim> Layout verts() { Layout l; l.n[{dim,0}]=1; return l; }
template<int dim> Layout elems(int n) { Layout l; l.n[{0,0}]=n; l.n[{0,(1u<<(dim-1))-1}]=n; return l; }
template<int dim> Layout p2() { Layout l=verts<dim>(); if (dim==1) l.n[{0,0}]=1; else l.n[{dim-1,0}]=1; return l; }
// helpers built on the mapper
template<int dim, FuzzKind kind> void utilities(pbt::Gen& g)
{
  gen::MeshOptions o; o.maxCells=dim==3?2:5; o.prisms=o.pyramids=true; o.affine=true; auto grid=gen::grid<dim,dim,kind>(g,o); auto gv=grid->leafGridView(); const auto& mesh=grid->mesh(); g.nontrivial(gv.size(0)>1); auto l=layout<dim>(g);
  MultipleCodimMultipleGeomTypeMapper mapper(gv,l);
  for (const auto& e:elements(gv)) {
    auto fe=TestFE<dim>(g,e.type(),l); auto r=F::subIndexRange(mapper,e,fe.localCoefficients()); std::size_t k=0; for (auto i:r) { auto key=fe.localCoefficients().localKey(k++); PBT_CHECK(g, std::size_t(i)==mapper.subIndex(e,key.subEntity(),key.codim())+key.index(), "subIndexRange entry ", k-1); } PBT_CHECK(g, k==fe.size() && r.size()==k, "size of subIndexRange");
  }
}
#if PART==1
PROPERTY(simplex_1d,800) { run<1,FuzzKind::simplex>(g); }
PROPERTY(simplex_2d,800) { run<2,FuzzKind::simplex>(g); }
PROPERTY(cube_2d,800) { run<2,FuzzKind::cube>(g); }
PROPERTY(utilities_1d,500) { utilities<1,FuzzKind::simplex>(g); }
PROPERTY(utilities_2d,500) { utilities<2,FuzzKind::mixed>(g); }
#elif PART==2
PROPERTY(simplex_3d,200) { run<3,FuzzKind::simplex>(g); }
PROPERTY(cube_3d,300) { run<3,FuzzKind::cube>(g); }
PROPERTY(utilities_3d,300) { utilities<3,FuzzKind::mixed>(g); }
#elif PART==3
PROPERTY(mixed_2d,1000) { run<2,FuzzKind::mixed>(g); }
PROPERTY(mixed_3d,300) { run<3,FuzzKind::mixed>(g); }
#else
PROPERTY(same_q1_2d,300) { same<LagrangeCubeLocalFiniteElement<double,double,2,1>,2,FuzzKind::cube>(g,BF::lagrange<1>(),verts<2>()); }
PROPERTY(same_q1,200) { same<LagrangeCubeLocalFiniteElement<double,double,3,1>,3,FuzzKind::cube>(g,BF::lagrange<1>(),verts<3>()); }
PROPERTY(same_p0,300) { same<LagrangeSimplexLocalFiniteElement<double,double,2,0>,2,FuzzKind::simplex>(g,BF::lagrange<0>(),elems<2>(1)); }
PROPERTY(same_refinedp0,300) { same<RefinedP0LocalFiniteElement<double,double,2>,2,FuzzKind::simplex>(g,BF::refinedLagrange<0>(),elems<2>(4)); }
PROPERTY(same_refinedp1,300) { same<RefinedP1LocalFiniteElement<double,double,2>,2,FuzzKind::simplex>(g,BF::refinedLagrange<1>(),p2<2>()); }
PROPERTY(same_refinedp1_3d,100) { same<RefinedP1LocalFiniteElement<double,double,3>,3,FuzzKind::simplex>(g,BF::refinedLagrange<1>(),p2<3>()); }
#endif
#include "main.hh"
