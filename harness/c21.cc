// Coarse functions on fine grid views, fine functions on coarse grid views, geometry in an ancestor.
// PART 1: synthetic element hierarchies (any refinement rule, all element types), PART 2: YaspGrid and OneDGrid, PART 3: AlbertaGrid
#include "pbt.hh"
#include "meshgen.hh"
#include "util.hh"
#include <dune/geometry/affinegeometry.hh>
#include <dune/grid/yaspgrid.hh>
#include <dune/grid/onedgrid.hh>
#if PART==3
#include <dune/grid/albertagrid.hh>
#endif
#include <dune/functions/common/geometryinancestor.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/gridfunctions/coarsefunctiononfinegridview.hh>
#include <dune/functions/gridfunctions/finefunctiononcoarsegridview.hh>
using namespace Dune;
namespace BF=Dune::Functions::BasisFactory;

#if PART==1
namespace H {
template<int dim> struct Node
{
  using X=FieldVector<double,dim>; using G=AffineGeometry<double,dim,dim>;
  GeometryType type; G inFather, global; int level; const Node* father; std::vector<std::unique_ptr<Node>> children; int id;
  static G geo(GeometryType t, const std::vector<X>& c)
  {
    auto re=Dune::referenceElement<double,dim>(t); FieldMatrix<double,dim,dim> jt;
    for (int d=0;d<dim;++d) for (int k=0;k<re.size(dim);++k) { auto p=re.position(k,dim); bool unit=true; for (int q=0;q<dim;++q) unit&=std::abs(p[q]-(q==d))<1e-12; if (unit) jt[d]=c[k]-c[0]; }
    return G(re,c[0],jt);
  }
};
template<int dim> class Element
{
public:
  static constexpr int dimension=dim, mydimension=dim, codimension=0;
  using Geometry=typename Node<dim>::G; using LocalGeometry=typename Node<dim>::G;
  Element()=default; explicit Element(const Node<dim>* n) : n(n) {}
  GeometryType type() const { return at().type; } int level() const { return at().level; } int id() const { return at().id; }
  Geometry geometry() const { return at().global; } LocalGeometry geometryInFather() const { if (!at().father) pbt::fail("geometryInFather() of a macro element"); return at().inFather; }
  bool hasFather() const { return at().father; } Element father() const { if (!at().father) pbt::fail("father() of a macro element"); return Element(at().father); }
  bool isLeaf() const { return at().children.empty(); }
  bool operator==(const Element& o) const { return n==o.n; } bool operator!=(const Element& o) const { return n!=o.n; }
  using HierarchicIterator=typename std::vector<Element>::const_iterator;
  const Node<dim>* node() const { return n; }
private:
  const Node<dim>& at() const { if (!n) pbt::fail("use of an empty element"); return *n; }
  const Node<dim>* n=nullptr;
};
template<int dim> void collect(const Node<dim>& n, int maxLevel, std::vector<Element<dim>>& r) { for (auto& c:n.children) if (c->level<=maxLevel) { r.emplace_back(c.get()); collect(*c,maxLevel,r); } }
template<int dim> std::vector<Element<dim>> descendantElements(const Element<dim>& e, int maxLevel) { std::vector<Element<dim>> r; collect(*e.node(),maxLevel,r); return r; }
template<int dim> struct Grid { static constexpr int dimension=dim, dimensionworld=dim; using ctype=double; };
template<int dim> class View
{
public:
  static constexpr int dimension=dim, dimensionworld=dim; using ctype=double; using Grid=H::Grid<dim>;
  template<int cd> struct Codim { using Entity=Element<dim>; using Geometry=typename Entity::Geometry; using Iterator=typename std::vector<Entity>::const_iterator; };
  std::vector<Element<dim>> el;
  bool contains(const Element<dim>& e) const { return std::find(el.begin(),el.end(),e)!=el.end(); }
  std::size_t size(int) const { return el.size(); }
  template<int> auto begin() const { return el.begin(); } template<int> auto end() const { return el.end(); }
};

template<int dim> struct Hier
{
  using X=FieldVector<double,dim>; using N=Node<dim>;
  std::vector<std::unique_ptr<N>> roots; int n=0;
  void child(pbt::Gen& g, N& f, GeometryType t, std::vector<X> c)
  {
    // any admissible local numbering of the corners
    if (t.isSimplex()) { auto p=g.permutation(c.size()); auto o=c; for (std::size_t i=0;i<c.size();++i) c[i]=o[p[i]]; }
    else if (t.isCube()) { auto p=g.permutation(dim); unsigned flip=g.below(1u<<dim); auto o=c; for (unsigned i=0;i<c.size();++i) { unsigned k=0; for (int d=0;d<dim;++d) if (i>>d&1) k|=1u<<p[d]; c[i]=o[k^flip]; } }
    auto l=N::geo(t,c); auto m=std::unique_ptr<N>(new N{t,l,f.global,f.level+1,&f,{},n++});
    std::vector<X> gc; for (auto& x:c) gc.push_back(f.global.global(x)); m->global=N::geo(t,gc); f.children.push_back(std::move(m));
  }
  void refine(pbt::Gen& g, N& f)
  {
    auto re=Dune::referenceElement<double,dim>(f.type); std::vector<X> c; for (int k=0;k<re.size(dim);++k) c.push_back(re.position(k,dim));
    double t=g.coin()?0.5:g.real(0.2,0.8);
    auto mid=[&](const X& a, const X& b) { X r; for (int d=0;d<dim;++d) r[d]=(1-t)*a[d]+t*b[d]; return r; };
    auto bisect=[&] { int i=g.below(c.size()), j=g.below(c.size()-1); if (j>=i) ++j; auto m=mid(c[i],c[j]); auto a=c,b=c; a[i]=m; b[j]=m; child(g,f,f.type,a); child(g,f,f.type,b); };
    auto box=[&](int axes, X s) { for (int k=0;k<(1<<dim);++k) { if (k & ~axes) continue; std::vector<X> q=c; for (auto& x:q) for (int d=0;d<dim;++d) if (axes>>d&1) x[d]=(k>>d&1)?s[d]+(1-s[d])*x[d]:s[d]*x[d]; child(g,f,f.type,q); } };
    if (f.type.isCube() && dim>1) {
      int op=g.below(dim==2?4:5);
      if (op<=1) { X s; for (auto& v:s) v=t; box(op==0?(1<<dim)-1:1<<g.below(dim),s); }
      else if (op==2 && dim==2) { child(g,f,GeometryTypes::simplex(dim),{c[0],c[1],c[2]}); child(g,f,GeometryTypes::simplex(dim),{c[1],c[3],c[2]}); }
      else if (op==2) { X s; for (auto& v:s) v=g.real(0.3,0.7); box(1+g.below((1<<dim)-1),s); }
      else if constexpr (dim==3) {
        if (op==3) { child(g,f,GeometryTypes::prism,{c[0],c[1],c[2],c[4],c[5],c[6]}); child(g,f,GeometryTypes::prism,{c[3],c[2],c[1],c[7],c[6],c[5]}); }
        else { X z; for (auto& v:z) v=0.5; for (int i=0;i<6;++i) { std::vector<X> q; for (int k=0;k<4;++k) q.push_back(c[re.subEntity(i,1,k,3)]); q.push_back(z); child(g,f,GeometryTypes::pyramid,q); } }
      }
      else { child(g,f,GeometryTypes::simplex(dim),{c[0],c[1],c[3]}); child(g,f,GeometryTypes::simplex(dim),{c[0],c[3],c[2]}); }
    }
    else if (f.type.isSimplex()) {
      if (dim==2 && g.coin()) { auto a=mid(c[0],c[1]), b=mid(c[1],c[2]), d=mid(c[0],c[2]); child(g,f,f.type,{c[0],a,d}); child(g,f,f.type,{a,c[1],b}); child(g,f,f.type,{d,b,c[2]}); child(g,f,f.type,{a,b,d}); }
      else bisect();
    }
    else if constexpr (dim==3) {
      if (f.type.isPrism()) {
        int op=g.below(3);
        if (op==0) { std::vector<X> a=c,b=c; for (int k=0;k<3;++k) a[3+k]=b[k]=mid(c[k],c[3+k]); child(g,f,f.type,a); child(g,f,f.type,b); }
        else if (op==1) { int i=g.below(3), j=(i+1+g.below(2))%3; auto a=c,b=c; a[i]=b[j]=mid(c[i],c[j]); a[3+i]=b[3+j]=mid(c[3+i],c[3+j]); child(g,f,f.type,a); child(g,f,f.type,b); }
        else { child(g,f,GeometryTypes::tetrahedron,{c[0],c[1],c[2],c[3]}); child(g,f,GeometryTypes::pyramid,{c[1],c[2],c[4],c[5],c[3]}); }
      }
      else { child(g,f,GeometryTypes::tetrahedron,{c[0],c[1],c[2],c[4]}); child(g,f,GeometryTypes::tetrahedron,{c[1],c[3],c[2],c[4]}); }
    }
    // the order of the children is arbitrary
    auto p=g.permutation(f.children.size()); std::vector<std::unique_ptr<N>> o(f.children.size()); for (std::size_t i=0;i<o.size();++i) o[i]=std::move(f.children[p[i]]); f.children=std::move(o);
  }
  void all(N& f, std::vector<N*>& leaves) { if (f.children.empty()) leaves.push_back(&f); for (auto& c:f.children) all(*c,leaves); }
  explicit Hier(pbt::Gen& g)
  {
    std::vector<GeometryType> ts{GeometryTypes::simplex(dim)}; if (dim>1) ts.push_back(GeometryTypes::cube(dim)); if (dim==3) { ts.push_back(GeometryTypes::prism); ts.push_back(GeometryTypes::pyramid); }
    int r=g.range(1,2); for (int i=0;i<r;++i) {
      auto t=g.pick(ts); auto re=Dune::referenceElement<double,dim>(t); FieldMatrix<double,dim,dim> A; for (int a=0;a<dim;++a) for (int b=0;b<dim;++b) A[a][b]=(a==b?1.5:0)+0.3*g.unit();
      std::vector<X> c; for (int k=0;k<re.size(dim);++k) { X y; A.mv(re.position(k,dim),y); y[0]+=3*i; c.push_back(y); }
      std::vector<X> rc; for (int k=0;k<re.size(dim);++k) rc.push_back(re.position(k,dim));
      roots.push_back(std::unique_ptr<N>(new N{t,N::geo(t,rc),N::geo(t,c),0,nullptr,{},n++}));
    }
    int steps=g.range(0,7); for (int k=0;k<steps;++k) { std::vector<N*> l; for (auto& q:roots) all(*q,l); if (l.size()>60) break; refine(g,*l[g.below(l.size())]); }
  }
  // a random set of elements covering each of the given ones
  void cover(pbt::Gen& g, const N& f, View<dim>& v) const { if (f.children.empty() || g.chance(1,3)) v.el.emplace_back(&f); else for (auto& c:f.children) cover(g,*c,v); }
};
template<int dim> auto center(const Element<dim>& e) { return Dune::referenceElement<double,dim>(e.type()).position(0,0); }
}

// differs between elements: shows which element was used and at which local coordinate
template<int dim, int order> struct Piecewise
{
  using X=FieldVector<double,dim>; using Range=std::conditional_t<order==0,double,X>; using EntitySet=H::View<dim>;
  EntitySet es; double shift;
  struct Local
  {
    std::optional<H::Element<dim>> e; double shift;
    void bind(const H::Element<dim>& x) { e=x; } void unbind() { e.reset(); } bool bound() const { return bool(e); } const H::Element<dim>& localContext() const { return *e; }
    Range operator()(const X& x) const { if (!e) pbt::fail("evaluation of an unbound local function"); return eval(*e,x,shift); }
    friend auto derivative(const Local& l) requires(order==0) { return typename Piecewise<dim,1>::Local{l.e,l.shift}; }
  };
  static Range eval(const H::Element<dim>& e, const X& x, double shift)
  { if constexpr (order==0) { double r=100*e.id()+shift; for (int d=0;d<dim;++d) r+=(d+1)*x[d]+(d+2)*x[d]*x[d]; return r; } else { X r; for (int d=0;d<dim;++d) r[d]=1000*e.id()+shift+(d+1)*x[d]; return r; } }
  Range operator()(const X& x) const { if constexpr (order==0) { double r=shift; for (int d=0;d<dim;++d) r+=(d+1)*x[d]; return r; } else { X r=x; r[0]+=shift; return r; } }
  friend auto derivative(const Piecewise& p) requires(order==0) { return Piecewise<dim,1>{p.es,p.shift}; }
  friend Local localFunction(const Piecewise& p) { return {std::nullopt,p.shift}; }
  const EntitySet& entitySet() const { return es; }
};
template<class R> bool closeR(const R& a, const R& b) { if constexpr (std::is_arithmetic_v<R>) return pbt::close(a,b,1e-8); else { for (std::size_t i=0;i<a.size();++i) if (!pbt::close(a[i],b[i],1e-8)) return false; return true; } }

template<int dim> auto point(pbt::Gen& g, const H::Element<dim>& e)
{
  auto re=Dune::referenceElement<double,dim>(e.type()); int m=g.below(4);
  if (m==0 && !e.isLeaf()) {   // something special in a descendant
    auto d=H::descendantElements(e,1000); auto f=d[g.below(d.size())]; auto rf=Dune::referenceElement<double,dim>(f.type()); int c=g.below(dim+1);
    return e.geometry().local(f.geometry().global(rf.position(g.below(rf.size(c)),c)));
  }
  if (m==1) { int c=g.below(dim+1); return re.position(g.below(re.size(c)),c); }
  return gen::localPoint<dim>(g,e.type());
}
template<class F> auto kept(const F& f) { return std::make_unique<F>(f); }
template<int dim> void coarseOnFine(pbt::Gen& g)
{
  H::Hier<dim> h(g); H::View<dim> src, dst; for (auto& r:h.roots) h.cover(g,*r,src);
  for (auto& e:src.el) h.cover(g,*e.node(),dst);
  int deepest=0; for (auto& e:dst.el) { int k=0; for (auto a=e; !src.contains(a); a=a.father()) ++k; deepest=std::max(deepest,k); }
  g.label("depth "+std::to_string(deepest)); g.nontrivial(deepest>0);
  double shift=g.range(0,5); Piecewise<dim,0> f{src,shift};
  auto check=[&](const auto& fn, auto order) {
    using P=Piecewise<dim,decltype(order)::value>;
    PBT_CHECK(g, fn.entitySet().size()==dst.el.size(), "entitySet()");
    auto lf=localFunction(fn); int n=g.range(1,6);
    for (int k=0;k<n;++k) {
      auto e=dst.el[g.below(dst.el.size())]; lf.bind(e); PBT_CHECK(g, lf.bound() && lf.localContext()==e, "bind"); auto x=point(g,e);
      auto a=e; while (!src.contains(a)) a=a.father();
      auto want=P::eval(a,a.geometry().local(e.geometry().global(x)),shift);
      PBT_CHECK(g, closeR(lf(x),want), "value at ", x, " of an element of level ", e.level(), " (coarse level ", a.level(), "): ", lf(x), " instead of ", want);
      auto c=kept(lf); { auto e2=dst.el[g.below(dst.el.size())]; lf.bind(e2); }
      PBT_CHECK(g, closeR((*c)(x),want), "value of a copy");
      if constexpr (decltype(order)::value==0) {
        auto d=derivative(*c); auto wd=Piecewise<dim,1>::eval(a,a.geometry().local(e.geometry().global(x)),shift); c.reset();
        PBT_CHECK(g, d.bound() && d.localContext()==e && closeR(d(x),wd), "derivative at ", x, ": ", d(x), " instead of ", wd);
      }
      typename P::X gx=e.geometry().global(x); if constexpr (decltype(order)::value==0) PBT_CHECK(g, closeR(fn(gx),f(gx)), "global evaluation"); else PBT_CHECK(g, closeR(fn(gx),derivative(f)(gx)), "global evaluation of the derivative");
    }
  };
  auto run=[&](const auto& fn) { check(fn,Dune::index_constant<0>{}); check(derivative(fn),Dune::index_constant<1>{}); };
  if (g.coin()) run(Functions::CoarseFunctionOnFineGridView(f,dst));
  else run(Functions::CoarseFunctionOnFineGridView(std::cref(f),dst));
}
template<int dim> void fineOnCoarse(pbt::Gen& g)
{
  H::Hier<dim> h(g); H::View<dim> src, dst; for (auto& r:h.roots) h.cover(g,*r,dst);
  for (auto& e:dst.el) h.cover(g,*e.node(),src);
  g.label(std::to_string(src.el.size()-dst.el.size())+" more elements"); g.nontrivial(src.el.size()>dst.el.size());
  double shift=g.range(0,5); Piecewise<dim,0> f{src,shift};
  auto check=[&](const auto& fn, auto order) {
    using P=Piecewise<dim,decltype(order)::value>;
    auto lf=localFunction(fn); int n=g.range(1,6);
    for (int k=0;k<n;++k) {
      auto e=dst.el[g.below(dst.el.size())]; lf.bind(e); PBT_CHECK(g, lf.bound() && lf.localContext()==e, "bind");
      auto verify=[&](const auto& l, auto o, const auto& x) {
        auto got=l(x); auto y=e.geometry().global(x); std::string cand; bool ok=false;
        for (auto& s:src.el) { bool below=false; for (auto a=s;;a=a.father()) { below|=a==e; if (!a.hasFather()) break; }
          if (!below) continue; auto z=s.geometry().local(y); if (!util::inside<dim>(s.type(),z,1e-7)) continue;
          ok|=closeR(got,Piecewise<dim,decltype(o)::value>::eval(s,z,shift)); cand+=" "+std::to_string(s.id()); }
        PBT_CHECK(g, ok, "value ", got, " at ", x, " of element ", e.id(), " is not that of an element containing the point (", cand, ")"); };
      auto x=point(g,e); verify(lf,order,x); verify(lf,order,point(g,e));
      auto c=kept(lf); { lf.bind(dst.el[g.below(dst.el.size())]); lf(point(g,lf.localContext())); }
      verify(*c,order,x);
      if constexpr (decltype(order)::value==0) { auto d=derivative(*c); c.reset(); PBT_CHECK(g, d.bound() && d.localContext()==e, "derivative of a bound local function"); verify(d,Dune::index_constant<1>{},x); verify(d,Dune::index_constant<1>{},point(g,e)); }
      typename P::X gx=e.geometry().global(x); if constexpr (decltype(order)::value==0) PBT_CHECK(g, closeR(fn(gx),f(gx)), "global evaluation"); else PBT_CHECK(g, closeR(fn(gx),derivative(f)(gx)), "global evaluation of the derivative");
    }
  };
  auto run=[&](const auto& fn) { check(fn,Dune::index_constant<0>{}); check(derivative(fn),Dune::index_constant<1>{}); };
  if (g.coin()) run(Functions::FineFunctionOnCoarseGridView(f,dst)); else run(Functions::FineFunctionOnCoarseGridView(std::cref(f),dst));
}
// a history of binding and copying: model = (fine element, coarse element)
template<int dim> void inAncestor(pbt::Gen& g)
{
  using E=H::Element<dim>; using GA=Functions::GeometryInAncestor<E>; H::Hier<dim> h(g); std::vector<E> es; for (auto& r:h.roots) { es.emplace_back(r.get()); H::collect(*r,1000,es); }
  struct Slot { std::shared_ptr<E> ext; std::unique_ptr<GA> ga; E fine, coarse; bool bound=false; };
  std::vector<Slot> s; int n=g.range(3,14); std::ostringstream log; bool deep=false;
  auto verify=[&](Slot& t) {
    if (!t.bound) return;
    PBT_CHECK(g, t.ga->coarseElement()==t.coarse, log.str(), ": coarseElement()"); PBT_CHECK(g, t.ga->fineElement()==t.fine, log.str(), ": fineElement()");
    auto x=gen::localPoint<dim>(g,t.fine.type()); auto y=t.ga->global(x), want=t.coarse.geometry().local(t.fine.geometry().global(x)); auto back=t.ga->local(y);
    for (int d=0;d<dim;++d) { PBT_CHECK(g, pbt::close(y[d],want[d],1e-9), log.str(), ": global(", x, ")=", y, " instead of ", want); PBT_CHECK(g, pbt::close(back[d],x[d],1e-8), log.str(), ": local(global(", x, "))=", back); } };
  for (int k=0;k<n;++k) {
    int op=s.empty()?0:g.below(5);
    if (op==0) { s.push_back({}); s.back().ga=std::make_unique<GA>(); log << " new"; }
    else if (op<=2) {
      auto& t=s[g.below(s.size())]; E f=es[g.below(es.size())]; int stop=g.range(0,f.level()); E c=f; while (c.level()>stop) c=c.father(); deep|=f.level()-stop>0;
      auto pred=[&](const E& e) { return e.level()>stop; };
      auto ext=std::make_shared<E>(f); const E* r;
      if (op==1) { r=&t.ga->bind(std::as_const(*ext),pred); t.ext=ext; log << " bind(l" << f.level() << ">" << stop << ")"; } else { r=&t.ga->bind(std::move(*ext),pred); ext.reset(); t.ext.reset(); log << " bindTemporary(l" << f.level() << ">" << stop << ")"; }
      t.fine=f; t.coarse=c; t.bound=true; PBT_CHECK(g, *r==c, log.str(), ": element returned by bind()");
    }
    else if (op==3) { auto i=g.below(s.size()); Slot t; t.fine=s[i].fine; t.coarse=s[i].coarse; t.bound=s[i].bound; t.ext=s[i].ext; t.ga=std::make_unique<GA>(std::as_const(*s[i].ga)); log << " copy" << i; if (g.coin()) { s.erase(s.begin()+i); log << "(erased)"; } s.push_back(std::move(t)); }
    else { auto i=g.below(s.size()); if (!s[i].bound) continue; Slot t; t.fine=s[i].fine; t.coarse=s[i].coarse; t.bound=true; t.ext=std::make_shared<E>(t.fine); t.ga=std::make_unique<GA>(*s[i].ga,*t.ext); log << " copyWithElement" << i; if (g.coin()) { s.erase(s.begin()+i); log << "(erased)"; } s.push_back(std::move(t)); }
    for (auto& t:s) verify(t);
  }
  g.nontrivial(deep); g.describe(log.str());
}
#define D3(NAME,N,F) PROPERTY(NAME##_1d,N) { F<1>(g); } PROPERTY(NAME##_2d,N) { F<2>(g); } PROPERTY(NAME##_3d,N) { F<3>(g); }
D3(coarse_on_fine,2000,coarseOnFine)
D3(fine_on_coarse,2000,fineOnCoarse)
D3(in_ancestor,2000,inAncestor)
#else
template<class GV> auto elementsOf(const GV& gv) { std::vector<typename GV::template Codim<0>::Entity> r; for (const auto& e:elements(gv)) r.push_back(e); return r; }
template<class T> void flattenV(const T& t, std::vector<double>& v)
{ if constexpr (std::is_arithmetic_v<T>) v.push_back(t); else if constexpr (requires { t.N(); t.M(); t[0][0]; }) { for (std::size_t i=0;i<t.N();++i) for (std::size_t j=0;j<t.M();++j) v.push_back(t[i][j]); } else for (std::size_t i=0;i<t.size();++i) flattenV(t[i],v); }
template<class A, class B> bool same(const A& a, const B& b) { std::vector<double> x,y; flattenV(a,x); flattenV(b,y); if (x.size()!=y.size()) return false; for (std::size_t i=0;i<x.size();++i) if (!pbt::close(x[i],y[i],1e-7)) return false; return true; }
template<class A> std::string show(const A& a) { std::vector<double> x; flattenV(a,x); std::ostringstream s; s.precision(12); for (auto v:x) s << v << " "; return s.str(); }
// value of the source at the point (fine element, local) or at any element of the source containing the point
template<class Src, class SrcGV, class Fn, class GV> void compare(pbt::Gen& g, const Src& src, const SrcGV& sgv, const Fn& fn, const GV& gv, bool up, bool global, const char* what)
{
  constexpr int dim=GV::dimension; auto es=elementsOf(gv); auto ref=localFunction(src); auto lf=localFunction(fn);
  int n=g.range(2,8);
  for (int k=0;k<n;++k) {
    auto e=es[g.below(es.size())]; auto x=gen::localPoint<dim>(g,e.type()); if (g.chance(1,4)) { auto re=Dune::referenceElement<double,dim>(e.type()); x=re.position(g.below(re.size(dim)),dim); }
    lf.bind(e); auto got=lf(x); auto y=e.geometry().global(x); std::string cand; bool ok=false;
    if (up) { auto a=e; while (!sgv.contains(a)) a=a.father(); ref.bind(a); auto w=ref(a.geometry().local(y)); ok=same(got,w); cand=show(w); }
    else {
      auto tryE=[&](const auto& d) { auto z=d.geometry().local(y); if (!util::inside<dim>(d.type(),z,1e-6)) return; ref.bind(d); auto w=ref(z); ok|=same(got,w); cand+=show(w)+"or "; };
      if (sgv.contains(e)) tryE(e); else for (const auto& d:descendantElements(e,e.level()+20)) if (sgv.contains(d)) tryE(d);
    }
    PBT_CHECK(g, ok, what, " at ", y, " (level ", e.level(), "): ", show(got), "instead of ", cand);
    if (global) { auto w=src(y), v=fn(y); PBT_CHECK(g, same(w,v), what, ": global evaluation"); }
  }
}
template<class SGV, class DGV> void functions(pbt::Gen& g, const SGV& sgv, const DGV& dgv, bool up)
{
  constexpr int dim=SGV::dimension; using X=FieldVector<double,dim>;
  bool global=false;
  auto wrap=[&](const auto& f) { if (up) { auto h=Functions::CoarseFunctionOnFineGridView(f,dgv); compare(g,f,sgv,h,dgv,up,global,"value"); compare(g,derivative(f),sgv,derivative(h),dgv,up,global,"derivative");
      // the derivative of a local function
      auto es=elementsOf(dgv); auto lf=localFunction(h); auto dh=derivative(h); auto ld=localFunction(dh); for (int k=0;k<3;++k) { auto e=es[g.below(es.size())]; lf.bind(e); ld.bind(e); auto d=derivative(lf); auto x=gen::localPoint<dim>(g,e.type()); PBT_CHECK(g, same(d(x),ld(x)), "derivative of the local function"); } }
    else { auto h=Functions::FineFunctionOnCoarseGridView(f,dgv); compare(g,f,sgv,h,dgv,up,global,"value"); compare(g,derivative(f),sgv,derivative(h),dgv,up,global,"derivative"); } };
  double a=g.unit(), b=g.unit();
  switch (g.below(4)) {
    case 0: { g.label("analytic"); global=true; auto f=Functions::makeDifferentiableFunctionFromCallables(Functions::SignatureTag<double(X)>(),[=](const X& x) { return a*x[0]*x[0]+b*x[dim-1]; },[=](const X& x) { X r(0); r[0]+=2*a*x[0]; r[dim-1]+=b; return r; });
      wrap(Functions::makeAnalyticGridViewFunction(f,sgv)); break; }
    case 1: { g.label("lagrange"); auto bs=BF::makeBasis(sgv,BF::lagrange<2>()); std::vector<double> v(bs.dimension()); for (auto& x:v) x=g.unit(); wrap(Functions::makeDiscreteGlobalBasisFunction<double>(bs,v)); break; }
    case 2: { g.label("power"); auto bs=BF::makeBasis(sgv,BF::power<2>(BF::lagrange<1>(),BF::flatInterleaved())); std::vector<double> v(bs.dimension()); for (auto& x:v) x=g.unit(); wrap(Functions::makeDiscreteGlobalBasisFunction<FieldVector<double,2>>(bs,v)); break; }
    default: { g.label("erased"); auto bs=BF::makeBasis(sgv,BF::lagrange<1>()); std::vector<double> v(bs.dimension()); for (auto& x:v) x=g.unit(); using F=Functions::GridViewFunction<double(X),SGV>; wrap(F(Functions::makeDiscreteGlobalBasisFunction<double>(bs,v))); }
  }
}
template<class Grid> void views(pbt::Gen& g, const Grid& grid)
{
  int top=grid.maxLevel(), c=g.range(0,top), f=g.range(c,top); bool up=g.coin(); g.nontrivial(top>0);
  bool leafFine=g.coin();
  if (leafFine) c=g.chance(1,4)?c:0;
  auto cv=grid.levelGridView(leafFine?0:c); auto fv=grid.levelGridView(f); auto lv=grid.leafGridView();
  g.label(leafFine?"leaf":"levels"); g.label(up?"coarse on fine":"fine on coarse");
  if (leafFine) { if (up) functions(g,cv,lv,up); else functions(g,lv,cv,up); }
  else if (up) functions(g,cv,fv,up);
  else { // every descendant of the coarse element has to lead to an element of the source
    bool ok=true; for (const auto& e:elements(lv)) ok&=e.level()>=f; if (!ok) { if (up) functions(g,cv,lv,up); else functions(g,lv,cv,up); } else functions(g,fv,cv,up); }
}
#if PART==2
template<int dim, class Coords> void yasp(pbt::Gen& g)
{
  std::unique_ptr<YaspGrid<dim,Coords>> grid; std::array<int,dim> n; for (auto& v:n) v=g.range(1,2);
  if constexpr (std::is_same_v<Coords,TensorProductCoordinates<double,dim>>) { std::array<std::vector<double>,dim> c; for (int d=0;d<dim;++d) { double x=g.unit(); c[d].push_back(x); for (int i=0;i<n[d];++i) c[d].push_back(x+=g.real(0.2,1)); } grid=std::make_unique<YaspGrid<dim,Coords>>(c); }
  else if constexpr (std::is_same_v<Coords,EquidistantOffsetCoordinates<double,dim>>) { FieldVector<double,dim> a,b; for (int d=0;d<dim;++d) { a[d]=g.unit(); b[d]=a[d]+g.real(0.5,2); } grid=std::make_unique<YaspGrid<dim,Coords>>(a,b,n); }
  else { FieldVector<double,dim> b; for (auto& v:b) v=g.real(0.5,2); grid=std::make_unique<YaspGrid<dim,Coords>>(b,n); }
  grid->globalRefine(g.range(0,dim==3?1:2)); views(g,*grid);
}
PROPERTY(yasp_1d,400) { yasp<1,TensorProductCoordinates<double,1>>(g); }
PROPERTY(yasp_2d,400) { yasp<2,EquidistantOffsetCoordinates<double,2>>(g); }
PROPERTY(yasp_tensor,400) { yasp<2,TensorProductCoordinates<double,2>>(g); }
PROPERTY(yasp_3d,200) { yasp<3,EquidistantCoordinates<double,3>>(g); }
PROPERTY(oned,600)
{
  std::vector<double> c{g.unit()}; int n=g.range(1,4); for (int i=0;i<n;++i) c.push_back(c.back()+g.real(0.2,1)); OneDGrid grid(c);
  int s=g.range(0,4); for (int k=0;k<s;++k) { for (const auto& e:elements(grid.leafGridView())) { int m=g.below(3); if (m) grid.mark(m==1?1:-1,e); } grid.preAdapt(); grid.adapt(); grid.postAdapt(); }
  views(g,grid);
}
#else
PROPERTY(alberta,400)
{
  // AlbertaGrid reads a grid from factory; a unit square of two triangles or a fan
  GridFactory<AlbertaGrid<2,2>> gf; int nx=g.range(1,2), ny=g.range(1,2);
  for (int j=0;j<=ny;++j) for (int i=0;i<=nx;++i) gf.insertVertex({double(i)+(i>0&&i<nx?0.2*g.unit():0),double(j)*1.3});
  for (int j=0;j<ny;++j) for (int i=0;i<nx;++i) { unsigned a=j*(nx+1)+i, b=a+1, c=a+nx+1, d=c+1; gf.insertElement(GeometryTypes::triangle,{d,a,b}); gf.insertElement(GeometryTypes::triangle,{a,d,c}); }
  auto grid=gf.createGrid();
  int s=g.range(0,4); for (int k=0;k<s;++k) { for (const auto& e:elements(grid->leafGridView())) { int m=g.below(3); if (m) grid->mark(m==1?1:-1,e); } grid->preAdapt(); grid->adapt(); grid->postAdapt(); }
  views(g,*grid);
}
#endif
#endif
#include "main.hh"
