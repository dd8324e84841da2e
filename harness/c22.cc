// Analytic, composed and face-normal grid functions on random meshes (also curved and embedded ones).
#include "pbt.hh"
#include "meshgen.hh"
#include "util.hh"
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/analyticfunctions/polynomial.hh>
#include <dune/functions/analyticfunctions/trigonometricfunction.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
using namespace Dune;
namespace BF=Dune::Functions::BasisFactory;
template<class GV> auto elementsOf(const GV& gv) { std::vector<typename GV::template Codim<0>::Entity> r; for (const auto& e:elements(gv)) r.push_back(e); return r; }
template<class T> void flattenV(const T& t, std::vector<double>& v)
{ if constexpr (std::is_arithmetic_v<T>) v.push_back(t); else if constexpr (requires { t.N(); t.M(); t[0][0]; }) { for (std::size_t i=0;i<t.N();++i) for (std::size_t j=0;j<t.M();++j) v.push_back(t[i][j]); } else for (std::size_t i=0;i<t.size();++i) flattenV(t[i],v); }
template<class A, class B> bool same(const A& a, const B& b, double tol=1e-10) { std::vector<double> x,y; flattenV(a,x); flattenV(b,y); if (x.size()!=y.size()) return false; for (std::size_t i=0;i<x.size();++i) if (!pbt::close(x[i],y[i],tol)) return false; return true; }
template<class A> std::string show(const A& a) { std::vector<double> x; flattenV(a,x); std::ostringstream s; s.precision(12); for (auto v:x) s << v << " "; return s.str(); }

template<int n> struct Coef { double a[n+1]; explicit Coef(pbt::Gen& g) { for (auto& x:a) x=g.unit(); } };
// value, first and second derivative of a0 x0^2 + a1 x0 x_last + sum a_i x_i
template<int n> auto quadratic(pbt::Gen& g)
{
  using X=FieldVector<double,n>; Coef<n+1> c(g);
  auto f=[c](const X& x) { double r=c.a[0]*x[0]*x[0]+c.a[1]*x[0]*x[n-1]; for (int i=0;i<n;++i) r+=c.a[2+i]*x[i]; return r; };
  auto df=[c](const X& x) { X r; for (int i=0;i<n;++i) r[i]=c.a[2+i]; r[0]+=2*c.a[0]*x[0]+c.a[1]*x[n-1]; r[n-1]+=c.a[1]*x[0]; return r; };
  auto ddf=[c](const X&) { FieldMatrix<double,n,n> r(0); r[0][0]+=2*c.a[0]; r[0][n-1]+=c.a[1]; r[n-1][0]+=c.a[1]; return r; };
  return std::make_tuple(f,df,ddf);
}
template<int dim, int dimw, FuzzKind kind> auto makeGrid(pbt::Gen& g) { gen::MeshOptions o; o.maxCells=dim==3?3:5; return gen::grid<dim,dimw,kind>(g,o); }

template<class Fn, class Es, class F> void agrees(pbt::Gen& g, const Fn& fn, const Es& es, F&& f, bool global, const char* what)
{
  using E=std::decay_t<decltype(es[0])>; constexpr int dim=E::mydimension;
  auto lf=localFunction(fn);
  for (int k=0;k<4;++k) {
    const auto& e=es[g.below(es.size())]; lf.bind(e); PBT_CHECK(g, lf.bound() && lf.localContext()==e, what, ": bind");
    auto x=gen::localPoint<dim>(g,e.type()); auto y=e.geometry().global(x);
    auto w=f(y); PBT_CHECK(g, same(lf(x),w), what, ": local value at ", y, ": ", show(lf(x)), "instead of ", show(w));
    if (global) PBT_CHECK(g, same(fn(y),w), what, ": global value at ", y, ": ", show(fn(y)), "instead of ", show(w));
  }
  lf.unbind(); PBT_CHECK(g, !lf.bound(), what, ": unbind");
}
template<int dim, int dimw, FuzzKind kind> void analytic(pbt::Gen& g)
{
  using X=FieldVector<double,dimw>; auto grid=makeGrid<dim,dimw,kind>(g); auto gv=grid->leafGridView(); auto es=elementsOf(gv); g.nontrivial(es.size()>1);
  auto [f,df,ddf]=quadratic<dimw>(g);
  auto all=[&](const auto& fn, const std::string& kindOf) {
    agrees(g,fn,es,f,true,(kindOf+": value").c_str()); PBT_CHECK(g, fn.entitySet().size()==es.size(), kindOf, ": entitySet()");
    auto d=derivative(fn); agrees(g,d,es,df,true,(kindOf+": derivative").c_str());
    auto dd=derivative(d); agrees(g,dd,es,ddf,true,(kindOf+": second derivative").c_str());
    auto lf=localFunction(fn); const auto& e=es[g.below(es.size())]; bool before=g.coin(); if (before) lf.bind(e);
    auto ld=derivative(lf); if (!before) ld.bind(e); auto ldd=derivative(ld);
    auto x=gen::localPoint<dim>(g,e.type()); auto y=e.geometry().global(x);
    PBT_CHECK(g, ld.bound() && ldd.bound(), kindOf, ": derivative of a bound local function is bound");
    PBT_CHECK(g, same(ld(x),df(y)), kindOf, ": derivative of the local function: ", show(ld(x)), "instead of ", show(df(y)));
    PBT_CHECK(g, same(ldd(x),ddf(y)), kindOf, ": second derivative of the local function: ", show(ldd(x)), "instead of ", show(ddf(y)));
  };
  auto diff=Functions::makeDifferentiableFunctionFromCallables(Functions::SignatureTag<double(X)>(),f,df,ddf);
  switch (g.below(4)) {
    case 0: { auto plain=Functions::makeAnalyticGridViewFunction(f,gv); agrees(g,plain,es,f,true,"lambda"); auto copy=plain; agrees(g,copy,es,f,true,"copy"); auto [f2,a,b]=quadratic<dimw>(g); auto lf2=localFunction(plain);
      auto other=plain; other=copy; agrees(g,other,es,f,true,"assigned"); break; }
    case 1: all(Functions::makeAnalyticGridViewFunction(diff,gv),"differentiable"); break;
    case 2: { auto h=Functions::makeAnalyticGridViewFunction(diff,gv); Functions::GridViewFunction<double(X),std::decay_t<decltype(gv)>> er(h); all(er,"GridViewFunction"); auto er2=Functions::makeGridViewFunction(h,gv); all(er2,"makeGridViewFunction(grid function)"); break; }
    default: { Functions::GridViewFunction<double(X),std::decay_t<decltype(gv)>> er(Functions::makeGridViewFunction(diff,gv)); all(er,"makeGridViewFunction(function)"); }
  }
}
template<class F> struct Noisy { F f; };
template<int dim, int dimw, FuzzKind kind> void composed(pbt::Gen& g)
{
  using X=FieldVector<double,dimw>; auto grid=makeGrid<dim,dimw,kind>(g); auto gv=grid->leafGridView(); auto es=elementsOf(gv); g.nontrivial(es.size()>1);
  auto [f0,d0,e0]=quadratic<dimw>(g); auto [f1,d1,e1]=quadratic<dimw>(g); auto [f2,d2,e2]=quadratic<dimw>(g);
  double s=g.unit();
  auto vec=[f1=f1,s](const X& x) { FieldVector<double,2> r{f1(x),s*x[0]}; return r; };
  auto h0=Functions::makeAnalyticGridViewFunction(f0,gv), h0b=h0; auto h1=Functions::makeAnalyticGridViewFunction(vec,gv); auto h2=Functions::makeAnalyticGridViewFunction(f2,gv);
  Functions::GridViewFunction<double(X),std::decay_t<decltype(gv)>> er(Functions::makeAnalyticGridViewFunction(f2,gv));
  switch (g.below(6)) {
    case 0: { auto o=[s](double a) { return a*a-s; }; agrees(g,Functions::makeComposedGridFunction(o,h0),es,[&](auto y) { return o(f0(y)); },true,"one function"); break; }
    case 1: { auto o=[s](double a, FieldVector<double,2> v) { FieldVector<double,3> r{a-s,v[0]*a,v[1]}; return r; }; agrees(g,Functions::makeComposedGridFunction(o,h0,h1),es,[&](auto y) { return o(f0(y),vec(y)); },true,"two functions"); break; }
    case 2: { auto o=[s](double a, FieldVector<double,2> v, double c) { return a*s+v[0]-2*v[1]+3*c*a; }; auto c=Functions::makeComposedGridFunction(o,h0,h1,er); agrees(g,c,es,[&](auto y) { return o(f0(y),vec(y),f2(y)); },true,"three functions");
      auto copy=c; agrees(g,copy,es,[&](auto y) { return o(f0(y),vec(y),f2(y)); },true,"copy"); break; }
    case 3: { // stored by reference, not by value
      auto o=[](double a, double b, double c, double d) { return a+10*b+100*c+1000*d; }; auto href=h0; auto c=Functions::makeComposedGridFunction(std::ref(o),std::ref(href),h2,std::cref(er),h0b); h0b=Functions::makeAnalyticGridViewFunction(f0,gv);
      PBT_CHECK(g, &c.entitySet()==&href.entitySet(), "entitySet() of the first function");
      agrees(g,c,es,[&](auto y) { return o(f0(y),f2(y),f2(y),f0(y)); },true,"four functions, some by reference"); break; }
    case 4: { // nested, and type erased
      auto o1=[](double a, double b) { return a-2*b; }; auto inner=Functions::makeComposedGridFunction(o1,h0,h2); auto o=[s](double u, FieldVector<double,2> v) { return u*v[0]+s*v[1]; };
      Functions::GridViewFunction<double(X),std::decay_t<decltype(gv)>> c(Functions::makeComposedGridFunction(o,inner,h1)); auto w=[&](auto y) { return o(o1(f0(y),f2(y)),vec(y)); };
      agrees(g,c,es,w,true,"nested, type erased"); auto copy=c; { auto lf=localFunction(copy); lf.bind(es[0]); } agrees(g,copy,es,w,true,"nested, type erased, copied"); break; }
    default: { // with a discrete function, which has no exact global form: compare locally
      auto b=BF::makeBasis(gv,BF::lagrange<1>()); std::vector<double> v(b.dimension()); for (auto& x:v) x=g.unit(); auto d=Functions::makeDiscreteGlobalBasisFunction<double>(b,v);
      auto o=[](double a, double b) { return a-3*b; }; auto c=Functions::makeComposedGridFunction(o,d,h0); auto lf=localFunction(c), ld=localFunction(d);
      decltype(ld) x1=ld; for (const auto& e:es) { lf.bind(e); ld.bind(e); auto x=gen::localPoint<dim>(g,e.type()); PBT_CHECK(g, lf.localContext()==e, "localContext()"); PBT_CHECK(g, pbt::close(lf(x),o(ld(x),f0(e.geometry().global(x)))), "composition with a discrete function"); } }
  }
}
template<int dim, int dimw, FuzzKind kind> void normals(pbt::Gen& g)
{
  auto grid=makeGrid<dim,dimw,kind>(g); auto gv=grid->leafGridView(); auto es=elementsOf(gv); g.nontrivial(es.size()>1);
  Functions::FaceNormalGridFunction fn(gv); auto lf=localFunction(fn);
  PBT_CHECK(g, fn.entitySet().size()==es.size(), "entitySet()");
  using R=FieldVector<double,dimw>; Functions::GridViewFunction<R(FieldVector<double,dimw>),std::decay_t<decltype(gv)>> er(fn); auto le=localFunction(er);
  for (const auto& e:es) {
    lf.bind(e); le.bind(e); auto geo=e.geometry(); auto re=Dune::referenceElement<double,dim>(e.type());
    auto check=[&](const FieldVector<double,dim>& x, const std::vector<R>& accepted, const std::string& where) {
      auto n=lf(x); PBT_CHECK(g, pbt::close(n.two_norm(),1,1e-10), "length of the normal ", n.two_norm()); PBT_CHECK(g, le(x)==n, "type erased function");
      bool ok=false; for (auto& a:accepted) { auto d=a; d-=n; ok|=d.two_norm()<1e-8; } PBT_CHECK(g, ok, where, ": normal ", n, " instead of ", accepted[0]); };
    for (const auto& is:intersections(gv,e)) {
      int f=is.indexInInside(); auto xf=gen::localPoint<dim-1>(g,is.type()); bool inner=true;
      auto rf=Dune::referenceElement<double,dim-1>(is.type()); { auto c=rf.position(0,0); xf*=0.8; xf.axpy(0.2,c); }
      auto x=is.geometryInInside().global(xf);
      // on the facet; then a little inside, if the normal does not depend on x there
      check(x,{is.unitOuterNormal(xf)},"on facet "+std::to_string(f));
      if (geo.affine()) { auto y=re.position(0,0); y*=0.01; y.axpy(0.99,x); check(y,{is.unitOuterNormal(xf)},"close to facet "+std::to_string(f)); }
    }
    // anywhere: the facet with the smallest distance (to its hyperplane), in local or in global coordinates
    if (geo.affine()) {
      auto x=gen::localPoint<dim>(g,e.type()); auto y=geo.global(x); double bl=1e100, bg=1e100; std::vector<std::tuple<double,double,R>> c;
      for (const auto& is:intersections(gv,e)) { auto rf=Dune::referenceElement<double,dim-1>(is.type()); R n=is.unitOuterNormal(rf.position(0,0)); auto p=is.geometry().center(); p-=y; auto ln=re.integrationOuterNormal(is.indexInInside()); ln/=ln.two_norm(); auto q=re.position(is.indexInInside(),1); q-=x; double dg=std::abs(p*n), dl=std::abs(q*ln); bl=std::min(bl,dl); bg=std::min(bg,dg); c.emplace_back(dl,dg,n); }
      std::vector<R> acc; for (auto& [dl,dg,n]:c) if (dl<bl+1e-10 || dg<bg+1e-10) acc.push_back(n);
      check(x,acc,"at "+show(x));
    }
  }
  lf.unbind(); PBT_CHECK(g, !lf.bound(), "unbind");
}
#if PART==1
#define ALL(NAME,N,F) PROPERTY(NAME##_1d,N) { F<1,1,FuzzKind::simplex>(g); } PROPERTY(NAME##_mixed2d,N) { F<2,2,FuzzKind::mixed>(g); } PROPERTY(NAME##_mixed3d,N) { F<3,3,FuzzKind::mixed>(g); }
#else
#define ALL(NAME,N,F) PROPERTY(NAME##_surface,N) { F<2,3,FuzzKind::mixed>(g); } PROPERTY(NAME##_curve,N) { F<1,2,FuzzKind::simplex>(g); } PROPERTY(NAME##_tri,N) { F<2,2,FuzzKind::simplex>(g); }
#endif
ALL(analytic,1000,analytic)
ALL(composed,1000,composed)
ALL(normals,1000,normals)
#include "main.hh"
