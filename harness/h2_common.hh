// Hermite, Morley and Argyris bases
#include <config.h>
#include "pbt.hh"
#include "fuzzgrid.hh"
#include "meshgen.hh"
#include "util.hh"
#include <dune/istl/bvector.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
using namespace Dune;
using namespace util;
namespace BF = Dune::Functions::BasisFactory;

// a polynomial in dim variables: sum of c * prod ((x_d-m_d)/s)^e_d, with exact derivatives
template<int dim>
struct Poly
{
  struct Term { double c; std::array<int,dim> e; };
  std::vector<Term> terms; FieldVector<double,dim> m; double s=1;
  static double pw(double x, int e) { double p=1; for (int i=0;i<e;++i) p*=x; return p; }
  double eval(const FieldVector<double,dim>& x, std::array<int,dim> der) const
  {
    double r=0;
    for (auto& t:terms) {
      double v=t.c;
      for (int d=0;d<dim;++d) {
        int e=t.e[d];
        for (int k=0;k<der[d];++k) { v*=e; --e; if (e<0) break; v/=s; }
        if (e<0) { v=0; break; }
        v*=pw((x[d]-m[d])/s,e);
      }
      r+=v;
    }
    return r;
  }
  double value(const FieldVector<double,dim>& x) const { return eval(x,{}); }
  FieldVector<double,dim> grad(const FieldVector<double,dim>& x) const
  { FieldVector<double,dim> g; for (int d=0;d<dim;++d) { std::array<int,dim> o{}; o[d]=1; g[d]=eval(x,o); } return g; }
  FieldMatrix<double,dim,dim> hess(const FieldVector<double,dim>& x) const
  { FieldMatrix<double,dim,dim> h; for (int a=0;a<dim;++a) for (int b=0;b<dim;++b) { std::array<int,dim> o{}; ++o[a]; ++o[b]; h[a][b]=eval(x,o); } return h; }
  double operator()(const FieldVector<double,dim>& x) const { return value(x); }
  struct Hess { Poly p; auto operator()(const FieldVector<double,dim>& x) const { return p.hess(x); } };
  struct Grad { Poly p; auto operator()(const FieldVector<double,dim>& x) const { return p.grad(x); }
    friend Hess derivative(const Grad& g) { return Hess{g.p}; } };
  friend Grad derivative(const Poly& p) { return Grad{p}; }
};

// Dune's derivative of a scalar function in 1d is a scalar or a vector; both are handled by the library
template<int dim, class GV>
Poly<dim> genPoly(pbt::Gen& g, int degree, const GV& gv)
{
  Poly<dim> p; FieldVector<double,dim> lo(1e100), hi(-1e100);
  for (const auto& v:vertices(gv)) { auto x=v.geometry().corner(0); for (int d=0;d<dim;++d) { lo[d]=std::min(lo[d],x[d]); hi[d]=std::max(hi[d],x[d]); } }
  p.m=lo; p.m+=hi; p.m*=0.5; p.s=(hi-lo).two_norm();
  std::function<void(int,int,std::array<int,dim>)> rec=[&](int d,int left,std::array<int,dim> e) {
    if (d==dim) { p.terms.push_back({g.unit(),e}); return; }
    for (int k=0;k<=left;++k) { e[d]=k; rec(d+1,left-k,e); }
  };
  rec(0,degree,{});
  return p;
}

template<class FE, class Geo, class X>
auto hessians(const FE& fe, const Geo& geo, const X& x)
{
  constexpr int dim=Geo::mydimension;
  using H=typename FE::Traits::LocalBasisType::Traits::HessianType;
  std::vector<H> h; fe.localBasis().evaluateHessian(x,h);
  auto jit=geo.jacobianInverseTransposed(x);
  std::vector<FieldMatrix<double,dim,dim>> r(h.size());
  for (std::size_t i=0;i<h.size();++i) {
    r[i]=0;
    for (int a=0;a<dim;++a) for (int b=0;b<dim;++b) for (int c=0;c<dim;++c) for (int d=0;d<dim;++d) r[i][a][b]+=jit[a][c]*h[i][c][d]*jit[b][d];
  }
  return r;
}

template<int dim, class T>
FieldVector<double,dim> gradientVector(const T& t)
{
  FieldVector<double,dim> r;
  if constexpr (std::is_convertible_v<T,double> && dim==1) r[0]=double(t);
  else if constexpr (requires { t[0][0]; }) { for (int i=0;i<dim;++i) r[i]=t[0][i]; }
  else { for (int i=0;i<dim;++i) r[i]=t[i]; }
  return r;
}

// the functional descriptors say which kind of functional each local DOF is
template<class Basis>
void checkDescriptors(pbt::Gen& g, const Basis& basis)
{
  constexpr int dim=Basis::GridView::dimension;
  auto lv=basis.localView();
  for (const auto& e:elements(basis.gridView())) {
    lv.bind(e);
    const auto& fe=lv.tree().finiteElement();
    auto geo=e.geometry();
    auto ref=referenceElement<double,dim>(e.type());
    for (std::size_t i=0;i<fe.size();++i) {
      auto fd=fe.localInterpolation().functionalDescriptor(i);
      auto k=fe.localCoefficients().localKey(i);
      auto x=ref.position(k.subEntity(),k.codim());
      unsigned total=0; for (auto o:fd.partialDerivativeOrder()) total+=o;
      PBT_CHECK(g, fd.isPartialDerivative()==(total>0), "isPartialDerivative()");
      PBT_CHECK(g, fd.isNormalDerivative()==(fd.normalDerivativeOrder()>0), "isNormalDerivative()");
      PBT_CHECK(g, !(total>0 && fd.isNormalDerivative()), "both kinds of derivative");
      // basis function i is nonzero under its own functional; the others at the same point that are not of this kind vanish under it
      auto functional=[&](std::size_t j) -> double {
        if (fd.isNormalDerivative()) {
          auto n=geo.jacobianInverseTransposed(x); auto in=ref.integrationOuterNormal(k.subEntity());
          FieldVector<double,dim> N; n.mv(in,N); N/=N.two_norm();
          return gradients(fe,geo,x)[j]*N;
        }
        if (total==0) return values(fe,x)[j];
        std::vector<int> ds; for (int d=0;d<dim;++d) for (unsigned c=0;c<fd.partialDerivativeOrder()[d];++c) ds.push_back(d);
        if (total==1) return gradients(fe,geo,x)[j][ds[0]];
        return hessians(fe,geo,x)[j][ds[0]][ds[1]];
      };
      double own=functional(i);
      for (std::size_t j=0;j<fe.size();++j) {
        double v=functional(j);
        if (j==i) PBT_CHECK(g, std::abs(v)>1e-12, "functional ", i, " of its own basis function is ", v);
        else if (fe.localCoefficients().localKey(j).codim()==k.codim()) PBT_CHECK(g, std::abs(v)<=1e-7*std::abs(own), "functional ", i, " of basis function ", j, " is ", v);
      }
    }
    break;
  }
}

struct Spec {
  int degree;                 // interpolation reproduces polynomials of this degree
  bool value, grad;           // continuous on whole facets
  bool valueAtVertices, gradAtVertices, hessAtVertices, normalAtMidpoints;
};

template<class Basis>
void checkEntities(pbt::Gen& g, const Basis& basis, std::array<unsigned,Basis::GridView::dimension+1> perEntity /* by dimension */)
{
  constexpr int dim=Basis::GridView::dimension;
  const auto& mesh=basis.gridView().grid().mesh();
  std::size_t expected=0;
  for (int c=0;c<=dim;++c) expected+=mesh.ent[c].size()*perEntity[dim-c];
  PBT_CHECK(g, basis.dimension()==expected, "dimension ", basis.dimension(), " expected from the entity counts ", expected);
  using Key=std::array<unsigned,3>;
  std::map<std::size_t,std::set<Key>> owner; std::map<std::size_t,std::set<unsigned>> users; std::map<std::pair<unsigned,unsigned>,std::set<unsigned>> at;
  auto lv=basis.localView();
  for (const auto& e:elements(basis.gridView())) {
    lv.bind(e); unsigned pos=e.impl().pos();
    for (int c=0;c<=dim;++c) for (auto s:mesh.sub[pos][c]) at[{unsigned(c),s}].insert(pos);
    const auto& lc=lv.tree().finiteElement().localCoefficients();
    for (std::size_t i=0;i<lv.size();++i) {
      auto I=mi(lv.index(lv.tree().localIndex(i)));
      PBT_CHECK(g, I.size()==1 && I[0]<expected, "index out of range");
      auto k=lc.localKey(i);
      owner[I[0]].insert(Key{k.codim(),mesh.sub[pos][k.codim()][k.subEntity()],k.index()});
      users[I[0]].insert(pos);
    }
  }
  PBT_CHECK(g, owner.size()==expected, "only ", owner.size(), " of ", expected, " indices are used");
  std::set<Key> all;
  for (auto& [i,s]:owner) {
    PBT_CHECK(g, s.size()==1, "index ", i, " belongs to ", s.size(), " different places");
    PBT_CHECK(g, all.insert(*s.begin()).second, "two indices for one place");
    PBT_CHECK(g, (users[i]==at[{(*s.begin())[0],(*s.begin())[1]}]), "index ", i, " is not used by all elements at its entity");
  }
}

template<class Basis>
void checkH2(pbt::Gen& g, const Basis& basis, Spec spec)
{
  using GV=typename Basis::GridView;
  constexpr int dim=GV::dimension;
  auto gv=basis.gridView();
  // local derivatives agree with differences of the values
  {
    auto lv=basis.localView(); int n=0;
    for (const auto& e:elements(gv)) {
      if (++n>2) break;
      lv.bind(e);
      const auto& lb=lv.tree().finiteElement().localBasis();
      using LB=std::decay_t<decltype(lb)>;
      auto x=gen::samplePoints<dim>(e.type(),1)[0];
      std::vector<typename LB::Traits::JacobianType> J,Jp,Jm; lb.evaluateJacobian(x,J);
      std::vector<typename LB::Traits::HessianType> H; lb.evaluateHessian(x,H);
      std::vector<typename LB::Traits::RangeType> vp,vm,pd;
      double sc=0; for (auto& j:J) sc=std::max(sc,j.infinity_norm()); for (auto& h:H) sc=std::max(sc,h.infinity_norm());
      for (int d=0;d<dim;++d) {
        double eps=1e-4; auto xp=x, xm=x; xp[d]+=eps; xm[d]-=eps;
        lb.evaluateFunction(xp,vp); lb.evaluateFunction(xm,vm);
        lb.evaluateJacobian(xp,Jp); lb.evaluateJacobian(xm,Jm);
        std::array<unsigned,dim> o{}; o[d]=1; lb.partial(o,x,pd);
        for (std::size_t i=0;i<J.size();++i) {
          PBT_CHECK(g, std::abs((vp[i][0]-vm[i][0])/(2*eps)-J[i][0][d])<1e-5*sc, "Jacobian of shape function ", i, " direction ", d);
          PBT_CHECK(g, std::abs(pd[i][0]-J[i][0][d])<1e-10*sc, "partial() of first order, shape function ", i);
        }
        for (int c=0;c<dim;++c) {
          auto o2=o; ++o2[c]; lb.partial(o2,x,pd);
          for (std::size_t i=0;i<J.size();++i) {
            PBT_CHECK(g, std::abs((Jp[i][0][c]-Jm[i][0][c])/(2*eps)-H[i][c][d])<1e-5*sc, "Hessian of shape function ", i, " entry ", c, d);
            PBT_CHECK(g, std::abs(pd[i][0]-H[i][c][d])<1e-10*sc, "partial() of second order, shape function ", i);
          }
        }
      }
    }
  }
  checkDescriptors(g,basis);
  // continuity
  auto vdiff=[](auto& a, auto& b){ return (a-b).infinity_norm(); };
  forEachInteriorFacet(basis,[&](auto& in, auto& out, auto& is) {
    auto gi=is.geometryInInside(), go=is.geometryInOutside();
    auto geoI=in.element().geometry(), geoO=out.element().geometry();
    const auto& fi=in.tree().finiteElement(); const auto& fo=out.tree().finiteElement();
    auto scaleOf=[](auto& a, auto& b) { double s=0; for (auto& v:a) s=std::max(s,v.infinity_norm()); for (auto& v:b) s=std::max(s,v.infinity_norm()); return s; };
    auto at=[&](auto x, bool v, bool dv, bool nd, bool hv) {
      auto xi=gi.global(x), xo=go.global(x);
      if (v) { auto a=values(fi,xi), b=values(fo,xo); double s=1+scaleOf(a,b);
        compareMaps(g,byIndex(in,in.tree(),a),byIndex(out,out.tree(),b),vdiff,1e-7*s,"value"); }
      if (dv||nd) { auto a=gradients(fi,geoI,xi), b=gradients(fo,geoO,xo); double s=scaleOf(a,b); auto n=is.unitOuterNormal(x);
        if (dv) compareMaps(g,byIndex(in,in.tree(),a),byIndex(out,out.tree(),b),vdiff,1e-7*s,"gradient");
        else compareMaps(g,byIndex(in,in.tree(),a),byIndex(out,out.tree(),b),[&](auto& p, auto& q){ return std::abs((p-q)*n); },1e-7*s,"normal derivative"); }
      if (hv) { auto a=hessians(fi,geoI,xi), b=hessians(fo,geoO,xo); double s=scaleOf(a,b);
        compareMaps(g,byIndex(in,in.tree(),a),byIndex(out,out.tree(),b),[](auto& p, auto& q){ auto d=p; d-=q; return d.infinity_norm(); },1e-7*s,"Hessian"); }
    };
    for (auto& x:gen::samplePoints<dim-1>(is.type(),dim==1?1:3)) at(x,spec.value,spec.grad,false,false);
    auto rf=referenceElement<double,dim-1>(is.type());
    for (int i=0;i<rf.size(dim-1);++i) at(rf.position(i,dim-1),spec.valueAtVertices,spec.gradAtVertices,false,spec.hessAtVertices);
    if (spec.normalAtMidpoints) at(rf.position(0,0),false,false,true,false);
  });
  // reproduction of polynomials
  auto p=genPoly<dim>(g,spec.degree,gv);
  BlockVector<FieldVector<double,1>> c;
  interpolate(basis,c,p);
  PBT_CHECK(g, c.size()==basis.dimension(), "size of the coefficient vector");
  auto f=Functions::makeDiscreteGlobalBasisFunction<double>(basis,c);
  auto lf=localFunction(f); auto ldf=localFunction(derivative(f));
  auto lv=basis.localView();
  for (const auto& e:elements(gv)) {
    lf.bind(e); ldf.bind(e); lv.bind(e);
    auto geo=e.geometry();
    for (auto& x:gen::samplePoints<dim>(e.type(),2)) {
      auto X=geo.global(x);
      PBT_CHECK(g, std::abs(lf(x)-p.value(X))<1e-7, "interpolated polynomial has value ", lf(x), " instead of ", p.value(X));
      auto d=gradientVector<dim>(ldf(x)); auto dp=p.grad(X);
      double sc=dim*2*spec.degree/p.s;
      for (int k=0;k<dim;++k) PBT_CHECK(g, std::abs(d[k]-dp[k])<1e-6*sc*30, "gradient of the interpolated polynomial, component ", k, ": ", d[k], " instead of ", dp[k]);
      auto h=hessians(lv.tree().finiteElement(),geo,x); FieldMatrix<double,dim,dim> H(0); double hs=0;
      for (std::size_t i=0;i<lv.size();++i) { auto t=h[i]; t*=c[lv.index(lv.tree().localIndex(i))]; hs=std::max(hs,t.infinity_norm()); H+=t; }
      auto ph=p.hess(X);
      for (int a=0;a<dim;++a) for (int b=0;b<dim;++b) PBT_CHECK(g, std::abs(H[a][b]-ph[a][b])<1e-8*hs+1e-9*sc*sc, "Hessian of the interpolated polynomial ", H[a][b], " instead of ", ph[a][b]);
    }
  }
}

template<int dim> gen::MeshOptions h2mesh(unsigned cells) { gen::MeshOptions o; o.maxCells=cells; o.maxGrading=1.5; return o; }
