// Polynomials, monomial sets and trigonometric functions against exact integer arithmetic.
#include "pbt.hh"
#include <array>
#include <complex>
#include <tuple>
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/indices.hh>
#include <dune/functions/analyticfunctions/polynomial.hh>
#include <dune/functions/analyticfunctions/monomialset.hh>
#include <dune/functions/analyticfunctions/trigonometricfunction.hh>
#include <dune/functions/common/differentiablefunction.hh>
using namespace Dune; namespace F=Dune::Functions;
using L=long long;
L ipow(L x, int k) { L r=1; while (k-->0) r*=x; return r; }
// the d-th derivative of sum c_i x^i
template<class V> L exact(const V& c, L x, int d) { L r=0; for (int i=d;i<int(c.size());++i) { L f=c[i]; for (int k=0;k<d;++k) f*=i-k; r+=f*ipow(x,i-d); } return r; }
template<class V> double approx(const V& c, double x, int d, double& scale) { double r=0; scale=1; for (int i=d;i<int(c.size());++i) { double f=c[i]; for (int k=0;k<d;++k) f*=i-k; double t=f*std::pow(x,i-d); if (i==d) t=f; r+=t; scale=std::max(scale,std::abs(t)); } return r; }

template<int depth, class P> void checkPoly(pbt::Gen& g, const P& p, const std::vector<L>& c, const std::string& what, int d=0)
{
  for (int k=0;k<2;++k) {
    L x=g.range(-5,5); auto w=exact(c,x,d);
    using K=std::decay_t<decltype(p(1))>;
    PBT_CHECK(g, p(K(x))==K(w), what, ": derivative ", d, " at ", x, ": ", p(K(x)), " instead of ", w);
    if constexpr (std::is_same_v<K,double>) { double y=2*g.unit(), s, v=approx(c,y,d,s); PBT_CHECK(g, std::abs(p(y)-v)<=1e-11*s, what, ": derivative ", d, " at ", y, ": ", p(y), " instead of ", v); }
  }
  PBT_CHECK(g, p==p, what, ": equality");
  if constexpr (depth>0) { auto q=p; auto dp=derivative(q); q=P(); checkPoly<depth-1>(g,dp,c,what,d+1); }
}
std::vector<L> coefs(pbt::Gen& g, int n) { std::vector<L> c(n); for (auto& x:c) x=g.range(-6,6); if (g.chance(1,4) && n>0) c[g.below(n)]=0; g.nontrivial(n>1); std::ostringstream s; for (auto x:c) s << x << " "; g.describe(s.str()); return c; }
template<class T> std::vector<T> conv(const std::vector<L>& c) { return std::vector<T>(c.begin(),c.end()); }

PROPERTY(polynomial_vector,4000)
{
  auto c=coefs(g,g.range(0,8));
  switch (g.below(6)) {
    case 0: checkPoly<10>(g,F::Polynomial<double>(conv<double>(c)),c,"vector<double>"); break;
    case 1: checkPoly<10>(g,F::Polynomial(conv<L>(c)),c,"vector<long long>, deduced"); break;
    case 2: checkPoly<10>(g,F::makePolynomial<double>(conv<int>(c)),c,"vector<int>, double"); break;
    case 3: checkPoly<10>(g,F::Polynomial<L,std::vector<int>>(conv<int>(c)),c,"vector<int>, long long"); break;
    case 4: { F::Polynomial<double> p(conv<double>(c)); auto q=p; auto o=c; if (!o.empty()) { o[g.below(o.size())]+=1; PBT_CHECK(g, !(p==F::Polynomial<double>(conv<double>(o))), "different polynomials are equal"); } q=p; PBT_CHECK(g, q==p, "equality"); checkPoly<3>(g,q,c,"copy"); break; }
    default: { // through the type erasure
      F::DifferentiableFunction<double(double)> f=F::Polynomial<double>(conv<double>(c)); L x=g.range(-5,5); PBT_CHECK(g, f(x)==exact(c,x,0), "DifferentiableFunction"); auto df=derivative(f); PBT_CHECK(g, df(x)==exact(c,x,1), "derivative(DifferentiableFunction)"); auto ddf=derivative(df); PBT_CHECK(g, ddf(x)==exact(c,x,2), "second derivative(DifferentiableFunction)"); }
  }
}
template<std::size_t n> void arrays(pbt::Gen& g)
{
  auto c=coefs(g,n); std::array<double,n> a{}; std::array<int,n> b{}; for (std::size_t i=0;i<n;++i) { a[i]=c[i]; b[i]=c[i]; }
  checkPoly<n+2>(g,F::Polynomial<double,std::array<double,n>>(a),c,"array<double>"); checkPoly<n+2>(g,F::makePolynomial<double>(b),c,"array<int>, double"); checkPoly<n+2>(g,F::makePolynomial<L>(b),c,"array<int>, long long");
  if constexpr (n>0) { checkPoly<1>(g,F::Polynomial(b),c,"array<int>, deduced"); }
}
PROPERTY(polynomial_array,2000) { switch (g.below(6)) { case 0: arrays<0>(g); break; case 1: arrays<1>(g); break; case 2: arrays<2>(g); break; case 3: arrays<3>(g); break; case 4: arrays<5>(g); break; default: arrays<7>(g); } }
PROPERTY(polynomial_list,1000)
{
  auto c=coefs(g,3); double a=c[0], b=c[1], d=c[2];
  checkPoly<4>(g,F::Polynomial({a,b,d}),c,"initializer list"); checkPoly<4>(g,F::Polynomial<double>({a,b,d}),c,"initializer list"); checkPoly<4>(g,F::makePolynomial<double>({a,b,d}),c,"initializer list, makePolynomial");
  checkPoly<4>(g,F::makePolynomial<double>({int(c[0]),int(c[1]),int(c[2])}),c,"initializer list of int, double"); checkPoly<4>(g,F::makePolynomial<L>({int(c[0]),int(c[1]),int(c[2])}),c,"initializer list of int, long long");
}
template<class I, I... i> void sequence(pbt::Gen& g)
{
  std::vector<L> c{L(i)...}; g.nontrivial(); using S=std::integer_sequence<I,i...>;
  checkPoly<sizeof...(i)+2>(g,F::Polynomial<double,S>(S()),c,"integer_sequence, double"); checkPoly<sizeof...(i)+2>(g,F::makePolynomial<L>(S()),c,"integer_sequence, long long"); if constexpr (sizeof...(i)>0) checkPoly<1>(g,F::Polynomial(S()),c,"integer_sequence, deduced");
}
PROPERTY(polynomial_sequence,1000)
{
  int k=g.below(9); g.describe(std::to_string(k));
  switch (k) { case 0: sequence<int>(g); break; case 1: sequence<int,-3>(g); break; case 2: sequence<int,0,0,0>(g); break; case 3: sequence<int,1,-2,3,-4,5>(g); break; case 4: sequence<L,0,7,0,0,-9,0,2>(g); break;
    case 5: sequence<unsigned,1,2,3,4>(g); break; case 6: sequence<std::size_t,5,0,1>(g); break; case 7: sequence<short,-1,0,0,0,1>(g); break; default: sequence<long,0,1,-1,1,-1,1,-1,1>(g); }
}
template<class... T> void tuple(pbt::Gen& g, const std::tuple<T...>& t)
{
  std::vector<L> c; std::apply([&](auto... x) { (c.push_back(L(x)),...); },t); g.nontrivial();
  checkPoly<sizeof...(T)+2>(g,F::makePolynomial<double>(t),c,"tuple, double"); checkPoly<sizeof...(T)+2>(g,F::Polynomial<L,std::tuple<T...>>(t),c,"tuple, long long");
}
PROPERTY(polynomial_tuple,1500)
{
  using namespace Dune::Indices; auto I=[&] { return g.range(-5,5); }; std::integral_constant<int,-2> m2; std::integral_constant<int,0> z; std::integral_constant<int,3> p3;
  int k=g.below(8); g.describe(std::to_string(k));
  switch (k) { case 0: tuple(g,std::tuple<>()); break; case 1: tuple(g,std::make_tuple(I())); break; case 2: tuple(g,std::make_tuple(z)); break; case 3: tuple(g,std::make_tuple(I(),z,m2,L(I()))); break;
    case 4: tuple(g,std::make_tuple(m2,p3,z,z,m2)); break; case 5: tuple(g,std::make_tuple(double(I()),I(),L(I()),double(I()))); break; case 6: tuple(g,std::make_tuple(z,z,z,I(),z)); break; default: tuple(g,std::make_tuple(_0,_1,_2,I(),_0,m2)); }
}
// --- monomials
template<class R, class D, int dim, int deg> void monomials(pbt::Gen& g)
{
  F::MonomialSet<R,dim,deg> m; g.nontrivial(deg>1); g.label("dimension "+std::to_string(dim)+", degree "+std::to_string(deg));
  // documented order: by degree; in a degree the last coordinate varies slowest
  std::vector<std::array<std::size_t,dim>> want;
  for (int d=0;d<=deg;++d) { if constexpr (dim==1) want.push_back({std::size_t(d)}); else if constexpr (dim==2) for (int k=0;k<=d;++k) want.push_back({std::size_t(d-k),std::size_t(k)}); else for (int k=0;k<=d;++k) for (int l=0;l<=d-k;++l) want.push_back({std::size_t(d-k-l),std::size_t(l),std::size_t(k)}); }
  auto e=m.exponents(); PBT_CHECK(g, int(want.size())==m.size && e.size()==want.size(), "size ", m.size, " instead of ", want.size());
  for (std::size_t i=0;i<want.size();++i) PBT_CHECK(g, e[i]==want[i], "exponents of monomial ", i);
  auto pw=[](auto x, int k) { decltype(x) r=1; while (k-->0) r*=x; return r; };
  for (int t=0;t<3;++t) {
    FieldVector<D,dim> x; for (auto& v:x) { if constexpr (std::is_integral_v<D>) v=g.range(-4,4); else v=g.coin()?D(g.range(-4,4)):D(g.unit()*2); }
    auto eq=[&](R a, R b) { if constexpr (std::is_integral_v<R>) return a==b; else return std::abs(a-b)<=R(std::is_same_v<R,float> || std::is_same_v<D,float> ? 1e-4:1e-11)*std::max({R(1),std::abs(a),std::abs(b)}); };
    auto y=m(x); auto dm=derivative(m); auto J=dm(x); auto H=derivative(dm)(x);
    PBT_CHECK(g, int(y.size())==m.size && int(J.N())==m.size && int(H.size())==m.size, "size of the value");
    auto mono=[&](std::array<int,dim> ex, L f) { R r=R(f); for (int d=0;d<dim;++d) { if (ex[d]<0) return R(0); r*=pw(R(x[d]),ex[d]); } return r; };
    for (int i=0;i<m.size;++i) {
      std::array<int,dim> ex; for (int d=0;d<dim;++d) ex[d]=want[i][d];
      PBT_CHECK(g, eq(y[i],mono(ex,1)), "value of monomial ", i, " at ", x, ": ", y[i], " instead of ", mono(ex,1));
      for (int a=0;a<dim;++a) {
        auto ea=ex; L fa=ea[a]--; if (fa==0) ea[a]=0; PBT_CHECK(g, eq(J[i][a],mono(ea,fa)), "derivative ", a, " of monomial ", i, " at ", x, ": ", J[i][a], " instead of ", mono(ea,fa));
        for (int b=0;b<dim;++b) { auto eb=ea; L fb=fa*eb[b]; eb[b]=std::max(0,eb[b]-1); PBT_CHECK(g, eq(H[i][a][b],mono(eb,fb)), "second derivative ", a, ",", b, " of monomial ", i, " at ", x, ": ", H[i][a][b], " instead of ", mono(eb,fb)); }
      }
    }
  }
}
template<class R, class D, int dim> void degrees(pbt::Gen& g)
{ switch (g.below(8)) { case 0: monomials<R,D,dim,0>(g); break; case 1: monomials<R,D,dim,1>(g); break; case 2: monomials<R,D,dim,2>(g); break; case 3: monomials<R,D,dim,3>(g); break; case 4: monomials<R,D,dim,4>(g); break; case 5: monomials<R,D,dim,5>(g); break; case 6: monomials<R,D,dim,6>(g); break; default: monomials<R,D,dim,7>(g); } }
#define M(dim) PROPERTY(monomials_##dim##d,3000) { switch (g.below(4)) { case 0: degrees<L,L,dim>(g); break; case 1: degrees<double,double,dim>(g); break; case 2: degrees<double,int,dim>(g); break; default: degrees<double,float,dim>(g); } }
M(1) M(2) M(3)
// --- trigonometric functions
template<int depth, class Fn> void trig(pbt::Gen& g, const Fn& f, double s, double c)
{
  double x=8*g.unit(); double w=s*std::sin(x)+c*std::cos(x); PBT_CHECK(g, std::abs(f(x)-w)<1e-13*(1+std::abs(s)+std::abs(c)), "value ", f(x), " instead of ", w, " for ", s, " sin + ", c, " cos");
  if constexpr (depth>0) { auto d=derivative(f); double h=1e-5; PBT_CHECK(g, std::abs(d(x)-(f(x+h)-f(x-h))/(2*h))<1e-6*(1+std::abs(s)+std::abs(c)), "derivative against differences"); trig<depth-1>(g,d,-c,s); }
}
template<int s, int c> void trigs(pbt::Gen& g) { trig<6>(g,F::TrigonometricFunction<double,s,c>(),s,c); }
PROPERTY(trigonometric,1000) { g.nontrivial(); switch (g.below(6)) { case 0: trigs<1,0>(g); break; case 1: trigs<0,1>(g); break; case 2: trigs<2,-3>(g); break; case 3: trigs<-1,-1>(g); break; case 4: trigs<0,0>(g); break; default: trigs<-4,5>(g); } }
#include "main.hh"
