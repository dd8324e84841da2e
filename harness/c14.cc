#include "config.h"
#include "pbt.hh"
#include "util.hh"
#include "meshgen.hh"
#include <dune/grid/yaspgrid.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
using namespace Dune; namespace BF=Dune::Functions::BasisFactory;
using util::MI; using util::mi; using util::str;

// polynomials in the scaled variable s=(t-a)/h of one knot span
using P=std::vector<long double>;
static P mul(const P& a, const P& b) { P r(a.size()+b.size()-1,0); for (std::size_t i=0;i<a.size();++i) for (std::size_t j=0;j<b.size();++j) r[i+j]+=a[i]*b[j]; return r; }
static P add(P a, const P& b) { if (a.size()<b.size()) a.resize(b.size(),0); for (std::size_t i=0;i<b.size();++i) a[i]+=b[i]; return a; }
static P diff(const P& a) { P r; for (std::size_t i=1;i<a.size();++i) r.push_back(i*a[i]); if (r.empty()) r.push_back(0); return r; }
static long double eval(const P& a, long double s) { long double r=0; for (std::size_t i=a.size();i-->0;) r=r*s+a[i]; return r; }

// restriction of the B-spline number i of order p to the (nonempty) span [t_m,t_{m+1}]
static P spline(const std::vector<double>& t, std::size_t i, unsigned p, std::size_t m)
{
  if (p==0) return {i==m ? 1.0L : 0.0L};
  long double a=t[m], h=(long double)t[m+1]-t[m];
  P r{0};
  if (t[i+p]>t[i]) { long double d=(long double)t[i+p]-t[i]; r=add(r,mul({(a-t[i])/d,h/d},spline(t,i,p-1,m))); }
  if (t[i+p+1]>t[i+1]) { long double d=(long double)t[i+p+1]-t[i+1]; r=add(r,mul({(t[i+p+1]-a)/d,-h/d},spline(t,i+1,p-1,m))); }
  return r;
}

template<int dim, class Basis>
void checkSplines(pbt::Gen& g, const Basis& b, const std::array<std::vector<double>,dim>& knots, unsigned p, bool open, int comps)
{
  auto gv=b.gridView();
  std::array<std::size_t,dim> n; std::size_t total=1; for (int d=0;d<dim;++d) { n[d]=knots[d].size()-p-1; total*=n[d]; }
  PBT_CHECK(g, b.dimension()==total*comps, "dimension ", b.dimension(), " instead of ", total*comps);
  auto lv=b.localView();
  std::set<std::size_t> seen;
  for (const auto& e:elements(gv)) {
    lv.bind(e);
    auto geo=e.geometry(); auto lo=geo.corner(0), up=geo.corner((1<<dim)-1);
    std::array<std::size_t,dim> span; std::array<std::vector<P>,dim> poly; std::array<double,dim> h;
    for (int d=0;d<dim;++d) {
      double c=0.5*(lo[d]+up[d]); span[d]=0; while (!(knots[d][span[d]]<=c && c<knots[d][span[d]+1])) ++span[d];
      h[d]=knots[d][span[d]+1]-knots[d][span[d]];
      for (std::size_t i=0;i<n[d];++i) poly[d].push_back(spline(knots[d],i,p,span[d]));
    }
    auto zero=[](const P& a) { return std::all_of(a.begin(),a.end(),[](auto x){return x==0;}); };
    std::set<std::size_t> expected;
    for (std::size_t G=0;G<total;++G) { std::size_t r=G; bool z=false; for (int d=0;d<dim;++d) { if (zero(poly[d][r%n[d]])) z=true; r/=n[d]; } if (!z) expected.insert(G); }
    auto leaf=[&](const auto& node, int comp, std::size_t stride) {
      const auto& fe=node.finiteElement();
      PBT_CHECK(g, fe.size()==expected.size() && node.size()==expected.size() && fe.localBasis().size()==expected.size() && fe.localCoefficients().size()==expected.size(), "local size ", node.size(), " instead of ", expected.size());
      PBT_CHECK(g, fe.localBasis().order()==p, "order");
      std::vector<std::size_t> G(node.size());
      for (std::size_t i=0;i<node.size();++i) {
        auto m=mi(lv.index(node.localIndex(i))); PBT_CHECK(g, m.size()==1 && m[0]%stride==std::size_t(comp), "index ", str(m));
        G[i]=m[0]/stride; seen.insert(m[0]);
      }
      PBT_CHECK(g, std::set<std::size_t>(G.begin(),G.end())==expected, "the listed functions are not those that are nonzero on the element");
      for (int k=0;k<2;++k) {
        FieldVector<double,dim> x; for (int d=0;d<dim;++d) x[d]=g.unit01();
        auto v=util::values(fe,x); std::vector<FieldMatrix<double,1,dim>> J; fe.localBasis().evaluateJacobian(x,J);
        std::vector<FieldVector<double,1>> D1, D2; 
        std::array<int,1> d1{int(g.below(dim))}; std::array<int,2> d2{int(g.below(dim)),int(g.below(dim))};
        fe.localBasis().template evaluate<1>(d1,x,D1);
        fe.localBasis().template evaluate<2>(d2,x,D2);
        PBT_CHECK(g, v.size()==G.size() && J.size()==G.size() && D1.size()==G.size() && D2.size()==G.size(), "number of values");
        double sum=0;
        for (std::size_t i=0;i<G.size();++i) {
          auto val=[&](std::array<int,dim> order) { std::size_t r=G[i]; long double z=1; for (int d=0;d<dim;++d) { P q=poly[d][r%n[d]]; r/=n[d]; for (int o=0;o<order[d];++o) q=diff(q); z*=eval(q,x[d]); } return double(z); };
          auto check=[&](double a, double ref, const std::string& what) { PBT_CHECK(g, std::abs(a-ref)<=1e-8*std::max(1.0,std::abs(ref)), what, " of function ", G[i], " is ", a, " instead of ", ref); };
          std::array<int,dim> o{}; check(v[i][0],val(o),"value"); sum+=v[i][0];
          for (int d=0;d<dim;++d) { o={}; o[d]=1; check(J[i][0][d],val(o),"Jacobian entry"); }
          o={}; o[d1[0]]=1; check(D1[i][0],val(o),"first derivative");
          o={}; ++o[d2[0]]; ++o[d2[1]]; check(D2[i][0],val(o),"second derivative ("+std::to_string(d2[0])+","+std::to_string(d2[1])+")");
        }
        if (open) PBT_CHECK(g, std::abs(sum-1)<1e-9, "the functions sum to ", sum);
      }
    };
    if constexpr (requires { lv.tree().finiteElement(); }) leaf(lv.tree(),0,1);
    else for (int c=0;c<comps;++c) leaf(lv.tree().child(c),c,comps);
  }
  PBT_CHECK(g, seen.size()==total*comps, "not all functions are used");
}

template<int dim>
void run(pbt::Gen& g, int maxEl, int maxOrder)
{
  bool uniform=g.coin(), open=!g.chance(1,3);
  unsigned p=g.range(0,maxOrder);
  std::array<std::vector<double>,dim> raw, knots; std::array<unsigned,dim> n;
  double scale=g.pick(std::vector<double>{1,0.1,10,100});
  auto el=[&] { return g.range(open?1:int(p)+1,open?maxEl:std::max<int>(maxEl,p+1)); };
  if (uniform) for (int d=0;d<dim;++d) {
    n[d]=el(); double a=g.unit()*scale, b=a+scale*(0.2+g.unit01());
    for (unsigned i=0;i<=n[d];++i) raw[d].push_back(a+i*(b-a)/n[d]);
  }
  else {
    int m=el(); std::vector<double> t{g.unit()*scale}; for (int i=0;i<m;++i) t.push_back(t.back()+scale*std::pow(10.0,g.unit())*0.3);
    raw.fill(t); n.fill(m);
  }
  for (int d=0;d<dim;++d) {
    knots[d]=raw[d];
    if (open) { knots[d].insert(knots[d].begin(),p,raw[d].front()); knots[d].insert(knots[d].end(),p,raw[d].back()); }
  }
  std::ostringstream s; s << dim << "d, order " << p << ", " << (uniform?"uniform":"graded") << (open?" open":"") << ", elements"; for (auto k:n) s << " " << k;
  g.describe(s.str()); g.label(std::string(uniform?"uniform":"graded")+(open?" open":" not open")); g.label("order "+std::to_string(p)); g.nontrivial(p>0 && n[0]>1);
  using Grid=YaspGrid<dim,TensorProductCoordinates<double,dim>>;
  Grid grid(raw); auto gv=grid.leafGridView(); using GV=decltype(gv);
  if (uniform) {
    FieldVector<double,dim> lo, up; for (int d=0;d<dim;++d) { lo[d]=raw[d].front(); up[d]=raw[d].back(); }
    Functions::BSplineBasis<GV> b(gv,lo,up,n,p,open);
    checkSplines<dim>(g,b,knots,p,open,1);
    auto c=b; checkSplines<dim>(g,c,knots,p,open,1);
  }
  else {
    auto b=BF::makeBasis(gv,BF::bSpline(raw[0],p,open));
    checkSplines<dim>(g,b,knots,p,open,1);
    if constexpr (dim<3) { auto pb=BF::makeBasis(gv,BF::power<2>(BF::bSpline(raw[0],p,open),BF::flatInterleaved())); checkSplines<dim>(g,pb,knots,p,open,2); }
  }
}
PROPERTY(bspline_1d, 6000) { run<1>(g,7,6); }
PROPERTY(bspline_2d, 1500) { run<2>(g,4,4); }
PROPERTY(bspline_3d, 600) { run<3>(g,3,3); }
#include "main.hh"
