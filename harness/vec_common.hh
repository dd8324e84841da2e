#include <config.h>
#include "pbt.hh"
#include "fuzzgrid.hh"
#include "meshgen.hh"
#include "util.hh"
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
using namespace Dune;
using namespace util;
namespace BF = Dune::Functions::BasisFactory;

// every global index is used; facet (edge) DOFs by exactly the elements at the facet (edge),
// the sub-entity being the one the local coefficients report
template<class Basis>
void checkSharing(pbt::Gen& g, const Basis& basis)
{
  constexpr int dim=Basis::GridView::dimension;
  auto gv=basis.gridView();
  const auto& mesh=gv.grid().mesh();
  using Key=std::pair<int,unsigned>;
  std::map<std::size_t,std::set<Key>> owner;                 // entities that claim the index
  std::map<std::size_t,std::set<unsigned>> users;            // elements that use the index
  std::map<Key,std::set<unsigned>> at;                       // elements at an entity
  auto lv=basis.localView();
  for (const auto& e:elements(gv)) {
    lv.bind(e);
    unsigned pos=e.impl().pos();
    for (int c=0;c<=dim;++c) for (auto s:mesh.sub[pos][c]) at[{c,s}].insert(pos);
    const auto& lc=lv.tree().finiteElement().localCoefficients();
    PBT_CHECK(g, lc.size()==lv.size(), "local sizes");
    std::set<MI> seen;
    for (std::size_t i=0;i<lv.size();++i) {
      auto I=mi(lv.index(lv.tree().localIndex(i)));
      PBT_CHECK(g, I.size()==1 && I[0]<basis.dimension(), "index out of range");
      PBT_CHECK(g, seen.insert(I).second, "index ", I[0], " twice in one element");
      auto k=lc.localKey(i);
      owner[I[0]].insert({int(k.codim()),mesh.sub[pos][k.codim()][k.subEntity()]});
      users[I[0]].insert(pos);
    }
  }
  PBT_CHECK(g, owner.size()==basis.dimension(), "only ", owner.size(), " of ", basis.dimension(), " global indices are used");
  for (auto& [i,s]:owner) {
    PBT_CHECK(g, s.size()==1, "index ", i, " belongs to ", s.size(), " different entities");
    PBT_CHECK(g, users[i]==at[*s.begin()], "index ", i, " is used by ", users[i].size(), " of the ", at[*s.begin()].size(), " elements at its entity");
  }
}

// Jacobian with respect to local coordinates against central differences of the values
template<class Basis>
void checkDerivative(pbt::Gen& g, const Basis& basis)
{
  constexpr int dim=Basis::GridView::dimension;
  auto lv=basis.localView();
  int count=0;
  for (const auto& e:elements(basis.gridView())) {
    if (++count>3) break;
    lv.bind(e);
    const auto& lb=lv.tree().finiteElement().localBasis();
    using LB=std::decay_t<decltype(lb)>;
    auto x=gen::samplePoints<dim>(e.type(),1)[0];
    std::vector<typename LB::Traits::JacobianType> J; lb.evaluateJacobian(x,J);
    std::vector<typename LB::Traits::RangeType> vp,vm,v;
    lb.evaluateFunction(x,v);
    PBT_CHECK(g, v.size()==lv.size() && J.size()==lv.size(), "number of values");
    double scale=0; for (auto& a:v) scale=std::max(scale,a.infinity_norm()); for (auto& a:J) scale=std::max(scale,a.infinity_norm());
    for (int d=0;d<dim;++d) {
      double eps=1e-4; auto xp=x, xm=x; xp[d]+=eps; xm[d]-=eps;
      lb.evaluateFunction(xp,vp); lb.evaluateFunction(xm,vm);
      for (std::size_t i=0;i<v.size();++i) for (std::size_t c=0;c<v[i].size();++c)
        PBT_CHECK(g, std::abs((vp[i][c]-vm[i][c])/(2*eps)-J[i][c][d])<=1e-5*scale, "Jacobian of shape function ", i, " component ", c, " direction ", d, ": ", J[i][c][d], " but differences give ", (vp[i][c]-vm[i][c])/(2*eps));
      if constexpr (dim==2) {
        std::array<unsigned,2> o{}; o[d]=1;
        std::vector<typename LB::Traits::RangeType> pd; lb.partial(o,x,pd);
        for (std::size_t i=0;i<v.size();++i) for (std::size_t c=0;c<v[i].size();++c)
          PBT_CHECK(g, std::abs(pd[i][c]-J[i][c][d])<=1e-9*scale, "partial() and evaluateJacobian() differ");
      }
    }
  }
}

template<class Basis, class Trace>
void checkTraces(pbt::Gen& g, const Basis& basis, Trace&& trace, const char* what)
{
  constexpr int dim=Basis::GridView::dimension;
  forEachInteriorFacet(basis,[&](auto& in, auto& out, auto& is) {
    auto gi=is.geometryInInside(), go=is.geometryInOutside();
    for (auto& x:gen::samplePoints<dim-1>(is.type(),dim==2?3:4)) {
      auto a=values(in.tree().finiteElement(),gi.global(x));
      auto b=values(out.tree().finiteElement(),go.global(x));
      double scale=0;
      for (auto& v:a) scale=std::max(scale,v.infinity_norm());
      for (auto& v:b) scale=std::max(scale,v.infinity_norm());
      auto n=is.unitOuterNormal(x);
      compareMaps(g,byIndex(in,in.tree(),a),byIndex(out,out.tree(),b),[&](auto& p,auto& q){ auto d=p; d-=q; return trace(d,n); },1e-7*scale,what);
    }
  });
}

inline auto normalTrace=[](auto d, auto n){ return std::abs(d*n); };
inline auto tangentialTrace=[](auto d, auto n){ d.axpy(-(d*n),n); return d.two_norm(); };

template<int k, int dim, FuzzKind kind>
void rt(pbt::Gen& g, gen::MeshOptions o)
{
  o.affine=true;
  if (k>0) { o.prisms=o.pyramids=false; }
  auto grid=gen::grid<dim,dim,kind>(g,o);
  auto gv=grid->leafGridView();
  g.nontrivial(gv.size(0)>1); g.describe("RT"+std::to_string(k));
  auto b=BF::makeBasis(gv,BF::raviartThomas<k>());
  checkSharing(g,b);
  checkTraces(g,b,normalTrace,"normal component");
  checkDerivative(g,b);
}
template<int k, int dim, FuzzKind kind>
void bdm(pbt::Gen& g, gen::MeshOptions o)
{
  o.affine=true;
  auto grid=gen::grid<dim,dim,kind>(g,o);
  auto gv=grid->leafGridView();
  g.nontrivial(gv.size(0)>1); g.describe("BDM"+std::to_string(k));
  auto b=BF::makeBasis(gv,BF::brezziDouglasMarini<k>());
  checkSharing(g,b);
  checkTraces(g,b,normalTrace,"normal component");
  checkDerivative(g,b);
}
template<int dim, FuzzKind kind>
void ned(pbt::Gen& g, gen::MeshOptions o)
{
  o.affine=true; o.prisms=o.pyramids=false;
  auto grid=gen::grid<dim,dim,kind>(g,o);
  auto gv=grid->leafGridView();
  g.nontrivial(gv.size(0)>1); g.describe("Nedelec");
  auto b=BF::makeBasis(gv,BF::nedelec<1,1>());
  checkSharing(g,b);
  checkTraces(g,b,tangentialTrace,"tangential component");
  checkDerivative(g,b);
}
