// Helpers shared by the harnesses.
#ifndef VERIF_UTIL_HH
#define VERIF_UTIL_HH

#include <map>
#include <set>
#include <vector>
#include <algorithm>
#include <type_traits>

#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/grid/common/rangegenerators.hh>
#include <dune/common/typetree/traversal.hh>
#include <dune/common/typetree/treepath.hh>

#include "pbt.hh"

namespace util {

using MI = std::vector<std::size_t>;

template<class M>
MI mi(const M& m) { MI r(m.size()); for (std::size_t i=0;i<r.size();++i) r[i]=m[i]; return r; }

inline std::string str(const MI& m) { std::ostringstream s; s << "("; for (std::size_t i=0;i<m.size();++i) s << (i?",":"") << m[i]; s << ")"; return s.str(); }

template<class V> std::string vstr(const V& v) { std::ostringstream s; s.precision(10); s << v; return s.str(); }

// world coordinate gradients of the shape functions of a scalar local basis
template<class FE, class Geo, class X>
auto gradients(const FE& fe, const Geo& geo, const X& x)
{
  std::vector<typename FE::Traits::LocalBasisType::Traits::JacobianType> j;
  fe.localBasis().evaluateJacobian(x,j);
  auto jit=geo.jacobianInverseTransposed(x);
  std::vector<Dune::FieldVector<double,Geo::coorddimension>> g(j.size());
  for (std::size_t i=0;i<j.size();++i) jit.mv(j[i][0],g[i]);
  return g;
}

template<class FE, class X>
auto values(const FE& fe, const X& x)
{
  std::vector<typename FE::Traits::LocalBasisType::Traits::RangeType> v;
  fe.localBasis().evaluateFunction(x,v);
  return v;
}

// calls f(insideLocalView, outsideLocalView, intersection) for all interior facets
template<class Basis, class F>
void forEachInteriorFacet(const Basis& basis, F&& f)
{
  auto in=basis.localView(), out=basis.localView();
  auto gv=basis.gridView();
  for (const auto& e : elements(gv)) {
    in.bind(e);
    for (const auto& is : intersections(gv,e)) {
      if (!is.neighbor()) continue;
      auto o=is.outside();
      out.bind(o);
      f(in,out,is);
    }
  }
}

// a map from multi-index to the (summed) quantity q(i) of the local DOF i of a leaf node
template<class LV, class Node, class Q>
auto byIndex(const LV& lv, const Node& node, const std::vector<Q>& q)
{
  std::map<MI,Q> m;
  for (std::size_t i=0;i<node.size();++i) {
    auto k=mi(lv.index(node.localIndex(i)));
    auto it=m.find(k);
    if (it==m.end()) m.emplace(k,q[i]); else it->second+=q[i];
  }
  return m;
}

// compares two such maps, missing entries count as zero
template<class Q, class Diff>
void compareMaps(pbt::Gen& g, const std::map<MI,Q>& a, const std::map<MI,Q>& b, Diff&& diff, double tol, const std::string& what)
{
  Q zero; zero=0;
  auto check=[&](const MI& k, const Q& x, const Q& y) {
    double d=diff(x,y);
    PBT_CHECK(g, d<=tol, what, ": jump ", d, " > ", tol, " of basis function ", str(k));
  };
  for (auto& [k,x]:a) { auto it=b.find(k); check(k,x,it==b.end()?zero:it->second); }
  for (auto& [k,y]:b) if (!a.count(k)) check(k,zero,y);
}

// is z inside of the reference element of type t, up to tol
template<int dim>
bool inside(const Dune::GeometryType& t, const Dune::FieldVector<double,dim>& z, double tol)
{
  for (auto c:z) if (!(c>=-tol && c<=1+tol)) return false;
  if (t.isCube()) return true;
  if (t.isPrism()) return z[0]+z[1]<=1+tol;
  if (t.isPyramid()) return std::max(z[0],z[1])+z[2]<=1+tol;
  double s=0; for (auto c:z) s+=c;
  return s<=1+tol;
}

} // namespace util
#endif
