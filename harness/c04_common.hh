#include <config.h>
#include "pbt.hh"
#include "fuzzgrid.hh"
#include "meshgen.hh"
#include "util.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
using namespace Dune;
using namespace util;
namespace BF = Dune::Functions::BasisFactory;

// positions of the Lagrange points, from the (trusted) local interpolation of the coordinate functions
template<class FE, int dim>
std::vector<FieldVector<double,dim>> lagrangePoints(const FE& fe, std::integral_constant<int,dim>)
{
  std::vector<FieldVector<double,dim>> p(fe.size());
  for (int d=0;d<dim;++d) {
    std::vector<double> c;
    fe.localInterpolation().interpolate([&](const FieldVector<double,dim>& x){ return x[d]; },c);
    for (std::size_t i=0;i<p.size();++i) p[i][d]=c[i];
  }
  return p;
}

// number of Lagrange points of order k, counted on the mesh by entities
inline std::size_t interiorPoints(const GeometryType& t, int k, int dim)
{
  if (k==0) return t.dim()==unsigned(dim);
  if (t.dim()==0) return 1;
  auto binom=[](long n,long r){ if (r>n||n<0) return 0L; long b=1; for (long i=0;i<r;++i) b=b*(n-i)/(i+1); return b; };
  if (t.isSimplex()) return binom(k-1,t.dim());
  if (t.isCube()) { std::size_t p=1; for (unsigned d=0;d<t.dim();++d) p*=k-1; return p; }
  return 0; // prism, pyramid: order at most 2
}

template<class Basis>
void checkLagrange(pbt::Gen& g, const Basis& basis, int order)
{
  using GV=typename Basis::GridView;
  constexpr int dim=GV::dimension;
  constexpr int dimw=GV::dimensionworld;
  auto gv=basis.gridView();
  const auto& mesh=gv.grid().mesh();

  std::size_t expected=0;
  for (int c=0;c<=dim;++c) for (auto& e:mesh.ent[c]) expected+=interiorPoints(e.type,order,dim);
  PBT_CHECK(g, basis.dimension()==expected, "dimension ", basis.dimension(), " but ", expected, " Lagrange points, order ", order);
  PBT_CHECK(g, basis.size()==expected, "size() ", basis.size(), " expected ", expected);

  double h=0, hmin=1e100;
  for (const auto& e:elements(gv)) { auto geo=e.geometry(); auto d=(geo.corner(0)-geo.corner(1)).two_norm(); h=std::max(h,d); hmin=std::min(hmin,d); }
  std::vector<std::vector<FieldVector<double,dimw>>> pos(expected);
  std::vector<int> uses(expected,0);
  auto lv=basis.localView();
  for (const auto& e:elements(gv)) {
    lv.bind(e);
    const auto& node=lv.tree();
    const auto& fe=node.finiteElement();
    PBT_CHECK(g, fe.type()==e.type(), "finite element of the wrong type");
    auto pts=lagrangePoints(fe,std::integral_constant<int,dim>());
    auto geo=e.geometry();
    std::set<std::size_t> seen;
    for (std::size_t i=0;i<pts.size();++i) {
      auto I=mi(lv.index(node.localIndex(i)));
      PBT_CHECK(g, I.size()==1 && I[0]<expected, "index ", str(I), " out of range ", expected);
      PBT_CHECK(g, seen.insert(I[0]).second, "index used twice in an element");
      ++uses[I[0]];
      if (order>0) pos[I[0]].push_back(geo.global(pts[i]));
      auto v=values(fe,pts[i]);
      for (std::size_t j=0;j<v.size();++j)
        PBT_CHECK(g, std::abs(v[j][0]-(i==j?1.0:0.0))<1e-6, "shape function ", j, " is ", v[j][0], " at Lagrange point ", i);
    }
  }
  for (std::size_t i=0;i<expected;++i) {
    PBT_CHECK(g, uses[i]>0, "global index ", i, " is never used");
    for (auto& p:pos[i])
      PBT_CHECK(g, (p-pos[i][0]).two_norm()<1e-7*h, "DOF ", i, " sits at different points from different elements: ", vstr(pos[i][0]), " / ", vstr(p));
  }
  // different DOFs at different points
  if (order>0 && expected<400)
    for (std::size_t i=0;i<expected;++i) for (std::size_t j=0;j<i;++j)
      PBT_CHECK(g, (pos[i][0]-pos[j][0]).two_norm()>1e-6*hmin/order, "DOFs ", i, " and ", j, " at the same point ", vstr(pos[i][0]));

  if (order>0)
    forEachInteriorFacet(basis,[&](auto& in, auto& out, auto& is) {
      auto gi=is.geometryInInside(), go=is.geometryInOutside();
      for (auto& x:gen::samplePoints<dim-1>(is.type(),2)) {
        auto a=values(in.tree().finiteElement(),gi.global(x));
        auto b=values(out.tree().finiteElement(),go.global(x));
        compareMaps(g,byIndex(in,in.tree(),a),byIndex(out,out.tree(),b),[](auto& p,auto& q){return (p-q).infinity_norm();},1e-6,"Lagrange order "+std::to_string(order));
      }
    });
}

template<class B1, class B2>
void checkSameIndices(pbt::Gen& g, const B1& b1, const B2& b2)
{
  PBT_CHECK(g, b1.dimension()==b2.dimension(), "dimensions of compile-time and run-time order differ: ", b1.dimension(), " ", b2.dimension());
  auto l1=b1.localView(); auto l2=b2.localView();
  for (const auto& e:elements(b1.gridView())) {
    l1.bind(e); l2.bind(e);
    PBT_CHECK(g, l1.size()==l2.size(), "local sizes differ");
    for (std::size_t i=0;i<l1.size();++i)
      PBT_CHECK(g, mi(l1.index(i))==mi(l2.index(i)), "indices of compile-time and run-time order differ at ", i);
    auto p1=lagrangePoints(l1.tree().finiteElement(),std::integral_constant<int,B1::GridView::dimension>());
    auto p2=lagrangePoints(l2.tree().finiteElement(),std::integral_constant<int,B1::GridView::dimension>());
    for (std::size_t i=0;i<p1.size();++i) PBT_CHECK(g, (p1[i]-p2[i]).infinity_norm()<1e-9, "local Lagrange points differ");
  }
}

template<int dim, int dimw, FuzzKind kind>
void lagrangeRunTime(pbt::Gen& g, int maxOrder, gen::MeshOptions opt)
{
  int order=g.range(0,maxOrder);
  if (order>2) { if (dim==3 && kind==FuzzKind::mixed) { opt.prisms=opt.pyramids=false; } opt.maxCells=std::min<unsigned>(opt.maxCells, order>4 ? 2 : 4); }
  auto grid=gen::grid<dim,dimw,kind>(g,opt);
  auto gv=grid->leafGridView();
  g.label("order "+std::to_string(order));
  g.describe("Lagrange order "+std::to_string(order));
  g.nontrivial(gv.size(0)>1 && order>0);
  auto basis=BF::makeBasis(gv,BF::lagrange(order));
  checkLagrange(g,basis,order);
}

template<int k, class GV>
void compareStatic(pbt::Gen& g, const GV& gv)
{
  auto b=BF::makeBasis(gv,BF::lagrange<k>());
  auto r=BF::makeBasis(gv,BF::lagrange(k));
  Functions::LagrangeBasis<GV,k> c(gv);
  checkLagrange(g,b,k);
  checkSameIndices(g,b,r);
  checkSameIndices(g,b,c);
}
