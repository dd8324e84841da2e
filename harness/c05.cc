#include "c04_common.hh"
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>

inline std::size_t localSize(const GeometryType& t, std::size_t k)
{
  if (t.isSimplex()) { std::size_t n=1; for (unsigned d=1;d<=t.dim();++d) n=n*(k+d)/d; return n; }
  if (t.isCube()) { std::size_t n=1; for (unsigned d=0;d<t.dim();++d) n*=k+1; return n; }
  if (t.isPrism()) return (k+1)*(k+1)*(k+2)/2;
  return (k+1)*(k+2)*(2*k+3)/6;
}

template<class Basis>
void checkDG(pbt::Gen& g, const Basis& b, int k)
{
  constexpr int dim=Basis::GridView::dimension;
  auto gv=b.gridView();
  std::set<std::size_t> all; std::size_t sum=0;
  auto lv=b.localView();
  for (const auto& e:elements(gv)) {
    lv.bind(e);
    PBT_CHECK(g, lv.size()==localSize(e.type(),k), "local size ", lv.size(), " of an element of type ", vstr(e.type()), " order ", k);
    PBT_CHECK(g, lv.size()<=lv.maxSize(), "maxSize");
    sum+=lv.size();
    const auto& fe=lv.tree().finiteElement();
    PBT_CHECK(g, fe.type()==e.type() && fe.size()==lv.size(), "finite element");
    for (std::size_t i=0;i<lv.size();++i) {
      auto I=mi(lv.index(lv.tree().localIndex(i)));
      PBT_CHECK(g, I.size()==1 && I[0]<b.dimension(), "index ", str(I), " out of range");
      PBT_CHECK(g, all.insert(I[0]).second, "index ", I[0], " is used twice");
    }
    // the local space is the full Lagrange space: nodal, partition of unity and reproduces coordinates to the power k on simplices
    auto pts=lagrangePoints(fe,std::integral_constant<int,dim>());
    if (k>0) for (std::size_t i=0;i<pts.size();++i) { auto v=values(fe,pts[i]); for (std::size_t j=0;j<v.size();++j) PBT_CHECK(g, std::abs(v[j][0]-(i==j))<1e-7, "not nodal"); }
    auto x=gen::samplePoints<dim>(e.type(),1)[0]; auto v=values(fe,x); double s=0, px=0;
    for (std::size_t i=0;i<v.size();++i) { s+=v[i][0]; px+=v[i][0]*std::pow(pts[i][0],k); }
    PBT_CHECK(g, std::abs(s-1)<1e-7, "shape functions sum to ", s);
    if (!e.type().isPyramid()) PBT_CHECK(g, std::abs(px-std::pow(x[0],k))<1e-6, "x^k is not reproduced: ", px);
  }
  PBT_CHECK(g, sum==b.dimension() && b.size()==sum && all.size()==sum, "dimension ", b.dimension(), " sum of local sizes ", sum);
}

template<int dim, int dimw, FuzzKind kind>
void dg(pbt::Gen& g, int maxOrder, gen::MeshOptions o)
{
  int k=g.range(0,maxOrder);
  if (k>2) o.prisms=o.pyramids=false;
  auto grid=gen::grid<dim,dimw,kind>(g,o); auto gv=grid->leafGridView();
  g.label("order "+std::to_string(k)); g.describe("order "+std::to_string(k)); g.nontrivial(gv.size(0)>1);
  auto b=BF::makeBasis(gv,BF::lagrangeDG(k));
  checkDG(g,b,k);
  auto stat=[&](auto K) { if (k==K) { auto s=BF::makeBasis(gv,BF::lagrangeDG<decltype(K)::value>()); checkDG(g,s,k); checkSameIndices(g,s,b);
    Functions::LagrangeDGBasis<decltype(gv),decltype(K)::value> c(gv); checkSameIndices(g,c,b); } };
  stat(std::integral_constant<std::size_t,0>()); stat(std::integral_constant<std::size_t,1>()); stat(std::integral_constant<std::size_t,2>());
  if constexpr (dim<3) { stat(std::integral_constant<std::size_t,3>()); }
}
#if PART==1
PROPERTY(dg_1d, 2000) { dg<1,1,FuzzKind::simplex>(g,6,{}); }
PROPERTY(dg_2d_simplex, 1500) { dg<2,2,FuzzKind::simplex>(g,5,{}); }
#elif PART==2
PROPERTY(dg_2d_mixed, 1500) { dg<2,2,FuzzKind::mixed>(g,5,{}); }
PROPERTY(dg_2d_cube, 1500) { dg<2,2,FuzzKind::cube>(g,5,{}); }
#elif PART==3
PROPERTY(dg_3d_mixed, 400) { gen::MeshOptions o; o.maxCells=4; dg<3,3,FuzzKind::mixed>(g,4,o); }
PROPERTY(dg_3d_simplex, 200) { gen::MeshOptions o; o.maxCells=2; dg<3,3,FuzzKind::simplex>(g,4,o); }
#elif PART==4
PROPERTY(dg_3d_cube, 300) { gen::MeshOptions o; o.maxCells=4; dg<3,3,FuzzKind::cube>(g,4,o); }
PROPERTY(dg_2d_in_3d, 500) { dg<2,3,FuzzKind::mixed>(g,4,{}); }
#endif
#include "main.hh"
