#include "h2_common.hh"
#include <dune/geometry/quadraturerules.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>

// continuity at sample points of the facets
template<class Basis>
void checkContinuity(pbt::Gen& g, const Basis& basis)
{
  constexpr int dim=Basis::GridView::dimension;
  forEachInteriorFacet(basis,[&](auto& in, auto& out, auto& is) {
    auto gi=is.geometryInInside(), go=is.geometryInOutside();
    auto rf=referenceElement<double,dim-1>(is.type());
    auto pts=gen::samplePoints<dim-1>(is.type(),dim==1?1:5);
    for (int c=0;c<=dim-1;++c) for (int i=0;i<rf.size(c);++i) {
      // slightly inside the facet: refined elements are only defined by their values inside sub-elements
      auto p=rf.position(i,c); p*=0.98; p.axpy(0.02,rf.position(0,0)); pts.push_back(p);
    }
    for (auto& x:pts) {
      auto a=values(in.tree().finiteElement(),gi.global(x)), b=values(out.tree().finiteElement(),go.global(x));
      compareMaps(g,byIndex(in,in.tree(),a),byIndex(out,out.tree(),b),[](auto& p,auto& q){return (p-q).infinity_norm();},1e-8,"value");
    }
  });
}
template<class Basis>
void checkFacetMeans(pbt::Gen& g, const Basis& basis)
{
  constexpr int dim=Basis::GridView::dimension;
  forEachInteriorFacet(basis,[&](auto& in, auto& out, auto& is) {
    auto gi=is.geometryInInside(), go=is.geometryInOutside();
    std::vector<FieldVector<double,1>> a(in.size(),0), b(out.size(),0);
    for (auto& q:QuadratureRules<double,dim-1>::rule(is.type(),4)) {
      auto v=values(in.tree().finiteElement(),gi.global(q.position())), w=values(out.tree().finiteElement(),go.global(q.position()));
      for (std::size_t i=0;i<v.size();++i) a[i].axpy(q.weight(),v[i]);
      for (std::size_t i=0;i<w.size();++i) b[i].axpy(q.weight(),w[i]);
    }
    compareMaps(g,byIndex(in,in.tree(),a),byIndex(out,out.tree(),b),[](auto& p,auto& q){return (p-q).infinity_norm();},1e-8,"facet mean");
  });
}
// interpolation reproduces affine (degree 1) or constant functions; only on affine elements
template<class Basis>
void checkReproduction(pbt::Gen& g, const Basis& basis, int degree)
{
  constexpr int dim=Basis::GridView::dimension;
  auto gv=basis.gridView();
  auto p=genPoly<dim>(g,degree,gv);
  auto f=[&](const FieldVector<double,dim>& x){ return p.value(x); };
  BlockVector<FieldVector<double,1>> c; interpolate(basis,c,f);
  PBT_CHECK(g, c.size()==basis.dimension(), "size");
  auto lv=basis.localView();
  for (const auto& e:elements(gv)) {
    lv.bind(e); auto geo=e.geometry();
    for (auto& x:gen::samplePoints<dim>(e.type(),3)) {
      auto v=values(lv.tree().finiteElement(),x); double s=0;
      for (std::size_t i=0;i<lv.size();++i) s+=v[i][0]*c[lv.index(lv.tree().localIndex(i))][0];
      PBT_CHECK(g, std::abs(s-p.value(geo.global(x)))<1e-8, "interpolated function of degree ", degree, " has value ", s, " instead of ", p.value(geo.global(x)));
    }
  }
}
template<int dim> gen::MeshOptions om() { gen::MeshOptions o; o.maxCells=dim==3?2:6; o.affine=true; return o; }
template<int dim> std::array<unsigned,dim+1> layout(unsigned v, unsigned l, unsigned facet, unsigned el)
{ std::array<unsigned,dim+1> a{}; a[0]+=v; if (dim>1) a[1]+=l; if (facet) a[dim-1]+=facet; a[dim]+=el; return a; }

template<int dim, class F>
void simplexBasis(pbt::Gen& g, F factory, std::array<unsigned,dim+1> lay, int degree, bool continuous)
{
  auto grid=gen::grid<dim,dim,FuzzKind::simplex>(g,om<dim>()); auto gv=grid->leafGridView(); g.nontrivial(gv.size(0)>1);
  auto b=BF::makeBasis(gv,factory);
  checkEntities(g,b,lay);
  if (continuous) checkContinuity(g,b);
  checkReproduction(g,b,degree);
}
template<int dim, FuzzKind kind>
void rannacher(pbt::Gen& g, gen::MeshOptions o)
{
  o.prisms=o.pyramids=false;
  auto grid=gen::grid<dim,dim,kind>(g,o); auto gv=grid->leafGridView(); g.nontrivial(gv.size(0)>1);
  auto b=BF::makeBasis(gv,BF::rannacherTurek());
  std::array<unsigned,dim+1> lay{}; lay[dim-1]=1;
  checkEntities(g,b,lay);
  if constexpr (kind==FuzzKind::simplex) checkFacetMeans(g,b);
    forEachInteriorFacet(b,[&](auto& in, auto& out, auto& is) {
      auto x=referenceElement<double,dim-1>(is.type()).position(0,0);
      auto v=values(in.tree().finiteElement(),is.geometryInInside().global(x)), w=values(out.tree().finiteElement(),is.geometryInOutside().global(x));
      compareMaps(g,byIndex(in,in.tree(),v),byIndex(out,out.tree(),w),[](auto& p,auto& q){return (p-q).infinity_norm();},1e-8,"value at the facet midpoint");
    });
  if (o.affine) checkReproduction(g,b,1);
}
#if PART==1
PROPERTY(rannacher_2d_simplex, 2000) { rannacher<2,FuzzKind::simplex>(g,om<2>()); }
PROPERTY(rannacher_2d_cube, 2000) { rannacher<2,FuzzKind::cube>(g,om<2>()); }
PROPERTY(rannacher_2d_mixed, 2000) { rannacher<2,FuzzKind::mixed>(g,om<2>()); }
PROPERTY(rannacher_2d_mixed_general, 2000) { rannacher<2,FuzzKind::mixed>(g,{}); }
#elif PART==2
PROPERTY(rannacher_3d_simplex, 300) { rannacher<3,FuzzKind::simplex>(g,om<3>()); }
PROPERTY(rannacher_3d_cube, 1000) { gen::MeshOptions o; o.affine=true; rannacher<3,FuzzKind::cube>(g,o); }
PROPERTY(rannacher_3d_cube_general, 1000) { rannacher<3,FuzzKind::cube>(g,{}); }
#elif PART==3
PROPERTY(hier1_2d, 2000) { simplexBasis<2>(g,BF::hierarchicalLagrange<1>(),layout<2>(1,0,0,0),1,true); }
PROPERTY(hier2_2d, 2000) { simplexBasis<2>(g,BF::hierarchicalLagrange<2>(),layout<2>(1,1,0,0),2,true); }
PROPERTY(hier1b_2d, 2000) { simplexBasis<2>(g,BF::hierarchicalLagrangeWithElementBubble<1>(),layout<2>(1,0,0,1),1,true); }
PROPERTY(hier2b_2d, 2000) { simplexBasis<2>(g,BF::hierarchicalLagrangeWithElementBubble<2>(),layout<2>(1,1,0,1),2,true); }
PROPERTY(hier_p1b_2d, 500) { simplexBasis<2>(g,BF::hierarchicalP1B(),layout<2>(1,0,0,1),1,true); }
PROPERTY(hier_p2b_2d, 500) { simplexBasis<2>(g,BF::hierarchicalP2B(),layout<2>(1,1,0,1),2,true); }
PROPERTY(hier1_1d, 1000) { simplexBasis<1>(g,BF::hierarchicalLagrange<1>(),layout<1>(1,0,0,0),1,true); }
PROPERTY(hier2_1d, 1000) { simplexBasis<1>(g,BF::hierarchicalLagrange<2>(),layout<1>(1,0,0,1),2,true); }
PROPERTY(hier1b_1d, 1000) { simplexBasis<1>(g,BF::hierarchicalLagrangeWithElementBubble<1>(),layout<1>(1,0,0,1),1,true); }
#elif PART==4
PROPERTY(hier1_3d, 300) { simplexBasis<3>(g,BF::hierarchicalLagrange<1>(),layout<3>(1,0,0,0),1,true); }
PROPERTY(hier2_3d, 300) { simplexBasis<3>(g,BF::hierarchicalLagrange<2>(),layout<3>(1,1,0,0),2,true); }
PROPERTY(hier1b_3d, 300) { simplexBasis<3>(g,BF::hierarchicalLagrangeWithElementBubble<1>(),layout<3>(1,0,0,1),1,true); }
PROPERTY(hier2b_3d, 300) { simplexBasis<3>(g,BF::hierarchicalLagrangeWithElementBubble<2>(),layout<3>(1,1,0,1),2,true); }
#elif PART==5
PROPERTY(refined0_1d, 1000) { simplexBasis<1>(g,BF::refinedLagrange<0>(),layout<1>(0,0,0,2),0,false); }
PROPERTY(refined1_1d, 1000) { simplexBasis<1>(g,BF::refinedLagrange<1>(),layout<1>(1,0,0,1),1,true); }
PROPERTY(refined0_2d, 1000) { simplexBasis<2>(g,BF::refinedLagrange<0>(),layout<2>(0,0,0,4),0,false); }
PROPERTY(refined1_2d, 2000) { simplexBasis<2>(g,BF::refinedLagrange<1>(),layout<2>(1,1,0,0),1,true); }
PROPERTY(refined0_3d, 200) { simplexBasis<3>(g,BF::refinedLagrange<0>(),layout<3>(0,0,0,8),0,false); }
PROPERTY(refined1_3d, 300) { simplexBasis<3>(g,BF::refinedLagrange<1>(),layout<3>(1,1,0,0),1,true); }
#endif
#include "main.hh"
