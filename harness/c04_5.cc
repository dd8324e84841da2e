// Orders up to the largest supported one in 3d: numbering only (shape functions of such orders are not evaluated)
#include "c04_common.hh"
template<int k, FuzzKind kind, int dim> void highOrder(pbt::Gen& g)
{
  gen::MeshOptions o; o.maxCells=3;
  auto grid=gen::grid<dim,dim,kind>(g,o);
  auto gv=grid->leafGridView();
  g.describe("compile-time order "+std::to_string(k)); g.nontrivial(gv.size(0)>1);
  auto basis=BF::makeBasis(gv,BF::lagrange<k>());
  const auto& mesh=grid->mesh();
  std::size_t expected=0;
  for (int c=0;c<=dim;++c) for (auto& e:mesh.ent[c]) expected+=interiorPoints(e.type,k,dim);
  PBT_CHECK(g, basis.dimension()==expected, "dimension ", basis.dimension(), " but ", expected, " Lagrange points, order ", k);
  double h=0;
  for (const auto& e:elements(gv)) { auto geo=e.geometry(); h=std::max(h,(geo.corner(0)-geo.corner(1)).two_norm()); }
  std::vector<FieldVector<double,dim>> pos(expected); std::vector<bool> used(expected,false);
  auto lv=basis.localView();
  for (const auto& e:elements(gv)) {
    lv.bind(e);
    const auto& fe=lv.tree().finiteElement();
    auto pts=lagrangePoints(fe,std::integral_constant<int,dim>());
    auto geo=e.geometry();
    std::vector<bool> seen(expected,false);
    for (std::size_t i=0;i<pts.size();++i) {
      std::size_t I=lv.index(lv.tree().localIndex(i))[0];
      PBT_CHECK(g, I<expected, "index ", I, " out of range ", expected);
      PBT_CHECK(g, !seen[I], "index ", I, " used twice in an element"); seen[I]=true;
      auto x=geo.global(pts[i]);
      if (used[I]) PBT_CHECK(g, (x-pos[I]).two_norm()<1e-7*h, "DOF ", I, " sits at different points from different elements: ", vstr(pos[I]), " / ", vstr(x));
      pos[I]=x; used[I]=true;
    }
  }
  for (std::size_t i=0;i<expected;++i) PBT_CHECK(g, used[i], "global index ", i, " is never used");
}
#define H(K,CASES) \
  PROPERTY(high_simplex_##K, CASES) { highOrder<K,FuzzKind::simplex,3>(g); } \
  PROPERTY(high_cube_##K, CASES) { highOrder<K,FuzzKind::cube,3>(g); } \
  PROPERTY(high_2d_##K, CASES) { highOrder<K,FuzzKind::mixed,2>(g); }
H(8,600)
H(12,400)
H(17,200)
#include "main.hh"
