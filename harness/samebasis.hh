// Two bases on the same grid view are indistinguishable.
#ifndef VERIF_SAMEBASIS_HH
#define VERIF_SAMEBASIS_HH
#include "trees_common.hh"
#include <dune/functions/functionspacebases/containerdescriptors.hh>
namespace CDS = Dune::Functions::ContainerDescriptors;

template<class D>
void describeDescriptor(const D& d, std::string& s)
{
  if constexpr (std::is_same_v<D,CDS::Unknown>) s+="?";
  else if constexpr (std::is_same_v<D,CDS::Value>) s+=".";
  else {
    s+="("+std::to_string(std::size_t(d.size()))+":";
    if constexpr (requires(std::size_t i) { d[i]; }) {
      std::string last; std::size_t n=d.size();
      for (std::size_t i=0;i<n;++i) { std::string t; describeDescriptor(d[i],t); if (t!=last) s+=t; last=t; }
    }
    else Hybrid::forEach(Hybrid::integralRange(Hybrid::size(d)), [&](auto i) { describeDescriptor(d[i],s); });
    s+=")";
  }
}

// derivs: compare also Jacobians
template<class B, class C>
void sameBasis(pbt::Gen& g, const B& b, const C& fresh, const std::string& what)
{
  constexpr int dim=B::GridView::dimension;
  PBT_CHECK(g, &b.gridView().grid()==&fresh.gridView().grid() && &b.gridView().indexSet()==&fresh.gridView().indexSet(), what, ": another grid view is stored");
  for (int c=0;c<=dim;++c) PBT_CHECK(g, b.gridView().size(c)==fresh.gridView().size(c), what, ": size of the grid view");
  PBT_CHECK(g, b.dimension()==fresh.dimension(), what, ": dimension ", b.dimension(), " instead of ", fresh.dimension());
  PBT_CHECK(g, b.size()==fresh.size(), what, ": size ", b.size(), " instead of ", fresh.size());
  std::string da, db; describeDescriptor(b.containerDescriptor(),da); describeDescriptor(fresh.containerDescriptor(),db);
  PBT_CHECK(g, da==db, what, ": container descriptor ", da, " instead of ", db);
  auto x=b.localView(); auto y=fresh.localView();
  PBT_CHECK(g, x.maxSize()==y.maxSize(), what, ": maxSize");
  std::set<MI> prefixes;
  for (const auto& e:elements(fresh.gridView())) {
    x.bind(e); y.bind(e);
    PBT_CHECK(g, x.size()==y.size(), what, ": local size ", x.size(), " instead of ", y.size());
    for (std::size_t i=0;i<y.size();++i) {
      auto m=mi(y.index(i)); PBT_CHECK(g, mi(x.index(i))==m, what, ": local DOF ", i, " has index ", str(mi(x.index(i))), " instead of ", str(m));
      for (;;) { if (!prefixes.insert(m).second || m.empty()) break; m.pop_back(); }
    }
    auto pts=gen::samplePoints<dim>(e.type(),2);
    std::vector<std::vector<double>> vx, vy;
    auto collect=[&](auto& t, auto& out) {
      TypeTree::forEachLeafNode(t,[&](auto& node, auto&&) {
        std::vector<double> v;
        for (std::size_t i=0;i<node.size();++i) v.push_back(node.localIndex(i));
        if (node.size()>0 || y.size()>0) {
          const auto& fe=node.finiteElement();
          if (node.size()>0) for (auto& p:pts) {
            for (auto& z:util::values(fe,p)) for (auto w:z) v.push_back(w);
            std::vector<typename std::decay_t<decltype(fe)>::Traits::LocalBasisType::Traits::JacobianType> J; fe.localBasis().evaluateJacobian(p,J);
            for (auto& j:J) for (std::size_t r=0;r<j.N();++r) for (auto w:j[r]) v.push_back(w);
          }
          if (node.size()>0) for (std::size_t i=0;i<node.size();++i) { auto k=fe.localCoefficients().localKey(i); v.push_back(k.subEntity()); v.push_back(k.codim()); v.push_back(k.index()); }
        }
        out.push_back(v);
      });
    };
    collect(x.tree(),vx); collect(y.tree(),vy);
    PBT_CHECK(g, vx.size()==vy.size(), what, ": tree");
    for (std::size_t l=0;l<vx.size();++l) {
      PBT_CHECK(g, vx[l].size()==vy[l].size(), what, ": size of leaf ", l);
      for (std::size_t i=0;i<vx[l].size();++i) PBT_CHECK(g, vx[l][i]==vy[l][i], what, ": leaf ", l, ": finite element differs: ", vx[l][i], " instead of ", vy[l][i]);
    }
  }
  for (auto& p:prefixes) if (p.size()<=B::PreBasis::multiIndexBufferSize) PBT_CHECK(g, sizeOf(b,p)==sizeOf(fresh,p), what, ": size(", str(p), ")");
}
#endif
