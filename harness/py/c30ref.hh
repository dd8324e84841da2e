// The C++ side of C30: the same bases, built with the documented C++ factories,
// described as plain Python data.
#ifndef VERIF_C30REF_HH
#define VERIF_C30REF_HH
#include <stdexcept>
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/common/indices.hh>
#include <dune/common/typetree/traversal.hh>
#include <dune/functions/functionspacebases/boundarydofs.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/python/pybind11/pybind11.h>
#include <dune/python/pybind11/numpy.h>
#include <dune/python/pybind11/stl.h>

namespace C30 {
namespace py = pybind11;

template<class I> std::vector<int> digits(const I& i)
{ std::vector<int> r; for (std::size_t k=0;k<i.size();++k) r.push_back(i[k]); return r; }

template<class X> std::vector<double> flat(const X& x)
{
  if constexpr (std::is_convertible_v<X,double>) return {double(x)};
  else { std::vector<double> r; for (auto&& v : x) r.push_back(v); return r; }
}

template<class B> py::object describe(const B& basis, const double* p)
{
  using GV = typename B::GridView;
  Dune::FieldVector<double,GV::dimension> x;
  for (int i=0;i<GV::dimension;++i) x[i]=p[i];
  py::dict d;
  d["dimension"]=basis.dimension();
  d["size"]=basis.size();
  py::list els;
  auto lv=basis.localView();
  for (const auto& e : elements(basis.gridView())) {
    lv.bind(e);
    py::dict de;
    de["size"]=lv.size(); de["maxSize"]=lv.maxSize();
    py::list idx; for (std::size_t i=0;i<lv.size();++i) idx.append(digits(lv.index(i)));
    de["index"]=idx;
    py::list leaves;
    Dune::TypeTree::forEachLeafNode(lv.tree(), [&](auto&& node, auto&& path) {
      py::dict l;
      l["path"]=digits(path); l["size"]=node.size(); l["treeIndex"]=node.treeIndex();
      py::list li; for (std::size_t i=0;i<node.size();++i) li.append(node.localIndex(i));
      l["localIndex"]=li;
      const auto& fe=node.finiteElement();
      using LB=std::decay_t<decltype(fe.localBasis())>;
      std::vector<typename LB::Traits::RangeType> v; fe.localBasis().evaluateFunction(x,v);
      py::list vals; for (auto& s : v) vals.append(flat(s));
      l["values"]=vals; l["order"]=fe.localBasis().order();
      leaves.append(l);
    });
    de["leaves"]=leaves;
    els.append(de);
  }
  d["elements"]=els;
  return d;
}

template<int n> struct RangeOf { using type=Dune::FieldVector<double,n>; };
template<> struct RangeOf<1> { using type=double; };

// Local evaluation of a finite element function with flat coefficients at the given points
template<int n, class B> py::object evaluate(const B& basis, const double* c, std::size_t nc, const double* p, std::size_t np)
{
  using Range=typename RangeOf<n>::type;
  using GV = typename B::GridView;
  std::vector<double> coef(c,c+nc);
  auto f=Dune::Functions::makeDiscreteGlobalBasisFunction<Range>(basis,coef);
  auto lf=localFunction(f);
  py::list out;
  for (const auto& e : elements(basis.gridView())) {
    lf.bind(e);
    py::list l;
    for (std::size_t k=0;k+GV::dimension<=np;k+=GV::dimension) {
      Dune::FieldVector<double,GV::dimension> x;
      for (int i=0;i<GV::dimension;++i) x[i]=p[k+i];
      l.append(flat(lf(x)));
    }
    out.append(l);
  }
  return out;
}

template<int n, class B> py::object interpolate(const B& basis, const double* a, double threshold, int mode)
{
  using Range=typename RangeOf<n>::type;
  auto poly=[=](const auto& x, int c) {
    const double* q=a+4*c; double y=0; if constexpr (std::decay_t<decltype(x)>::dimension>1) y=x[1];
    double v=q[0]+q[1]*x[0]+q[2]*y+q[3]*x[0]*y;
    if (mode==1) return v>threshold ? 1. : 0.;
    if (mode==2) return std::floor(v);
    return v;
  };
  auto f=[&](const auto& x) {
    Range r(0.);
    if constexpr (n==1) r=poly(x,0); else for (int c=0;c<n;++c) r[c]=poly(x,c);
    return r;
  };
  std::vector<double> v(basis.dimension(), 0.);
  Dune::Functions::interpolate(basis,v,f);
  return py::cast(v);
}

template<class B> py::object boundary(const B& basis)
{
  py::list l;
  Dune::Functions::forEachBoundaryDOF(basis,[&](auto&& i) { l.append(digits(i)); });
  return l;
}

template<int n, bool flatIndices, class B>
py::object run(const B& basis, int op, const double* d, std::size_t size)
{
  if (op==0) return describe(basis,d);
  if (op==3) return boundary(basis);
  if constexpr (n>0 and flatIndices) {
    if (op==1) { std::size_t nc=std::size_t(d[0]); return evaluate<n>(basis,d+1,nc,d+1+nc,size-1-nc); }
    if (op==2) return interpolate<n>(basis,d+2,d[0],int(d[1]));
  }
  throw std::runtime_error("unknown operation");
}
}
#endif
