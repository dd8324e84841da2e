#include "c26.hh"
template<class T> using V=std::vector<T>; template<class T> using BV=BlockVector<T>; template<int n> using FV=FieldVector<double,n>;
// digits that may be static
template<class C, class Path, class X> void at(pbt::Gen& g, C& c, const Path& p, X& want, const char* what) { PBT_CHECK(g, (&F::resolveStaticMultiIndex(c,p)==&want), "resolveStaticMultiIndex: ", what); PBT_CHECK(g, (&F::resolveStaticMultiIndex(std::as_const(c),p)==&want), "resolveStaticMultiIndex of a constant container: ", what); }
PROPERTY(static_access,1000)
{
  using namespace Dune::Indices; namespace TT=Dune::TypeTree;
  using C=TupleVector<std::array<FV<2>,3>,V<V<double>>,TupleVector<double,BV<FV<3>>>>; C c; shape(g,c,1); number(c);
  std::size_t i=g.below(3), j=g.below(2); at(g,c,TT::treePath(_0,i,j),c[_0][i][j],"(_0,i,j)"); at(g,c,TT::treePath(_0,i),c[_0][i],"(_0,i)"); at(g,c,TT::treePath(_0,_1,_1),c[_0][1][1],"(_0,_1,_1)"); at(g,c,TT::treePath(_0),c[_0],"(_0)"); at(g,c,TT::treePath(),c,"()");
  std::size_t k=g.below(c[_1].size()); if (!c[_1][k].empty()) { std::size_t l=g.below(c[_1][k].size()); at(g,c,TT::treePath(_1,k,l),c[_1][k][l],"(_1,k,l)"); }
  at(g,c,TT::treePath(_2,_0),c[_2][_0],"(_2,_0)"); std::size_t m=g.below(c[_2][_1].size()), n=g.below(3); at(g,c,TT::treePath(_2,_1,m,n),c[_2][_1][m][n],"(_2,_1,m,n)"); at(g,c,TT::treePath(_2,_1,m),c[_2][_1][m],"(_2,_1,m)");
  using H=V<FV<2>>; H h; shape(g,h,1); std::size_t q=g.below(h.size()); at(g,h,TT::treePath(q,j),h[q][j],"(q,j)"); at(g,h,std::array<std::size_t,2>{q,j},h[q][j],"array"); at(g,h,F::StaticMultiIndex<std::size_t,2>{{q,j}},h[q][j],"StaticMultiIndex");
  g.nontrivial(); g.describe(std::to_string(i)+std::to_string(j)+std::to_string(k)+std::to_string(m)+std::to_string(n));
}
// resolution ends where the predicate says so
template<class T> auto isType() { return [](auto&& c) { return std::is_same<std::decay_t<decltype(c)>,T>(); }; }
PROPERTY(final_predicate,1000)
{
  using C=TupleVector<V<FV<3>>,std::array<FV<3>,2>>; C c; shape(g,c,1); using namespace Dune::Indices;
  std::size_t i=g.below(c[_0].size()), j=g.below(2); auto f=isType<FV<3>>();
  PBT_CHECK(g, (&F::resolveDynamicMultiIndex(c,V<std::size_t>{0,i},f)==&c[_0][i]), "(0,i)"); PBT_CHECK(g, (&F::resolveDynamicMultiIndex(c,RI{1,j},f)==&c[_1][j]), "(1,j)"); PBT_CHECK(g, (&F::resolveDynamicMultiIndex(std::as_const(c),RI{1,j},f)==&c[_1][j]), "const (1,j)"); PBT_CHECK(g, (&F::resolveDynamicMultiIndex(c,RI{},isType<C>())==&c), "whole container"); PBT_CHECK(g, (&F::resolveDynamicMultiIndex(c,RI{1},f)==&c[_1][0]), "padded (1)");
  V<BV<FV<3>>> v; shape(g,v,1); std::size_t k=g.below(v.size()), l=g.below(v[k].size()); PBT_CHECK(g, (&F::resolveDynamicMultiIndex(v,V<std::size_t>{k,l},f)==&v[k][l]), "(k,l)"); PBT_CHECK(g, (&F::resolveDynamicMultiIndex(v,V<std::size_t>{k},isType<BV<FV<3>>>())==&v[k]), "(k)");
  g.nontrivial(i+j+k+l>0); g.describe(std::to_string(i)+std::to_string(j)+std::to_string(k)+std::to_string(l));
}
PROPERTY(hybrid_index,1000)
{
  using namespace Dune::Indices; using T=TupleVector<double,V<double>,FV<3>,std::array<int,4>>; T t; shape(g,t,1); std::size_t i=g.below(4); const void* want[4]={&t[_0],&t[_1],&t[_2],&t[_3]};
  auto addr=[](auto& x) { return static_cast<const void*>(&x); };
  PBT_CHECK(g, F::hybridIndexAccess(t,i,addr)==want[i], "dynamic index of a tuple: ", i); PBT_CHECK(g, F::hybridIndexAccess(std::as_const(t),i,addr)==want[i], "dynamic index of a constant tuple: ", i);
  PBT_CHECK(g, F::hybridIndexAccess(t,_0,addr)==want[0] && F::hybridIndexAccess(t,_1,addr)==want[1] && F::hybridIndexAccess(t,_2,addr)==want[2] && F::hybridIndexAccess(std::as_const(t),_3,addr)==want[3], "static index of a tuple");
  std::size_t called=0, size=99; F::hybridIndexAccess(t,i,[&](auto& x) { ++called; size=sizeof(x); }); std::size_t sz[4]={sizeof(double),sizeof(V<double>),sizeof(FV<3>),sizeof(std::array<int,4>)}; PBT_CHECK(g, called==1 && size==sz[i], "functor called ", called, " times with an entry of size ", size);
  V<int> v(g.range(1,5)); std::size_t j=g.below(v.size()); int& r=F::hybridIndexAccess(v,j,[](auto& x) -> int& { return x; }); PBT_CHECK(g, &r==&v[j], "vector"); const int& cr=F::hybridIndexAccess(std::as_const(v),j,[](auto& x) -> const int& { return x; }); PBT_CHECK(g, &cr==&v[j], "constant vector"); std::array<double,2> a; PBT_CHECK(g, F::hybridIndexAccess(a,_1,addr)==&a[1], "array with static index");
  using TT=TupleVector<FV<1>,FV<1>,FV<1>>; TT u; FV<1>* w[3]={&u[_0],&u[_1],&u[_2]}; std::size_t k=g.below(3); FV<1>& x=F::hybridIndexAccess(u,k,[](auto& y) -> FV<1>& { return y; }); PBT_CHECK(g, &x==w[k], "reference to a tuple entry");
  g.nontrivial(i>0); g.describe(std::to_string(i)+std::to_string(j)+std::to_string(k));
}
// flat views enumerate the scalars in nested order
template<class C> void flat(pbt::Gen& g)
{
  C c; shape(g,c,1); number(c); auto all=scalars(c); std::ostringstream d; d << all.size(); g.describe(d.str()); g.nontrivial(all.size()>1);
  { auto v=F::flatVectorView(c); const auto w=v; PBT_CHECK(g, std::size_t(v.size())==all.size() && std::size_t(w.size())==all.size(), "size ", std::size_t(v.size()), " of a view of ", all.size(), " scalars");
  for (std::size_t i=0;i<all.size();++i) PBT_CHECK(g, &v[i]==all[i].second && &w[i]==all[i].second, "entry ", i);
  auto i=g.below(all.size()); v[i]=ScalarOf<C>(77); for (std::size_t j=0;j<all.size();++j) PBT_CHECK(g, *all[j].second==ScalarOf<C>(j==i?77:j+1), "writing entry ", i, " changed entry ", j); }
  { auto v=F::flatVectorView(std::as_const(c)); static_assert(std::is_same_v<decltype(v[std::size_t(0)]),const ScalarOf<C>&>); PBT_CHECK(g, std::size_t(v.size())==all.size(), "size of a constant view"); for (std::size_t i=0;i<all.size();++i) PBT_CHECK(g, &v[i]==all[i].second, "entry ", i, " of a constant view"); }
  { auto v=F::flatVectorView(C(c)); auto w=v; auto u=std::move(w); const auto& k=u; PBT_CHECK(g, std::size_t(v.size())==all.size(), "size of a view of a temporary"); for (std::size_t i=0;i<all.size();++i) PBT_CHECK(g, v[i]==*all[i].second && k[i]==*all[i].second, "entry ", i, " of a view of a temporary"); v[0]=ScalarOf<C>(5); PBT_CHECK(g, v[0]==ScalarOf<C>(5) && k[0]==*all[0].second, "views of temporaries are not independent"); }
}
template<int n,int m> using FM=FieldMatrix<double,n,m>; template<class T,std::size_t n> using A=std::array<T,n>;
#define FLAT(name,...) PROPERTY(flat_##name,300) { using C=__VA_ARGS__; flat<C>(g); }
FLAT(double,double) FLAT(complex,std::complex<double>) FLAT(fv1,FV<1>) FLAT(fv3,FV<3>) FLAT(fv5int,FieldVector<int,5>) FLAT(vector,V<double>) FLAT(bv,BV<double>) FLAT(dyn,DynamicVector<double>) FLAT(reserved,ReservedVector<double,4>)
FLAT(fm11,FM<1,1>) FLAT(fm12,FM<1,2>) FLAT(fm21,FM<2,1>) FLAT(fm23,FM<2,3>) FLAT(fm32,FM<3,2>) FLAT(fm44int,FieldMatrix<int,4,4>)
FLAT(a1,A<double,1>) FLAT(a3,A<double,3>) FLAT(a3fv2,A<FV<2>,3>) FLAT(a2fv1,A<FV<1>,2>) FLAT(a2a3,A<A<double,3>,2>) FLAT(a2fm23,A<FM<2,3>,2>) FLAT(a3a2fv4,A<A<FV<4>,2>,3>) FLAT(a2a1a3fm21,A<A<A<FM<2,1>,3>,1>,2>) FLAT(a2a3fm32,A<A<FM<3,2>,3>,2>)
// dense vector interface
template<class R> void dense(pbt::Gen& g)
{
  R r, o; std::size_t n; if constexpr (kindOf<R> ==dynamic) { n=g.range(1,6); r.resize(n); o.resize(n); } else n=r.size();
  std::vector<double> m(n), k(n); for (std::size_t i=0;i<n;++i) { m[i]=r[i]=g.range(-5,5); k[i]=o[i]=g.range(-5,5); }
  using View=F::Impl::DenseVectorView<R>; using CView=F::Impl::DenseVectorView<const R>;
  View v(r); CView w(o); const View& cv=v; std::ostringstream log;
  auto check=[&] { double two=0, one=0, inf=0; for (std::size_t i=0;i<n;++i) { two+=m[i]*m[i]; one+=std::abs(m[i]); inf=std::max(inf,std::abs(m[i])); PBT_CHECK(g, &v[i]==&r[i] && &cv[i]==&r[i] && &w[i]==&o[i] && r[i]==m[i] && o[i]==k[i], log.str(), ": entry ", i, " is ", r[i], " instead of ", m[i]); }
    PBT_CHECK(g, v.size()==n && cv.N()==n && w.size()==n && v.two_norm2()==two && v.one_norm()==one && v.infinity_norm()==inf, log.str(), ": sizes and norms"); double dot=0; for (std::size_t i=0;i<n;++i) dot+=m[i]*k[i]; PBT_CHECK(g, v*w==dot && w*v==dot && v.dot(w)==dot, log.str(), ": product"); };
  check();
  for (int s=g.range(1,8);s>0;--s) {
    double a=g.range(-3,3);
    switch (g.below(9)) {
      case 0: log << " +="; v+=w; for (std::size_t i=0;i<n;++i) m[i]+=k[i]; break;
      case 1: log << " -="; v-=w; for (std::size_t i=0;i<n;++i) m[i]-=k[i]; break;
      case 2: log << " axpy" << a; v.axpy(a,w); for (std::size_t i=0;i<n;++i) m[i]+=a*k[i]; break;
      case 3: log << " *=" << a; v*=a; for (auto& x:m) x*=a; break;
      case 4: log << " /=2"; v*=2; v/=2; break;
      case 5: { log << " [i]="; auto i=g.below(n); v[i]=a; m[i]=a; break; }
      case 6: { log << " view="; View u(o); v=u; m=k; break; }
      case 7: { log << " constview="; v=w; m=k; break; }
      case 8: { log << " iter"; std::size_t i=0; for (auto& x:v) { PBT_CHECK(g, &x==&r[i], "iterator at ", i); x+=1; m[i]+=1; ++i; } PBT_CHECK(g, i==n, "number of entries"); break; }
    }
    check();
  }
  { View u=[&] { View t(r); return View(std::move(t)); }(); PBT_CHECK(g, &u[0]==&r[0], "moved view"); }
  g.nontrivial(n>1); g.describe(log.str());
}
PROPERTY(dense_array,500) { dense<A<double,3>>(g); }
PROPERTY(dense_fv,500) { dense<FV<4>>(g); }
PROPERTY(dense_fv1,500) { dense<FV<1>>(g); }
PROPERTY(dense_vector,500) { dense<V<double>>(g); }
PROPERTY(dense_bv,500) { dense<BV<double>>(g); }
#include "main.hh"
