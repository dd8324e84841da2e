// ReservedDeque, OverflowArray and StaticMultiIndex against std::deque, std::vector and std::array.
#if PART==1
#include <dune/functions/common/reserveddeque.hh>
#elif PART==2
#include <dune/functions/common/overflowarray.hh>
#else
#include <dune/functions/common/multiindex.hh>
#endif
#include "pbt.hh"
#include <deque>
#include <optional>
#include <algorithm>
#include <iterator>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <dune/common/hash.hh>
#include <dune/common/fvector.hh>
#include <dune/functions/common/multiindex.hh>
#include <dune/functions/functionspacebases/flatmultiindex.hh>
namespace F=Dune::Functions;
template<class T> struct Make { static T make(int v) { return T(v); } };
template<> struct Make<std::string> { static std::string make(int v) { return "a string long enough to be allocated "+std::to_string(v); } };
template<class S, std::size_t n> struct Make<F::StaticMultiIndex<S,n>> { static F::StaticMultiIndex<S,n> make(int v) { F::StaticMultiIndex<S,n> m; for (std::size_t i=0;i<n;++i) m[i]=v+3*i; return m; } };
template<class T> std::string show(const T& t) { std::ostringstream s; s << t; return s.str(); }
template<class C> C braced(const std::vector<typename C::value_type>& v)
{
  switch (v.size()) { case 1: return C{v[0]}; case 2: return C{v[0],v[1]}; case 3: return C{v[0],v[1],v[2]}; case 4: return C{v[0],v[1],v[2],v[3]}; default: return C{v[0],v[1],v[2],v[3],v[4]}; }
}
// the container together with its model; unspecified entries have no value
template<class C, bool front> struct Pair
{
  using T=typename C::value_type;
  C c; std::deque<std::optional<T>> m;
  void verify(pbt::Gen& g, const std::string& log)
  {
    const C& k=c;
    PBT_CHECK(g, c.size()==m.size() && k.size()==m.size() && c.empty()==m.empty(), log, ": size ", c.size(), " instead of ", m.size());
    PBT_CHECK(g, std::size_t(std::distance(c.begin(),c.end()))==m.size() && std::size_t(k.end()-k.begin())==m.size(), log, ": length of the iterator range");
    auto it=c.begin(); auto kt=k.begin(); bool known=true;
    for (std::size_t i=0;i<m.size();++i,++it,++kt) {
      PBT_CHECK(g, &c[i]==&k[i] && &*it==&c[i] && &*kt==&c[i], log, ": access to entry ", i, " by iterator and index differ");
      if (!m[i]) { known=false; continue; }
      PBT_CHECK(g, k[i]==*m[i], log, ": entry ", i, " is ", k[i], " instead of ", *m[i]);
      PBT_CHECK(g, &c.begin()[i]==&c[i] && *(k.end()-(m.size()-i))==*m[i], log, ": random access iterator at ", i);
    }
    PBT_CHECK(g, it==c.end() && kt==k.end(), log, ": end of the iteration");
    if (!m.empty()) { PBT_CHECK(g, &c.front()==&c[0] && &k.front()==&c[0], log, ": front()"); PBT_CHECK(g, &c.back()==&c[m.size()-1] && &k.back()==&c[m.size()-1], log, ": back()"); }
    if (known) { std::ostringstream a,b; a << k; for (auto& x:m) b << *x << "  "; PBT_CHECK(g, a.str()==b.str(), log, ": output is '", a.str(), "'");
      std::vector<T> r(std::make_reverse_iterator(k.end()),std::make_reverse_iterator(k.begin())); for (std::size_t i=0;i<r.size();++i) PBT_CHECK(g, r[i]==*m[m.size()-1-i], log, ": reverse iteration");
      PBT_CHECK(g, std::size_t(std::count(k.begin(),k.end(),m.empty()?T():*m[0]))==std::size_t(std::count(m.begin(),m.end(),m.empty()?std::optional<T>(T()):m[0])), log, ": std::count"); }
    if constexpr (!front) {
      if (known) {
        C d; for (std::size_t i=0;i<m.size();++i) d.push_back(*m[i]);
        PBT_CHECK(g, d==k && !(d!=k) && hash_value(d)==hash_value(k), log, ": equal arrays of different history compare unequal or have different hashes");
        std::size_t h=0; for (auto& x:m) Dune::hash_combine(h,*x); PBT_CHECK(g, hash_value(k)==h, log, ": hash value");
        if (!m.empty()) { auto e=d; std::size_t i=g.below(m.size()); e[i]=Make<T>::make(999); PBT_CHECK(g, !(e==k) && e!=k && d==k, log, ": arrays differing in entry ", i, " compare equal"); d.pop_back(); PBT_CHECK(g, !(d==k) && !(k==d) && d!=k, log, ": array equals its own beginning"); }
        constexpr auto bs=std::tuple_size_v<typename C::BaseArray>; if (m.size()>=bs) { const typename C::BaseArray& b=k; PBT_CHECK(g, b.size()==bs, log, ": size of the base array"); for (std::size_t i=0;i<bs;++i) PBT_CHECK(g, b[i]==*m[i], log, ": entry ", i, " of the base array"); }
      }
    }
  }
};
template<class C, bool front, std::size_t cap> void history(pbt::Gen& g)
{
  using T=typename C::value_type; using P=Pair<C,front>;
  static_assert(C::capacity()==cap && C::max_size()==cap);
  std::vector<P> p(2); std::ostringstream log; int n=g.range(1,30), next=1, moved=0, wrap=0;
  for (int k=0;k<n;++k) {
    int i=g.below(2), j=1-i; auto& c=p[i].c; auto& m=p[i].m;
    switch (g.below(16)) {
      case 0: case 1: case 2: case 3: if (m.size()<cap) { int v=next++; if (!m.empty() && g.chance(1,6)) { auto q=g.below(m.size()); log << " b" << i << "[" << q << "]"; c.push_back(c[q]); m.push_back(m[q]); } else { log << " b" << i; c.push_back(Make<T>::make(v)); m.push_back(Make<T>::make(v)); } } break;
      case 4: case 5: case 6: if (m.size()<cap) { int v=next++; if (!m.empty() && g.chance(1,6)) { auto q=g.below(m.size()); log << " f" << i << "[" << q << "]"; auto x=m[q]; c.push_front(c[q]); m.push_front(x); } else { log << " f" << i; c.push_front(Make<T>::make(v)); m.push_front(Make<T>::make(v)); } ++moved; } break;
      case 7: case 8: if (!m.empty()) { log << " pb" << i; c.pop_back(); m.pop_back(); } break;
      case 9: case 10: if constexpr (front) if (!m.empty()) { log << " pf" << i; c.pop_front(); m.pop_front(); ++moved; } break;
      case 11: { std::size_t s=g.below(cap+1); log << " r" << i << "," << s; c.resize(s); m.resize(s); } break;
      case 12: log << " clear" << i; c.clear(); m.clear(); break;
      case 13: { log << " copy" << j << ">" << i; if (g.coin()) c=p[j].c; else { C q(p[j].c); c=std::move(q); } m=p[j].m; ++wrap; } break;
      case 14: { int l=g.range(1,int(std::min<std::size_t>(cap,5))); log << " init" << i << "," << l; std::vector<T> v; for (int q=0;q<l;++q) v.push_back(Make<T>::make(next++)); if (g.coin()) c=braced<C>(v); else { p[i].~P(); std::fill_n(reinterpret_cast<unsigned char*>(&p[i]),sizeof(P),(unsigned char)0x5b); new (&p[i]) P{braced<C>(v),{}}; } p[i].m.assign(v.begin(),v.end()); } break;
      case 15: if (!m.empty()) { auto q=g.below(m.size()); int v=next++; log << " w" << i << "[" << q << "]"; auto x=Make<T>::make(v); switch (g.below(4)) { case 0: c[q]=x; break; case 1: *(c.begin()+q)=x; break; case 2: q=0; c.front()=x; break; default: q=m.size()-1; c.back()=x; } m[q]=x; } break;
    }
    for (auto& q:p) q.verify(g,log.str());
  }
  g.nontrivial(moved>1 || wrap>0); g.describe(log.str());
}
#if PART==1
template<class T, int n> void deque(pbt::Gen& g) { history<F::ReservedDeque<T,n>,true,n>(g); }
PROPERTY(deque_int_1,1000) { deque<int,1>(g); }
PROPERTY(deque_int_2,2000) { deque<int,2>(g); }
PROPERTY(deque_int_5,4000) { deque<int,5>(g); }
PROPERTY(deque_int_16,3000) { deque<int,16>(g); }
PROPERTY(deque_string_3,2000) { deque<std::string,3>(g); }
PROPERTY(deque_string_8,2000) { deque<std::string,8>(g); }
PROPERTY(deque_multiindex_6,2000) { deque<F::StaticMultiIndex<std::size_t,2>,6>(g); }
#elif PART==2
template<class T, std::size_t b, std::size_t n> void oarray(pbt::Gen& g) { history<F::OverflowArray<std::array<T,b>,n>,false,n>(g); }
PROPERTY(overflow_1_1,1000) { oarray<int,1,1>(g); }
PROPERTY(overflow_1_4,3000) { oarray<std::size_t,1,4>(g); }
PROPERTY(overflow_2_2,2000) { oarray<int,2,2>(g); }
PROPERTY(overflow_3_5,4000) { oarray<unsigned short,3,5>(g); }
PROPERTY(overflow_5_16,3000) { oarray<std::size_t,5,16>(g); }
PROPERTY(overflow_string_2_6,2000) { oarray<std::string,2,6>(g); }
template<std::size_t n, std::size_t cap> void index(pbt::Gen& g) { history<F::OverflowArray<F::StaticMultiIndex<std::size_t,n>,cap>,false,cap>(g); }
PROPERTY(overflow_index_1_2,2000) { index<1,2>(g); }
PROPERTY(overflow_index_2_4,2000) { index<2,4>(g); }
PROPERTY(overflow_index_4_9,2000) { index<4,9>(g); }
// prefixed paths are built from the end
PROPERTY(prefix,2000)
{
  std::deque<std::size_t> m; F::OverflowArray<F::StaticMultiIndex<std::size_t,3>,8> a; int n=g.range(0,8);
  for (int i=0;i<n;++i) { m.push_front(g.below(100)); a.push_front(m.front()); }
  PBT_CHECK(g, a.size()==m.size() && std::equal(a.begin(),a.end(),m.begin()), "path built by push_front");
  g.nontrivial(n>1); g.describe("n="+std::to_string(n));
}
#else
template<class S, std::size_t n> void multi(pbt::Gen& g)
{
  using M=F::StaticMultiIndex<S,n>; using A=std::array<S,n>;
  static_assert(M::size()==n && M::max_size()==n && std::tuple_size_v<M> ==n && sizeof(M)==sizeof(A));
  std::vector<M> v; std::vector<A> w; int k=g.range(2,12);
  for (int i=0;i<k;++i) { M m; A a; for (std::size_t j=0;j<n;++j) { S d=g.chance(1,8*n)?S(std::numeric_limits<S>::max()-g.below(2)):S(g.below(n>2?2:3)); a[j]=d; if (g.coin()) m[j]=d; else *(m.begin()+j)=d; } v.push_back(m); w.push_back(a); }
  std::map<M,int> om; std::unordered_map<M,int> um; std::map<A,int> rm; std::set<M> os; std::unordered_set<M> us; std::set<A> rs;
  for (int i=0;i<k;++i) {
    om[v[i]]+=i+1; um[v[i]]+=i+1; rm[w[i]]+=i+1; os.insert(v[i]); us.insert(v[i]); rs.insert(w[i]);
    for (int j=0;j<k;++j) {
      PBT_CHECK(g, (v[i]==v[j])==(w[i]==w[j]) && (v[i]!=v[j])==(w[i]!=w[j]), "equality of ", v[i], " and ", v[j]);
      PBT_CHECK(g, (v[i]<v[j])==(w[i]<w[j]) && (v[i]>v[j])==(w[i]>w[j]) && (v[i]<=v[j])==(w[i]<=w[j]) && (v[i]>=v[j])==(w[i]>=w[j]), "order of ", v[i], " and ", v[j]);
      if (w[i]==w[j]) PBT_CHECK(g, std::hash<M>()(v[i])==std::hash<M>()(v[j]), "hash of equal indices");
    }
    std::size_t h=0; for (auto x:w[i]) Dune::hash_combine(h,x); PBT_CHECK(g, hash_value(v[i])==h && std::hash<M>()(v[i])==h && std::hash<const M>()(v[i])==h, "hash of ", v[i]);
    std::ostringstream a,b; a << v[i]; for (auto x:w[i]) b << x << "  "; PBT_CHECK(g, n==1 || a.str()==b.str(), "output '", a.str(), "' instead of '", b.str(), "'");
    PBT_CHECK(g, v[i].size()==n && std::equal(v[i].begin(),v[i].end(),w[i].begin(),w[i].end()) && v[i].front()==w[i].front() && v[i].back()==w[i].back(), "entries");
    auto copy=v[i]; copy[n-1]=S(copy[n-1]+1); PBT_CHECK(g, copy!=v[i] && v[i][n-1]==w[i][n-1], "independence of copies");
    if constexpr (n==1) {
      const M& c=v[i]; const S& r=c; M& mut=v[i]; PBT_CHECK(g, &r==&c[0] && c==w[i][0] && S(c)==w[i][0], "cast to the digit"); S old=r; S& s=mut; s=S(41); PBT_CHECK(g, c[0]==S(41) && r==S(41), "mutable cast"); ++s; PBT_CHECK(g, mut[0]==S(42), "mutable reference"); s=old;
      std::vector<int> arr(64,0); if (w[i][0]<64) { arr[v[i]]=7; PBT_CHECK(g, arr[w[i][0]]==7, "use as index"); }
      static_assert(std::is_same_v<F::FlatMultiIndex<S>,M>);
    }
  }
  PBT_CHECK(g, om.size()==rm.size() && um.size()==rm.size() && os.size()==rs.size() && us.size()==rs.size(), "number of keys");
  auto it=om.begin(); for (auto& [a,s]:rm) { M m; std::copy(a.begin(),a.end(),m.begin()); PBT_CHECK(g, it->second==s && it->first==m && um.at(m)==s, "value of key ", m); ++it; }
  g.nontrivial(rm.size()>1 && rm.size()<std::size_t(k)); g.describe("k="+std::to_string(k)+" keys="+std::to_string(rm.size()));
}
PROPERTY(multiindex_1,2000) { multi<std::size_t,1>(g); }
PROPERTY(multiindex_2,2000) { multi<std::size_t,2>(g); }
PROPERTY(multiindex_3_short,2000) { multi<unsigned short,3>(g); }
PROPERTY(multiindex_1_unsigned,2000) { multi<unsigned,1>(g); }
PROPERTY(multiindex_5,2000) { multi<std::size_t,5>(g); }
#endif
#include "main.hh"
