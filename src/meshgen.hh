// Generators of random conforming meshes (1d, 2d, 3d) for FuzzGrid.
#ifndef VERIF_MESHGEN_HH
#define VERIF_MESHGEN_HH

#include <array>
#include <cmath>
#include <sstream>

#include "pbt.hh"
#include "fuzzgrid.hh"

namespace gen {

using Dune::FuzzKind;
using Dune::FieldVector;
using Dune::GeometryType;
namespace GT = Dune::GeometryTypes;
using pbt::Gen;

struct MeshOptions
{
  bool affine = false;        // only affine cells (parallelograms, ...)
  bool positive = false;      // only positively oriented elements
  unsigned maxCells = 6;      // number of background cells
  bool holes = true;
  bool prisms = true, pyramids = true;   // 3d mixed
  bool identity = false;      // no random numbering or local order at all
  double maxGrading = 1;      // decades of grading of the element sizes
};

inline const char* name(FuzzKind k) { return k==FuzzKind::simplex ? "simplex" : k==FuzzKind::cube ? "cube" : "mixed"; }

// --- random symmetries of the reference elements ---------------------------

inline bool oddPermutation(const std::vector<std::size_t>& p)
{
  bool odd=false;
  for (std::size_t i=0;i<p.size();++i) for (std::size_t j=i+1;j<p.size();++j) if (p[i]>p[j]) odd=!odd;
  return odd;
}

// new local vertex k is old local vertex result[k]
inline std::vector<unsigned> symmetry(Gen& g, const GeometryType& t, bool positive)
{
  std::vector<unsigned> r;
  if (t.isSimplex()) {
    auto p=g.permutation(t.dim()+1);
    if (positive && oddPermutation(p)) std::swap(p[0],p[1]);
    r.assign(p.begin(),p.end());
  }
  else if (t.isCube()) {
    auto p=g.permutation(t.dim());
    unsigned flips=g.below(1u<<t.dim());
    bool odd=oddPermutation(p) ^ (__builtin_popcount(flips)%2);
    if (positive && odd) flips^=1;
    for (unsigned k=0;k<(1u<<t.dim());++k) {
      unsigned o=0;
      for (unsigned d=0;d<t.dim();++d) if (k>>d & 1) o|=1u<<p[d];
      r.push_back(o^flips);
    }
  }
  else if (t.isPrism()) {
    auto p=g.permutation(3);
    bool top=g.coin();
    if (positive && (oddPermutation(p)^top)) std::swap(p[0],p[1]);
    for (unsigned k=0;k<6;++k) r.push_back(p[k%3]+3*((k/3)^(top?1:0)));
  }
  else if (t.isPyramid()) {
    auto p=g.permutation(2);
    unsigned flips=g.below(4);
    bool odd=oddPermutation(p) ^ (__builtin_popcount(flips)%2);
    if (positive && odd) flips^=1;
    for (unsigned k=0;k<4;++k) {
      unsigned o=0;
      for (unsigned d=0;d<2;++d) if (k>>d & 1) o|=1u<<p[d];
      r.push_back(o^flips);
    }
    r.push_back(4);
  }
  return r;
}

template<int dimw>
using Elems = std::vector<std::pair<GeometryType,std::vector<unsigned>>>;

// a well conditioned random linear map
template<int dimw, int dim>
Dune::FieldMatrix<double,dimw,dim> linearMap(Gen& g, bool positive)
{
  Dune::FieldMatrix<double,dimw,dim> A(0);
  for (int i=0;i<dimw;++i) for (int j=0;j<dim;++j) A[i][j]=0.3*g.unit();
  for (int j=0;j<dim;++j) A[j][j]+=1;
  if (!positive && g.chance(1,4)) for (int i=0;i<dimw;++i) A[i][0]*=-1;
  static const std::vector<double> scales{1,0.25,3,0.01,40};
  double s=g.pick(scales);
  A*=s;
  return A;
}

template<int dim, int dimw>
struct MeshInput
{
  std::vector<FieldVector<double,dimw>> x;
  Elems<dimw> elems;
};

// positions of grid planes with random positive spacings
inline std::vector<double> planes(Gen& g, int n, double grading)
{
  std::vector<double> p{0};
  for (int i=0;i<n;++i) p.push_back(p.back()+std::pow(10.0,grading*g.unit()/2)*(0.6+0.4*g.unit01()));
  return p;
}

template<int dim, int dimw>
MeshInput<dim,dimw> meshInput(Gen& g, FuzzKind kind, const MeshOptions& opt)
{
  MeshInput<dim,dimw> m;
  // number of background cells in each direction
  std::array<int,dim> n;
  unsigned cells=1;
  for (int d=0;d<dim;++d) { n[d]=g.range(1,std::max<int>(1,std::min<int>(dim==1?6:3,opt.maxCells/cells))); cells*=n[d]; }
  std::array<std::vector<double>,dim> pl;
  for (int d=0;d<dim;++d) pl[d]=planes(g,n[d],opt.maxGrading);
  bool perturb = dim>1 && !(opt.affine && kind!=FuzzKind::simplex) && g.chance(3,4);
  auto A=linearMap<dimw,dim>(g,opt.positive);

  std::array<int,dim> nv; int total=1;
  for (int d=0;d<dim;++d) { nv[d]=n[d]+1; total*=nv[d]; }
  auto vertex=[&](std::array<int,dim> i) { int k=0; for (int d=dim-1;d>=0;--d) k=k*nv[d]+i[d]; return unsigned(k); };

  std::vector<FieldVector<double,dim>> y(total);
  for (int k=0;k<total;++k) {
    std::array<int,dim> i; int r=k; for (int d=0;d<dim;++d) { i[d]=r%nv[d]; r/=nv[d]; }
    for (int d=0;d<dim;++d) {
      double h=1e100;
      if (i[d]>0) h=std::min(h,pl[d][i[d]]-pl[d][i[d]-1]);
      if (i[d]<n[d]) h=std::min(h,pl[d][i[d]+1]-pl[d][i[d]]);
      y[k][d]=pl[d][i[d]] + (perturb ? (dim==3?0.1:0.19)*h*g.unit() : 0.0);
    }
  }

  // which background cells are there
  std::vector<char> present(cells,1);
  if (opt.holes && cells>1 && g.chance(1,3)) {
    unsigned left=cells;
    for (unsigned c=0;c<cells;++c) if (left>1 && g.chance(1,4)) { present[c]=0; --left; }
  }
  auto cellCorner=[&](std::array<int,dim> i, unsigned k) { for (int d=0;d<dim;++d) i[d]+=(k>>d)&1; return vertex(i); };

  if constexpr (dim==1) {
    for (int c=0;c<n[0];++c) if (present[c]) m.elems.push_back({GT::line,{cellCorner({c},0),cellCorner({c},1)}});
  }
  else if constexpr (dim==2) {
    for (unsigned c=0;c<cells;++c) if (present[c]) {
      std::array<int,2> i{int(c)%n[0],int(c)/n[0]};
      unsigned v[4]; for (unsigned k=0;k<4;++k) v[k]=cellCorner(i,k);
      bool tri = kind==FuzzKind::simplex || (kind==FuzzKind::mixed && g.coin());
      if (!tri) m.elems.push_back({GT::quadrilateral,{v[0],v[1],v[2],v[3]}});
      else if (g.coin()) { m.elems.push_back({GT::triangle,{v[0],v[1],v[3]}}); m.elems.push_back({GT::triangle,{v[0],v[3],v[2]}}); }
      else { m.elems.push_back({GT::triangle,{v[0],v[1],v[2]}}); m.elems.push_back({GT::triangle,{v[1],v[3],v[2]}}); }
    }
  }
  else if constexpr (dim==3) {
    bool kuhn = kind==FuzzKind::simplex && g.coin();
    // faces: 0 quad, 1 diagonal through the smallest vertex, 2 the other one
    std::map<std::array<unsigned,4>,int> faceState;
    auto state=[&](std::array<unsigned,4> f) -> int {
      auto key=f; std::sort(key.begin(),key.end());
      auto it=faceState.find(key);
      if (it!=faceState.end()) return it->second;
      int s = kind==FuzzKind::cube ? 0 : kind==FuzzKind::simplex ? g.range(1,2) : (opt.pyramids ? (g.chance(1,3) ? g.range(1,2) : 0) : 0);
      return faceState[key]=s;
    };
    // columns of prisms: only in mixed meshes without pyramids, so that the split is the same in the whole column
    std::map<std::array<int,2>,int> column;
    for (unsigned c=0;c<cells;++c) if (present[c]) {
      std::array<int,3> i{int(c)%n[0],(int(c)/n[0])%n[1],int(c)/(n[0]*n[1])};
      unsigned v[8]; for (unsigned k=0;k<8;++k) v[k]=cellCorner(i,k);
      if (kind==FuzzKind::cube) { m.elems.push_back({GT::hexahedron,{v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7]}}); continue; }
      if (kuhn) {
        static const int perms[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
        for (auto& p:perms) {
          unsigned k=0; std::vector<unsigned> t{v[0]};
          for (int d:p) { k|=1u<<d; t.push_back(v[k]); }
          m.elems.push_back({GT::tetrahedron,t});
        }
        continue;
      }
      if (kind==FuzzKind::mixed && !opt.pyramids) {
        std::array<int,2> col{i[0],i[1]};
        if (!column.count(col)) column[col]=opt.prisms ? g.range(0,2) : 0;
        int s=column[col];
        if (s==0) m.elems.push_back({GT::hexahedron,{v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7]}});
        else if (s==1) { m.elems.push_back({GT::prism,{v[0],v[1],v[3],v[4],v[5],v[7]}}); m.elems.push_back({GT::prism,{v[0],v[3],v[2],v[4],v[7],v[6]}}); }
        else { m.elems.push_back({GT::prism,{v[0],v[1],v[2],v[4],v[5],v[6]}}); m.elems.push_back({GT::prism,{v[1],v[3],v[2],v[5],v[7],v[6]}}); }
        continue;
      }
      // face f: direction f/2, side f%2; corners in tensor order
      std::array<std::array<unsigned,4>,6> F; std::array<int,6> S;
      for (int f=0;f<6;++f) {
        int d=f/2, a=d==0?1:0, b=d==2?1:2;
        for (unsigned k=0;k<4;++k) F[f][k]=v[(unsigned(f%2)<<d) | ((k&1)<<a) | ((k>>1)<<b)];
        S[f]=state(F[f]);
      }
      bool allQuad = std::all_of(S.begin(),S.end(),[](int s){return s==0;});
      if (allQuad && !g.chance(1,4)) { m.elems.push_back({GT::hexahedron,{v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7]}}); continue; }
      if (opt.prisms) {
        int found=-1;
        for (int d=0;d<3;++d) {
          if (S[2*d]==0 || S[2*d]!=S[2*d+1]) continue;
          bool rest=true; for (int e=0;e<3;++e) if (e!=d && (S[2*e]||S[2*e+1])) rest=false;
          if (rest) found=d;
        }
        if (found>=0) {
          auto& f0=F[2*found]; auto& f1=F[2*found+1];
          static const int T[2][2][3]={{{0,1,3},{0,3,2}},{{0,1,2},{1,3,2}}};
          for (auto& t:T[S[2*found]-1]) {
            std::vector<unsigned> p; for (int k:t) p.push_back(f0[k]); for (int k:t) p.push_back(f1[k]);
            m.elems.push_back({GT::prism,p});
          }
          continue;
        }
      }
      // cone over the centre
      FieldVector<double,3> cen(0); for (auto k:v) cen.axpy(0.125,y[k]);
      unsigned cv=y.size(); y.push_back(cen);
      for (int f=0;f<6;++f) {
        auto& q=F[f];
        if (S[f]==0) m.elems.push_back({GT::pyramid,{q[0],q[1],q[2],q[3],cv}});
        else {
          static const int T[2][2][3]={{{0,1,3},{0,3,2}},{{0,1,2},{1,3,2}}};
          for (auto& t:T[S[f]-1]) m.elems.push_back({GT::tetrahedron,{q[t[0]],q[t[1]],q[t[2]],cv}});
        }
      }
    }
  }
  // world coordinates
  m.x.resize(y.size());
  for (std::size_t k=0;k<y.size();++k) {
    A.mv(y[k],m.x[k]);
    if constexpr (dimw>dim) { double s=A.frobenius_norm(); for (int d=dim;d<dimw;++d) m.x[k][d]+=(opt.affine && kind!=FuzzKind::simplex) ? 0.0 : 0.2*s*g.unit(); }
  }
  // make all elements positively oriented, then apply a random symmetry
  for (auto& [t,v]:m.elems) {
    if constexpr (dim==dimw) {
      std::vector<FieldVector<double,dimw>> c; for (auto k:v) c.push_back(m.x[k]);
      Dune::MultiLinearGeometry<double,dim,dimw> geo(t,c);
      auto re=Dune::referenceElement<double,dim>(t);
      auto jt=geo.jacobianTransposed(re.position(0,0));
      if (jt.determinant()<0) {
        if (t.isSimplex()) std::swap(v[0],v[1]);
        else if (t.isPrism()) { std::swap(v[0],v[1]); std::swap(v[3],v[4]); }
        else if (t.isPyramid()) { std::swap(v[0],v[1]); std::swap(v[2],v[3]); }
        else for (unsigned k=0;k<v.size();k+=2) std::swap(v[k],v[k+1]);
      }
    }
    if (!opt.identity) {
      auto s=symmetry(g,t,opt.positive);
      auto w=v; for (std::size_t k=0;k<w.size();++k) w[k]=v[s[k]];
      v=w;
    }
  }
  return m;
}

template<int dim, int dimw>
typename Dune::FuzzImpl::Mesh<dim,dimw> mesh(Gen& g, FuzzKind kind, const MeshOptions& opt = {})
{
  auto in=meshInput<dim,dimw>(g,kind,opt);
  bool shuffle=!opt.identity && !g.chance(1,6);
  auto perm=[&](std::size_t n) {
    if (shuffle) return g.permutation(n);
    std::vector<std::size_t> p(n); for (std::size_t i=0;i<n;++i) p[i]=i; return p;
  };
  Dune::FuzzImpl::Mesh<dim,dimw> m(in.x,in.elems,perm);
  std::map<std::string,int> cnt;
  std::ostringstream s;
  for (auto& e:m.ent[0]) {
    auto t=e.type;
    ++cnt[t.isLine()?"line":t.isTriangle()?"tri":t.isQuadrilateral()?"quad":t.isTetrahedron()?"tet":t.isHexahedron()?"hex":t.isPrism()?"prism":"pyramid"];
  }
  s << dim << "d mesh";
  if (dimw!=dim) s << " in " << dimw << "d";
  bool interior=false;
  for (auto& f:m.faces) for (auto& x:f) if (x.neighbor>=0) interior=true;
  std::string types;
  for (auto& [k,v]:cnt) { s << " " << v << "x" << k; types += (types.empty()?"":"+")+k; }
  s << (shuffle?", shuffled":"");
  g.describe(s.str());
  g.label("mesh "+std::to_string(dim)+"d "+types);
  if (interior) g.label("has interior facets");
  return m;
}

template<int dim, int dimw, FuzzKind kind>
std::unique_ptr<Dune::FuzzGrid<dim,dimw,kind>> grid(Gen& g, const MeshOptions& opt = {})
{ return std::make_unique<Dune::FuzzGrid<dim,dimw,kind>>(mesh<dim,dimw>(g,kind,opt)); }

// a random point of the reference element, strictly inside or on its boundary
template<int dim>
FieldVector<double,dim> localPoint(Gen& g, const GeometryType& t)
{
  auto re=Dune::referenceElement<double,dim>(t);
  if constexpr (dim==0) return {};
  else {
    int n=re.size(dim); double sum=0; std::vector<double> w(n);
    for (auto& x:w) { x=g.below(101)/100.0; sum+=x; }
    if (sum==0) { w[0]=1; sum=1; }
    FieldVector<double,dim> x(0);
    for (int i=0;i<n;++i) x.axpy(w[i]/sum,re.position(i,dim));
    return x;
  }
}

// fixed, slightly irregular points in the interior of the reference element
template<int dim>
std::vector<FieldVector<double,dim>> samplePoints(const GeometryType& t, int count=3)
{
  auto re=Dune::referenceElement<double,dim>(t);
  std::vector<FieldVector<double,dim>> r;
  if constexpr (dim==0) { r.push_back({}); return r; }
  else {
    int n=re.size(dim);
    for (int c=0;c<count;++c) {
      FieldVector<double,dim> x(0); double sum=0;
      for (int i=0;i<n;++i) { double w=1+0.7*std::sin(1.3*c+2.1*i+0.4*i*c); x.axpy(w,re.position(i,dim)); sum+=w; }
      x/=sum; r.push_back(x);
    }
    return r;
  }
}

} // namespace gen
#endif
