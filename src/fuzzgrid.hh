// A small unstructured conforming Dune grid for generated meshes.
//
// It is a complete implementation of the dune-grid interface (through the
// facade classes of dune-grid) for one level: arbitrary lists of elements of
// any geometry type, with arbitrary numbering of the entities, arbitrary ids,
// arbitrary local vertex order, arbitrary order of iteration over elements and
// intersections.  setMesh() exchanges the mesh, like an adaptation step does.
#ifndef VERIF_FUZZGRID_HH
#define VERIF_FUZZGRID_HH

#include <array>
#include <map>
#include <memory>
#include <set>
#include <vector>

#include <dune/common/fvector.hh>
#include <dune/common/parallel/communication.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/grid/common/grid.hh>
#include <dune/grid/common/gridfactory.hh>
#include <dune/grid/common/rangegenerators.hh>

namespace Dune {

// which element types may occur: decides hasSingleGeometryType
enum class FuzzKind { simplex, cube, mixed };

template<int dim, int dimw, FuzzKind kind> class FuzzGrid;

namespace FuzzImpl {

template<int dim, int dimw>
struct Mesh
{
  using Coord = FieldVector<double,dimw>;
  struct Entity
  {
    GeometryType type;
    std::vector<unsigned> v;      // vertices in the local order of the entity
    unsigned index = 0;           // consecutive per geometry type
    unsigned long id = 0;
    unsigned insertion = 0;       // position in the input (elements only)
  };
  std::vector<Coord> x;
  std::array<std::vector<Entity>,dim+1> ent;                   // ent[0]: elements in order of iteration
  std::vector<std::array<std::vector<unsigned>,dim+1>> sub;    // sub[e][codim][i] -> position in ent[codim]
  std::array<std::vector<GeometryType>,dim+1> types;
  std::map<GeometryType,unsigned,bool(*)(const GeometryType&,const GeometryType&)> count;
  struct Face { int neighbor = -1; int indexInOutside = -1; int boundary = -1; };
  std::vector<std::vector<Face>> faces;                        // faces[e][i]
  std::vector<std::vector<unsigned>> faceOrder;                // order of iteration over intersections
  unsigned boundarySegments = 0;

  static bool less(const GeometryType& a, const GeometryType& b)
  { return std::make_tuple(a.dim(),a.id()>>1) < std::make_tuple(b.dim(),b.id()>>1); }

  Mesh() : count(less) {}

  static auto re(const GeometryType& t) { return Dune::referenceElement<double,dim>(t); }

  // perm(n): a permutation of 0..n-1 used for the numberings
  template<class Perm>
  Mesh(const std::vector<Coord>& coords, const std::vector<std::pair<GeometryType,std::vector<unsigned>>>& elems, Perm&& perm)
    : count(less)
  {
    // vertices that are used, in a random numbering
    std::vector<int> newIndex(coords.size(),-1);
    {
      std::vector<unsigned> used;
      std::set<unsigned> s;
      for (auto& e:elems) for (auto v:e.second) s.insert(v);
      used.assign(s.begin(),s.end());
      auto p=perm(used.size());
      x.resize(used.size());
      for (std::size_t i=0;i<used.size();++i) { newIndex[used[i]]=p[i]; x[p[i]]=coords[used[i]]; }
    }
    auto order=perm(elems.size());
    ent[0].resize(elems.size());
    for (std::size_t i=0;i<elems.size();++i) {
      auto& e=ent[0][order[i]];
      e.type=elems[i].first; e.insertion=i;
      for (auto v:elems[i].second) e.v.push_back(newIndex[v]);
    }
    sub.resize(elems.size());
    for (std::size_t e=0;e<ent[0].size();++e) sub[e][0]={unsigned(e)};
    // vertices: position in ent[dim] == vertex number
    ent[dim].resize(x.size());
    for (unsigned i=0;i<x.size();++i) { ent[dim][i].type=GeometryTypes::vertex; ent[dim][i].v={i}; }
    for (std::size_t e=0;e<ent[0].size();++e) sub[e][dim]=ent[0][e].v;
    for (int c=1;c<dim;++c) {
      std::map<std::vector<unsigned>,unsigned> pos;
      for (std::size_t e=0;e<ent[0].size();++e) {
        auto r=re(ent[0][e].type);
        for (int i=0;i<r.size(c);++i) {
          std::vector<unsigned> v;
          for (int k=0;k<r.size(i,c,dim);++k) v.push_back(ent[0][e].v[r.subEntity(i,c,k,dim)]);
          auto key=v; std::sort(key.begin(),key.end());
          auto it=pos.find(key);
          if (it==pos.end()) {
            it=pos.emplace(key,ent[c].size()).first;
            Entity s; s.type=r.type(i,c); s.v=v; ent[c].push_back(s);
          }
          sub[e][c].push_back(it->second);
        }
      }
    }
    // numbering
    std::size_t total=0;
    for (int c=0;c<=dim;++c) {
      std::map<GeometryType,std::vector<unsigned>,bool(*)(const GeometryType&,const GeometryType&)> byType(less);
      for (unsigned i=0;i<ent[c].size();++i) byType[ent[c][i].type].push_back(i);
      for (auto& [t,l]:byType) {
        types[c].push_back(t); count[t]=l.size();
        auto p=perm(l.size());
        for (std::size_t i=0;i<l.size();++i) ent[c][l[i]].index=p[i];
      }
      // the order in which an index set lists its types is not specified
      { auto q=perm(types[c].size()); auto old=types[c]; for (std::size_t i=0;i<q.size();++i) types[c][q[i]]=old[i]; }
      total+=ent[c].size();
    }
    auto p=perm(total);
    std::size_t k=0;
    for (int c=0;c<=dim;++c) for (auto& e:ent[c]) e.id=7+3*p[k++];
    // faces
    faces.resize(ent[0].size()); faceOrder.resize(ent[0].size());
    std::vector<std::vector<std::pair<int,int>>> at(dim>0 ? ent[1].size() : 0);
    for (std::size_t e=0;e<ent[0].size();++e) {
      auto n=sub[e][1].size();
      faces[e].resize(n);
      auto q=perm(n); faceOrder[e].assign(q.begin(),q.end());
      for (std::size_t i=0;i<n;++i) at[sub[e][1][i]].push_back({int(e),int(i)});
    }
    for (auto& l:at) {
      if (l.size()>2) DUNE_THROW(GridError,"more than two elements at a facet");
      if (l.size()==2) {
        faces[l[0].first][l[0].second]={l[1].first,l[1].second,-1};
        faces[l[1].first][l[1].second]={l[0].first,l[0].second,-1};
      }
      else faces[l[0].first][l[0].second].boundary=boundarySegments++;
    }
  }
};

template<int mydim, int cdim, class GridImp>
class Geometry : public Dune::MultiLinearGeometry<double,mydim,cdim>
{
  using Base = Dune::MultiLinearGeometry<double,mydim,cdim>;
public:
  Geometry(GeometryType t, const std::vector<FieldVector<double,cdim>>& c) : Base(t,c) {}
};

template<int codim, class GridImp>
class EntitySeed
{
public:
  constexpr static int codimension = codim;
  EntitySeed() = default;
  explicit EntitySeed(unsigned p) : pos_(p), valid_(true) {}
  bool isValid() const { return valid_; }
  unsigned pos() const { return pos_; }
private:
  unsigned pos_=0; bool valid_=false;
};

template<int codim, int dim, class GridImp>
class EntityBase
{
protected:
  using M = typename GridImp::MeshType;
public:
  constexpr static int codimension = codim;
  using Geometry = typename GridImp::template Codim<codim>::Geometry;
  using EntitySeed = typename GridImp::template Codim<codim>::EntitySeed;

  EntityBase() = default;
  EntityBase(const M* m, unsigned pos) : m_(m), pos_(pos) {}

  const auto& data() const { return m_->ent[codim][pos_]; }
  const M* mesh() const { return m_; }
  unsigned pos() const { return pos_; }

  int level() const { return 0; }
  PartitionType partitionType() const { return InteriorEntity; }
  GeometryType type() const { return data().type; }
  Geometry geometry() const
  {
    std::vector<FieldVector<double,GridImp::dimensionworld>> c;
    for (auto v:data().v) c.push_back(m_->x[v]);
    return Geometry(FuzzImpl::Geometry<dim-codim,GridImp::dimensionworld,GridImp>(type(),c));
  }
  EntitySeed seed() const { return EntitySeed(FuzzImpl::EntitySeed<codim,GridImp>(pos_)); }
  bool equals(const EntityBase& o) const { return m_==o.m_ && pos_==o.pos_; }
  unsigned subEntities(unsigned cc) const
  { return Dune::referenceElement<double,dim-codim>(type()).size(cc-codim); }
protected:
  const M* m_=nullptr;
  unsigned pos_=0;
};

template<int codim, int dim, class GridImp>
class Entity : public EntityBase<codim,dim,GridImp>
{
public:
  using EntityBase<codim,dim,GridImp>::EntityBase;
};

template<int dim, class GridImp>
class Entity<0,dim,GridImp> : public EntityBase<0,dim,GridImp>
{
  using Base = EntityBase<0,dim,GridImp>;
public:
  using EntityBase<0,dim,GridImp>::EntityBase;
  using LocalGeometry = typename GridImp::template Codim<0>::LocalGeometry;

  template<int cc>
  typename GridImp::template Codim<cc>::Entity subEntity(int i) const
  { return typename GridImp::template Codim<cc>::Entity(FuzzImpl::Entity<cc,dim,GridImp>(this->m_,this->m_->sub[this->pos_][cc].at(i))); }

  unsigned subEntities(unsigned cc) const { return this->m_->sub[this->pos_][cc].size(); }
  bool hasFather() const { return false; }
  typename GridImp::template Codim<0>::Entity father() const { DUNE_THROW(GridError,"no father"); }
  LocalGeometry geometryInFather() const { DUNE_THROW(GridError,"no father"); }
  bool isLeaf() const { return true; }
  bool isRegular() const { return true; }
  bool isNew() const { return false; }
  bool mightVanish() const { return false; }
  bool hasBoundaryIntersections() const { for (auto& f:this->m_->faces[this->pos_]) if (f.boundary>=0) return true; return false; }
  typename GridImp::HierarchicIterator hbegin(int) const;
  typename GridImp::HierarchicIterator hend(int) const;
};

template<int codim, PartitionIteratorType pit, class GridImp>
class Iterator
{
public:
  constexpr static int codimension = codim;
  using Entity = typename GridImp::template Codim<codim>::Entity;
  Iterator() = default;
  Iterator(const typename GridImp::MeshType* m, unsigned p) : m_(m), p_(p) {}
  void increment() { ++p_; }
  Entity dereference() const { return Entity(FuzzImpl::Entity<codim,GridImp::dimension,GridImp>(m_,p_)); }
  bool equals(const Iterator& o) const { return p_==o.p_ && m_==o.m_; }
private:
  const typename GridImp::MeshType* m_=nullptr; unsigned p_=0;
};

template<class GridImp>
class HierarchicIterator
{
public:
  constexpr static int codimension = 0;
  using Entity = typename GridImp::template Codim<0>::Entity;
  void increment() {}
  Entity dereference() const { DUNE_THROW(GridError,"empty range"); }
  bool equals(const HierarchicIterator&) const { return true; }
};

template<int dim, class GridImp>
typename GridImp::HierarchicIterator Entity<0,dim,GridImp>::hbegin(int) const
{ return typename GridImp::HierarchicIterator(FuzzImpl::HierarchicIterator<GridImp>()); }
template<int dim, class GridImp>
typename GridImp::HierarchicIterator Entity<0,dim,GridImp>::hend(int) const
{ return typename GridImp::HierarchicIterator(FuzzImpl::HierarchicIterator<GridImp>()); }

template<class GridImp>
class Intersection
{
  constexpr static int dim = GridImp::dimension;
  constexpr static int dimw = GridImp::dimensionworld;
  using M = typename GridImp::MeshType;
public:
  using Entity = typename GridImp::template Codim<0>::Entity;
  using Geometry = typename GridImp::template Codim<1>::Geometry;
  using LocalGeometry = typename GridImp::template Codim<1>::LocalGeometry;
  using NormalVector = FieldVector<double,dimw>;

  Intersection() = default;
  Intersection(const M* m, unsigned e, unsigned k) : m_(m), e_(e), k_(k) {}

  bool equals(const Intersection& o) const { return m_==o.m_ && e_==o.e_ && k_==o.k_; }
  bool boundary() const { return face().neighbor<0; }
  bool neighbor() const { return face().neighbor>=0; }
  bool conforming() const { return true; }
  std::size_t boundarySegmentIndex() const { return face().boundary; }
  Entity inside() const { return Entity(FuzzImpl::Entity<0,dim,GridImp>(m_,e_)); }
  Entity outside() const { return Entity(FuzzImpl::Entity<0,dim,GridImp>(m_,unsigned(face().neighbor))); }
  int indexInInside() const { return f(); }
  int indexInOutside() const { return face().indexInOutside; }
  GeometryType type() const { return m_->re(m_->ent[0][e_].type).type(f(),1); }

  LocalGeometry geometryInInside() const
  {
    auto r=m_->re(m_->ent[0][e_].type);
    std::vector<FieldVector<double,dim>> c;
    for (int k=0;k<r.size(f(),1,dim);++k) c.push_back(r.position(r.subEntity(f(),1,k,dim),dim));
    return LocalGeometry(FuzzImpl::Geometry<dim-1,dim,GridImp>(type(),c));
  }
  LocalGeometry geometryInOutside() const
  {
    auto r=m_->re(m_->ent[0][e_].type);
    auto o=face().neighbor;
    auto ro=m_->re(m_->ent[0][o].type);
    std::vector<FieldVector<double,dim>> c;
    for (int k=0;k<r.size(f(),1,dim);++k) {
      auto v=m_->ent[0][e_].v[r.subEntity(f(),1,k,dim)];
      const auto& vo=m_->ent[0][o].v;
      auto it=std::find(vo.begin(),vo.end(),v);
      c.push_back(ro.position(it-vo.begin(),dim));
    }
    return LocalGeometry(FuzzImpl::Geometry<dim-1,dim,GridImp>(type(),c));
  }
  Geometry geometry() const
  {
    auto r=m_->re(m_->ent[0][e_].type);
    std::vector<FieldVector<double,dimw>> c;
    for (int k=0;k<r.size(f(),1,dim);++k) c.push_back(m_->x[m_->ent[0][e_].v[r.subEntity(f(),1,k,dim)]]);
    return Geometry(FuzzImpl::Geometry<dim-1,dimw,GridImp>(type(),c));
  }
  NormalVector integrationOuterNormal(const FieldVector<double,dim-1>& x) const
  {
    auto r=m_->re(m_->ent[0][e_].type);
    auto gi=geometryInInside();
    auto g=inside().geometry();
    auto xi=gi.global(x);
    auto jit=g.jacobianInverseTransposed(xi);
    FieldVector<double,dim> rn=r.integrationOuterNormal(f());
    NormalVector n; jit.mv(rn,n);
    n *= g.integrationElement(xi);
    return n;
  }
  NormalVector outerNormal(const FieldVector<double,dim-1>& x) const { return integrationOuterNormal(x); }
  NormalVector unitOuterNormal(const FieldVector<double,dim-1>& x) const { auto n=integrationOuterNormal(x); n/=n.two_norm(); return n; }
  NormalVector centerUnitOuterNormal() const
  { return unitOuterNormal(Dune::referenceElement<double,dim-1>(type()).position(0,0)); }

private:
  unsigned f() const { return m_->faceOrder[e_][k_]; }
  const auto& face() const { return m_->faces[e_][f()]; }
  const M* m_=nullptr; unsigned e_=0, k_=0;
};

template<class GridImp>
class IntersectionIterator
{
public:
  using Intersection = Dune::Intersection<GridImp,FuzzImpl::Intersection<GridImp>>;
  IntersectionIterator() = default;
  IntersectionIterator(const typename GridImp::MeshType* m, unsigned e, unsigned k) : m_(m), e_(e), k_(k) {}
  bool equals(const IntersectionIterator& o) const { return m_==o.m_ && e_==o.e_ && k_==o.k_; }
  void increment() { ++k_; }
  Intersection dereference() const { return Intersection(FuzzImpl::Intersection<GridImp>(m_,e_,k_)); }
private:
  const typename GridImp::MeshType* m_=nullptr; unsigned e_=0, k_=0;
};

template<class GridImp>
class IndexSet : public Dune::IndexSet<GridImp,IndexSet<GridImp>,unsigned,std::vector<GeometryType>>
{
  using Base = Dune::IndexSet<GridImp,IndexSet<GridImp>,unsigned,std::vector<GeometryType>>;
  constexpr static int dim = std::remove_const_t<GridImp>::dimension;
public:
  using IndexType = unsigned;
  using Types = std::vector<GeometryType>;
  explicit IndexSet(const GridImp* g) : g_(g) {}

  template<int cc>
  IndexType index(const typename std::remove_const_t<GridImp>::Traits::template Codim<cc>::Entity& e) const { return e.impl().data().index; }
  template<class E> IndexType index(const E& e) const { return e.impl().data().index; }

  template<int cc>
  IndexType subIndex(const typename std::remove_const_t<GridImp>::Traits::template Codim<cc>::Entity& e, int i, unsigned codim) const
  { return sub(e,i,codim); }
  template<class E> IndexType subIndex(const E& e, int i, unsigned codim) const { return sub(e,i,codim); }

  Types types(int codim) const { return g_->mesh().types[codim]; }
  std::size_t size(GeometryType t) const { auto it=g_->mesh().count.find(t); return it==g_->mesh().count.end() ? 0 : it->second; }
  std::size_t size(int codim) const { return g_->mesh().ent[codim].size(); }
  template<class E> bool contains(const E& e) const { return e.impl().mesh()==&g_->mesh(); }
private:
  template<class E>
  IndexType sub(const E& e, int i, unsigned codim) const
  {
    constexpr int cc = E::codimension;
    const auto& m=*e.impl().mesh();
    if constexpr (cc==0) return m.ent[codim][m.sub[e.impl().pos()][codim].at(i)].index;
    else return m.ent[codim][subPos<cc>(m,e.impl().data(),i,codim)].index;
  }
public:
  template<int cc, class M, class D>
  static unsigned subPos(const M& m, const D& d, int i, unsigned codim)
  {
    auto r=Dune::referenceElement<double,dim-cc>(d.type);
    std::vector<unsigned> v;
    for (int k=0;k<r.size(i,codim-cc,dim-cc);++k) v.push_back(d.v[r.subEntity(i,codim-cc,k,dim-cc)]);
    std::sort(v.begin(),v.end());
    for (unsigned p=0;p<m.ent[codim].size();++p) {
      auto w=m.ent[codim][p].v; std::sort(w.begin(),w.end());
      if (w==v) return p;
    }
    DUNE_THROW(GridError,"no such sub-entity");
  }
private:
  const GridImp* g_;
};

template<class GridImp>
class IdSet : public Dune::IdSet<GridImp,IdSet<GridImp>,unsigned long>
{
public:
  using IdType = unsigned long;
  // the ids of the grid are salted: the id set of another grid orders the entities differently
  IdSet(const GridImp* g, IdType salt) : g_(g), salt_(salt) {}
  template<int cc>
  IdType id(const typename std::remove_const_t<GridImp>::Traits::template Codim<cc>::Entity& e) const { return e.impl().data().id^salt_; }
  template<class E> IdType id(const E& e) const { return e.impl().data().id^salt_; }
  template<class E>
  IdType subId(const E& e, int i, unsigned codim) const
  {
    const auto& m=*e.impl().mesh();
    if constexpr (E::codimension==0) return m.ent[codim][m.sub[e.impl().pos()][codim].at(i)].id^salt_;
    else return m.ent[codim][IndexSet<GridImp>::template subPos<E::codimension>(m,e.impl().data(),i,codim)].id^salt_;
  }
private:
  const GridImp* g_;
  IdType salt_;
};

} // namespace FuzzImpl

template<int dim, int dimw, FuzzKind kind>
struct FuzzGridFamily
{
  using G = FuzzGrid<dim,dimw,kind>;
  using Traits = GridTraits<dim,dimw,G,
    FuzzImpl::Geometry, FuzzImpl::Entity, FuzzImpl::Iterator,
    FuzzImpl::Intersection, FuzzImpl::Intersection, FuzzImpl::IntersectionIterator, FuzzImpl::IntersectionIterator,
    FuzzImpl::HierarchicIterator, FuzzImpl::Iterator,
    FuzzImpl::IndexSet<const G>, FuzzImpl::IndexSet<const G>,
    FuzzImpl::IdSet<const G>, unsigned long, FuzzImpl::IdSet<const G>, unsigned long,
    Communication<No_Comm>, DefaultLevelGridViewTraits, DefaultLeafGridViewTraits,
    FuzzImpl::EntitySeed, FuzzImpl::Geometry,
    unsigned, std::vector<GeometryType>, unsigned, std::vector<GeometryType>>;
};

template<int dim, int dimw = dim, FuzzKind kind_ = FuzzKind::mixed>
class FuzzGridBase;

template<int dim, int dimw, FuzzKind kind>
class FuzzGrid : public GridDefaultImplementation<dim,dimw,double,FuzzGridFamily<dim,dimw,kind>>
{
  using Self = FuzzGrid;
public:
  using GridFamily = FuzzGridFamily<dim,dimw,kind>;
  using Traits = typename GridFamily::Traits;
  using ctype = double;
  using MeshType = FuzzImpl::Mesh<dim,dimw>;
  constexpr static int dimension = dim;
  constexpr static int dimensionworld = dimw;
  constexpr static FuzzKind fuzzKind = kind;

  explicit FuzzGrid(MeshType m) : mesh_(std::make_shared<MeshType>(std::move(m))), indexSet_(this), idSet_(this,salt()) {}
  FuzzGrid(const FuzzGrid&) = delete;

  unsigned long salt() const { unsigned long s=0; for (const auto& c:mesh_->ent) for (const auto& e:c) s=s*3+(e.id&15); return s&255; }

  // like an adaptation step: entities of the old mesh become invalid
  void setMesh(MeshType m) { mesh_=std::make_shared<MeshType>(std::move(m)); }
  const MeshType& mesh() const { return *mesh_; }

  int maxLevel() const { return 0; }
  template<int cd, PartitionIteratorType pit>
  typename Traits::template Codim<cd>::template Partition<pit>::LeafIterator leafbegin() const
  { return FuzzImpl::Iterator<cd,pit,const Self>(mesh_.get(),0); }
  template<int cd, PartitionIteratorType pit>
  typename Traits::template Codim<cd>::template Partition<pit>::LeafIterator leafend() const
  { return FuzzImpl::Iterator<cd,pit,const Self>(mesh_.get(),(pit==Ghost_Partition||pit==Overlap_Partition) ? 0u : unsigned(mesh_->ent[cd].size())); }
  template<int cd> typename Traits::template Codim<cd>::LeafIterator leafbegin() const { return leafbegin<cd,All_Partition>(); }
  template<int cd> typename Traits::template Codim<cd>::LeafIterator leafend() const { return leafend<cd,All_Partition>(); }
  template<int cd, PartitionIteratorType pit>
  typename Traits::template Codim<cd>::template Partition<pit>::LevelIterator lbegin(int) const { return leafbegin<cd,pit>(); }
  template<int cd, PartitionIteratorType pit>
  typename Traits::template Codim<cd>::template Partition<pit>::LevelIterator lend(int) const { return leafend<cd,pit>(); }
  template<int cd> typename Traits::template Codim<cd>::LevelIterator lbegin(int) const { return leafbegin<cd,All_Partition>(); }
  template<int cd> typename Traits::template Codim<cd>::LevelIterator lend(int) const { return leafend<cd,All_Partition>(); }

  using E0 = typename Traits::template Codim<0>::Entity;
  typename Traits::LeafIntersectionIterator ileafbegin(const E0& e) const { return FuzzImpl::IntersectionIterator<const Self>(e.impl().mesh(),e.impl().pos(),0); }
  typename Traits::LeafIntersectionIterator ileafend(const E0& e) const { return FuzzImpl::IntersectionIterator<const Self>(e.impl().mesh(),e.impl().pos(),unsigned(e.impl().mesh()->faces[e.impl().pos()].size())); }
  typename Traits::LevelIntersectionIterator ilevelbegin(const E0& e) const { return ileafbegin(e); }
  typename Traits::LevelIntersectionIterator ilevelend(const E0& e) const { return ileafend(e); }

  int size(int, int codim) const { return mesh_->ent[codim].size(); }
  int size(int codim) const { return mesh_->ent[codim].size(); }
  int size(int, GeometryType t) const { return indexSet_.size(t); }
  int size(GeometryType t) const { return indexSet_.size(t); }
  std::size_t numBoundarySegments() const { return mesh_->boundarySegments; }
  const typename Traits::GlobalIdSet& globalIdSet() const { return idSet_; }
  const typename Traits::LocalIdSet& localIdSet() const { return idSet_; }
  const typename Traits::LevelIndexSet& levelIndexSet(int) const { return indexSet_; }
  const typename Traits::LeafIndexSet& leafIndexSet() const { return indexSet_; }
  template<class Seed>
  typename Traits::template Codim<Seed::codimension>::Entity entity(const Seed& s) const
  { return typename Traits::template Codim<Seed::codimension>::Entity(FuzzImpl::Entity<Seed::codimension,dim,const Self>(mesh_.get(),s.impl().pos())); }
  const Communication<No_Comm>& comm() const { return comm_; }
  int overlapSize(int) const { return 0; }
  int ghostSize(int) const { return 0; }
  int overlapSize(int,int) const { return 0; }
  int ghostSize(int,int) const { return 0; }
private:
  std::shared_ptr<MeshType> mesh_;
  FuzzImpl::IndexSet<const Self> indexSet_;
  FuzzImpl::IdSet<const Self> idSet_;
  Communication<No_Comm> comm_;
};

namespace Capabilities {
  template<int dim, int dimw, FuzzKind kind>
  struct hasSingleGeometryType<FuzzGrid<dim,dimw,kind>>
  {
    static const bool v = (kind!=FuzzKind::mixed) || dim==1;
    static const unsigned int topologyId = kind==FuzzKind::cube ? GeometryTypes::cube(dim).id() : kind==FuzzKind::simplex||dim==1 ? GeometryTypes::simplex(dim).id() : ~0u;
  };
  template<int dim, int dimw, FuzzKind kind, int codim>
  struct hasEntity<FuzzGrid<dim,dimw,kind>,codim> { static const bool v = true; };
  template<int dim, int dimw, FuzzKind kind, int codim>
  struct hasEntityIterator<FuzzGrid<dim,dimw,kind>,codim> { static const bool v = true; };
  template<int dim, int dimw, FuzzKind kind>
  struct isLevelwiseConforming<FuzzGrid<dim,dimw,kind>> { static const bool v = true; };
  template<int dim, int dimw, FuzzKind kind>
  struct isLeafwiseConforming<FuzzGrid<dim,dimw,kind>> { static const bool v = true; };
}

} // namespace Dune
#endif
