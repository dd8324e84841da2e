// Histories of type-erased objects against a model of independent values; every object is tracked.
// PART 1: PolymorphicSmallObject, PART 2: (differentiable, local) functions, functions from callables
#include <dune/common/copyableoptional.hh>
#include "pbt.hh"
#include <optional>
#include <memory>
#include <dune/common/fvector.hh>
#include <dune/functions/common/polymorphicsmallobject.hh>
#include <dune/functions/common/differentiablefunction.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/common/localfunction.hh>
#include <dune/functions/gridfunctions/gridfunction.hh>
namespace F=Dune::Functions;

// all living tracked objects
struct Registry { std::set<const void*> live; long throwIn=-1; long copies=0; void reset() { live.clear(); throwIn=-1; copies=0; } };
Registry reg;
struct CopyFailed {};
struct Tracked
{
  int value; int check;
  explicit Tracked(int v) : value(v), check(~v) { born(); }
  Tracked(const Tracked& o) : value(o.value), check(o.check) { o.alive("copied"); ++reg.copies; if (reg.throwIn>=0 && reg.throwIn--==0) throw CopyFailed(); born(); }
  Tracked(Tracked&& o) noexcept : value(o.value), check(o.check) { o.alive("moved"); born(); o.value=-12345; o.check=~o.value; }
  Tracked& operator=(const Tracked& o) { o.alive("assigned from"); alive("assigned to"); value=o.value; check=o.check; return *this; }
  Tracked& operator=(Tracked&& o) noexcept { o.alive("assigned from"); alive("assigned to"); value=o.value; check=o.check; o.value=-12345; o.check=~o.value; return *this; }
  ~Tracked() { if (!reg.live.erase(this)) bad("destroyed an object that does not exist"); check=0; value=77777; }
  void alive(const char* w) const { if (!reg.live.count(this) || check!=~value) bad(std::string("an object that does not exist is ")+w); }
  void born() { if (!reg.live.insert(this).second) bad("an object is created on top of another one"); }
  [[noreturn]] static void bad(const std::string& s) { std::cerr << "Tracked: " << s << std::endl; std::abort(); }
};
template<int bytes> struct Payload { unsigned char p[bytes]; void fill(int v) { for (int i=0;i<bytes;++i) p[i]=(unsigned char)(v*7+i); } bool ok(int v) const { for (int i=0;i<bytes;++i) if (p[i]!=(unsigned char)(v*7+i)) return false; return true; } };
template<> struct Payload<0> { void fill(int) {} bool ok(int) const { return true; } };

#if PART==1
struct Base { virtual ~Base() {} virtual Base* clone() const=0; virtual Base* clone(void*) const=0; virtual Base* move(void*)=0; virtual int get() const=0; virtual void set(int)=0; virtual int kind() const=0; virtual bool intact() const=0; };
struct Other { virtual ~Other() {} virtual int o() const { return 4711; } double d=3; };
template<int bytes, int align> struct alignas(align) D : Base
{
  Tracked t; Payload<bytes> p;
  explicit D(int v) : t(v) { p.fill(v); }
  D* clone() const override { return new D(*this); } D* clone(void* b) const override { return new (b) D(*this); } D* move(void* b) override { return new (b) D(std::move(*this)); }
  int get() const override { t.alive("read"); return t.value; } void set(int v) override { t.alive("written"); t.value=v; t.check=~v; p.fill(v); } int kind() const override { return 1000*bytes+align; }
  bool intact() const override { return p.ok(t.value) && std::uintptr_t(this)%align==0; }
};
template<int bytes> struct M : Other, Base
{
  Tracked t; Payload<bytes> p;
  explicit M(int v) : t(v) { p.fill(v); }
  M* clone() const override { return new M(*this); } M* clone(void* b) const override { return new (b) M(*this); } M* move(void* b) override { return new (b) M(std::move(*this)); }
  int get() const override { t.alive("read"); return t.value; } void set(int v) override { t.alive("written"); t.value=v; t.check=~v; p.fill(v); } int kind() const override { return -bytes; }
  bool intact() const override { return p.ok(t.value) && o()==4711; }
};
template<std::size_t buffer> void history(pbt::Gen& g)
{
  using P=F::PolymorphicSmallObject<Base,buffer>; reg.reset();
  struct Slot { std::unique_ptr<P> p; enum { empty, full, unknown } s=empty; int kind=0, value=0; int inBuffer=-1; };
  std::array<Slot,4> slots; std::ostringstream log; int n=g.range(3,20), next=1, interesting=0;
  auto verify=[&](Slot& s, int i) {
    if (!s.p || s.s==Slot::unknown) return;
    PBT_CHECK(g, bool(*s.p)==(s.s==Slot::full), log.str(), ": slot ", i, " operator bool"); if (s.s==Slot::empty) return;
    PBT_CHECK(g, s.p->get().kind()==s.kind && s.p->get().get()==s.value && std::as_const(*s.p).get().intact(), log.str(), ": slot ", i, " has value ", s.p->get().get(), " instead of ", s.value);
    if (s.inBuffer>=0) PBT_CHECK(g, s.p->bufferUsed()==bool(s.inBuffer), log.str(), ": slot ", i, " bufferUsed()=", s.p->bufferUsed());
  };
  auto withKind=[&](int k, int v, auto&& f) { switch (k) { case 0: f(D<0,8>(v)); break; case 1: f(D<16,8>(v)); break; case 2: f(D<40,16>(v)); break; case 3: f(D<120,8>(v)); break; case 4: f(D<8,32>(v)); break; case 5: f(M<0>(v)); break; default: f(M<60>(v)); } };
  {
    auto pick=[&](bool need) { std::vector<int> c; for (int i=0;i<4;++i) if (bool(slots[i].p)==need) c.push_back(i); return c.empty()?-1:c[g.below(c.size())]; };
    for (int k=0;k<n;++k) {
      int op=g.below(11); int i=g.below(4), j=pick(true); if (j<0) op=0; bool fault=g.chance(1,5); long before=reg.live.size();
      switch (op) {
        case 0: case 1: { int v=next++; bool lv=g.coin(); withKind(g.below(7),v,[&](auto&& d) { using T=std::decay_t<decltype(d)>; slots[i]={}; int before=reg.live.size();
            log << " new" << i << "(" << sizeof(T) << (lv?" lvalue":"") << (fault&&lv?" throws":"") << ")";
            if (fault && lv) { reg.throwIn=0; bool thrown=false; try { P q(std::as_const(d)); } catch (CopyFailed&) { thrown=true; } reg.throwIn=-1; PBT_CHECK(g, thrown && int(reg.live.size())==before, log.str(), ": leak after a throwing constructor"); ++interesting; return; }
            if (lv) slots[i].p=std::make_unique<P>(g.coin()?d:static_cast<T&>(d)); else slots[i].p=std::make_unique<P>(std::move(d)); slots[i].s=Slot::full; slots[i].kind=slots[i].p->get().kind(); slots[i].value=v; slots[i].inBuffer=sizeof(T)<=buffer && alignof(T)<=alignof(std::max_align_t); }); break; }
        case 2: log << " default" << i; slots[i]={}; slots[i].p=std::make_unique<P>(); break;
        case 3: { if (i==j || slots[j].s==Slot::unknown) break; log << " copy" << j << ">" << i << (fault?"!":""); slots[i]={}; before=reg.live.size(); if (fault && slots[j].s==Slot::full) { reg.throwIn=0; bool thrown=false; try { P q(std::as_const(*slots[j].p)); } catch (CopyFailed&) { thrown=true; } reg.throwIn=-1; PBT_CHECK(g, thrown && long(reg.live.size())==before, log.str(), ": throwing copy constructor"); ++interesting; break; }
          slots[i].p=std::make_unique<P>(std::as_const(*slots[j].p)); slots[i].s=slots[j].s; slots[i].kind=slots[j].kind; slots[i].value=slots[j].value; slots[i].inBuffer=slots[j].inBuffer; ++interesting; break; }
        case 4: { if (i==j) break; log << " move" << j << ">" << i; slots[i]={}; slots[i].p=std::make_unique<P>(std::move(*slots[j].p)); slots[i].s=slots[j].s; slots[i].kind=slots[j].kind; slots[i].value=slots[j].value; slots[i].inBuffer=slots[j].inBuffer; slots[j].s=Slot::unknown; ++interesting; break; }
        case 5: case 6: { int t=pick(true); if (slots[j].s==Slot::unknown) break; log << " assign" << j << ">" << t << (fault?"!":""); P& dst=*slots[t].p; const P& src=*slots[j].p;
          if (fault && slots[j].s==Slot::full && t!=j) { reg.throwIn=0; bool thrown=false; try { dst=src; } catch (CopyFailed&) { thrown=true; } reg.throwIn=-1; PBT_CHECK(g, thrown, log.str(), ": exception lost"); slots[t].s=Slot::unknown;
            if (bool(dst)) PBT_CHECK(g, dst.get().kind()==slots[t].kind && dst.get().get()==slots[t].value && dst.get().intact(), log.str(), ": neither empty nor unchanged after a throwing assignment"); else slots[t].s=Slot::empty; ++interesting; break; }
          dst=src; slots[t].s=slots[j].s; slots[t].kind=slots[j].kind; slots[t].value=slots[j].value; slots[t].inBuffer=slots[j].inBuffer; ++interesting; break; }
        case 7: { int t=pick(true); if (t==j) break; log << " moveassign" << j << ">" << t; *slots[t].p=std::move(*slots[j].p); slots[t].s=slots[j].s; slots[t].kind=slots[j].kind; slots[t].value=slots[j].value; slots[t].inBuffer=slots[j].inBuffer; slots[j].s=Slot::unknown; ++interesting; break; }
        case 8: { int t=pick(true); if (t==j) break; log << " swap" << j << "," << t; using std::swap; swap(*slots[t].p,*slots[j].p); std::swap(slots[t].s,slots[j].s); std::swap(slots[t].kind,slots[j].kind); std::swap(slots[t].value,slots[j].value); std::swap(slots[t].inBuffer,slots[j].inBuffer); ++interesting; break; }
        case 9: { if (slots[j].s!=Slot::full) break; log << " set" << j; slots[j].value=next++; slots[j].p->get().set(slots[j].value); break; }
        case 10: log << " delete" << j; slots[j]={}; break;
      }
      for (int q=0;q<4;++q) verify(slots[q],q);
    }
  }
  for (auto& s:slots) s={};
  PBT_CHECK(g, reg.live.empty(), log.str(), ": ", reg.live.size(), " objects were not destroyed");
  g.nontrivial(interesting>1); g.describe(log.str());
}
PROPERTY(small_object_0,1000) { history<0>(g); }
PROPERTY(small_object_24,1000) { history<24>(g); }
PROPERTY(small_object_56,1000) { history<56>(g); }
PROPERTY(small_object_100,1000) { history<100>(g); }
PROPERTY(small_object_256,1000) { history<256>(g); }
#else
// x -> value*x+bytes, derivative x -> value, second derivative missing
template<int bytes> struct Slope { Tracked t; Payload<bytes> p; explicit Slope(int v) : t(v) { p.fill(v); } double operator()(const double&) const { t.alive("evaluated"); return p.ok(t.value)?t.value:-1e9; } };
template<int bytes> struct Fn { Tracked t; Payload<bytes> p; explicit Fn(int v) : t(v) { p.fill(v); } double operator()(const double& x) const { t.alive("evaluated"); return p.ok(t.value)?t.value*x+bytes:-1e9; }
  friend Slope<bytes> derivative(const Fn& f) { f.t.alive("differentiated"); return Slope<bytes>(f.t.value); } };
struct Context { int id; };
template<int bytes> struct LocalSlope;
template<int bytes> struct Local { Tracked t; Payload<bytes> p; std::optional<Context> c; explicit Local(int v) : t(v) { p.fill(v); } void bind(const Context& x) { t.alive("bound"); c=x; } void unbind() { c.reset(); } bool bound() const { t.alive("queried"); return bool(c); } const Context& localContext() const { return *c; }
  double operator()(const double& x) const { t.alive("evaluated"); return p.ok(t.value)?t.value*x+bytes+1000*c->id:-1e9; }
  friend LocalSlope<bytes> derivative(const Local& f) { return LocalSlope<bytes>(f.t.value,f.c); } };
template<int bytes> struct LocalSlope : Local<bytes> { LocalSlope(int v, std::optional<Context> c) : Local<bytes>(v) { this->c=c; } double operator()(const double&) const { return this->t.value+1000*this->c->id; } friend void derivative(const LocalSlope&)=delete; };

#if PART==3
// a grid function on an entity set that remembers its number
struct Set { using Element=Context; using LocalCoordinate=float; using GlobalCoordinate=double; int id; };
template<int bytes> struct GridLocalD { Local<bytes+1> l{0}; void bind(const Context& x) { l.bind(x); } void unbind() { l.unbind(); } bool bound() const { return l.bound(); } const Context& localContext() const { return l.localContext(); } double operator()(const float& x) const { return l(x); } };
template<int bytes> struct GridLocal { Local<bytes> l; explicit GridLocal(int v) : l(v) {} void bind(const Context& x) { l.bind(x); } void unbind() { l.unbind(); } bool bound() const { return l.bound(); } const Context& localContext() const { return l.localContext(); } double operator()(const float& x) const { return l(x); }
  friend GridLocalD<bytes> derivative(const GridLocal& f) { GridLocalD<bytes> d; d.l.t.value+=100+f.l.t.value; d.l.t.check=~d.l.t.value; d.l.p.fill(d.l.t.value); d.l.c=f.l.c; return d; } };
template<int bytes> struct GridSlope { Tracked t; Payload<bytes> p; Set set; explicit GridSlope(int v) : t(v), set{v} { p.fill(v); } double operator()(const double&) const { t.alive("evaluated"); return p.ok(t.value)?t.value:-1e9; } const Set& entitySet() const { return set; }
  friend GridLocal<bytes> localFunction(const GridSlope& f) { return GridLocal<bytes>(f.t.value+200); } };
template<int bytes> struct GridFn { Tracked t; Payload<bytes> p; Set set; explicit GridFn(int v) : t(v), set{v} { p.fill(v); } double operator()(const double& x) const { t.alive("evaluated"); return p.ok(t.value)?t.value*x+bytes:-1e9; } const Set& entitySet() const { t.alive("asked for its entity set"); return set; }
  friend GridSlope<bytes> derivative(const GridFn& f) { return GridSlope<bytes>(f.t.value); } friend GridLocal<bytes> localFunction(const GridFn& f) { f.t.alive("localized"); return GridLocal<bytes>(f.t.value); } };
template<class H> void localizations(pbt::Gen& g, const H& h, int v, int bytes, const std::string& log)
{
  PBT_CHECK(g, h.entitySet().id==v && &h.entitySet()==&std::as_const(h).entitySet(), log, ": entity set ", h.entitySet().id, " instead of ", v); if (!g.chance(1,2)) return;
  int c1=g.range(1,9), c2=g.range(1,9); float x=g.range(-4,4); auto l=localFunction(h), l2=localFunction(h); PBT_CHECK(g, !l.bound(), log, ": new local function is bound"); l.bind(Context{c1}); PBT_CHECK(g, l.bound() && !l2.bound() && l.localContext().id==c1, log, ": two local functions of one function"); l2.bind(Context{c2});
  PBT_CHECK(g, l(x)==v*x+bytes+1000*c1 && l2(x)==v*x+bytes+1000*c2, log, ": local values ", l(x), " ", l2(x)); auto dl=derivative(l); PBT_CHECK(g, dl.bound() && dl.localContext().id==c1 && dl(x)==(v+100)*x+bytes+1+1000*c1, log, ": derivative of the local function"); l2=l; l.unbind(); PBT_CHECK(g, l2.bound() && l2(x)==v*x+bytes+1000*c1, log, ": copy of a local function");
  auto d=derivative(h); PBT_CHECK(g, d.entitySet().id==v, log, ": entity set of the derivative"); auto ld=localFunction(d); ld.bind(Context{c2}); PBT_CHECK(g, ld(x)==(v+200)*x+bytes+1000*c2, log, ": local function of the derivative");
}
#else
template<class H> void localizations(pbt::Gen&, const H&, int, int, const std::string&) {}
#endif
template<class H, bool local, template<int> class Wrapped> void history(pbt::Gen& g)
{
  reg.reset();
  struct Slot { std::unique_ptr<H> h; enum { empty, full, unknown } s=empty; int bytes=0, value=0; std::optional<int> ctx; const std::type_info* type=nullptr; };
  std::array<Slot,4> slots; std::ostringstream log; int n=g.range(3,20), next=1, interesting=0;
  auto expect=[&](const Slot& s, double x) { return s.value*x+s.bytes+(local?1000.0*s.ctx.value_or(0):0.0); };
  auto verify=[&](Slot& s, int i) {
    if (!s.h || s.s==Slot::unknown) return;
    PBT_CHECK(g, bool(*s.h)==(s.s==Slot::full), log.str(), ": slot ", i, " operator bool"); if (s.s==Slot::empty) return;
    PBT_CHECK(g, s.h->target_type()==*s.type, log.str(), ": slot ", i, " target_type()");
    if constexpr (local) { PBT_CHECK(g, s.h->bound()==s.ctx.has_value(), log.str(), ": slot ", i, " bound()"); if (!s.ctx) return; PBT_CHECK(g, s.h->localContext().id==*s.ctx, log.str(), ": slot ", i, " localContext()"); }
    localizations(g,*s.h,s.value,s.bytes,log.str());
    double x=g.range(-4,4); PBT_CHECK(g, (*s.h)(x)==expect(s,x), log.str(), ": slot ", i, " has value ", (*s.h)(x), " instead of ", expect(s,x));
    if (g.chance(1,3)) { auto d=derivative(*s.h); double w=s.value+(local?1000.0*s.ctx.value_or(0):0.0); PBT_CHECK(g, d(x)==w, log.str(), ": slot ", i, " derivative ", d(x), " instead of ", w); auto d2=d; d=derivative(*s.h); PBT_CHECK(g, d2(x)==w, log.str(), ": slot ", i, " copy of the derivative");
      bool thrown=false; if constexpr (!local) { try { derivative(d2); } catch (Dune::NotImplemented&) { thrown=true; } PBT_CHECK(g, thrown, log.str(), ": derivative of a function without derivative"); } }
  };
  auto assign=[](Slot& a, const Slot& b) { a.s=b.s; a.bytes=b.bytes; a.value=b.value; a.ctx=b.ctx; a.type=b.type; };
  auto withKind=[&](int k, int v, auto&& f) { switch (k) { case 0: f(Wrapped<0>(v),0); break; case 1: f(Wrapped<20>(v),20); break; case 2: f(Wrapped<48>(v),48); break; default: f(Wrapped<200>(v),200); } };
  {
    auto pick=[&](bool need) { std::vector<int> c; for (int i=0;i<4;++i) if (bool(slots[i].h)==need) c.push_back(i); return c.empty()?-1:c[g.below(c.size())]; };
    for (int k=0;k<n;++k) {
      int op=g.below(11); int i=g.below(4), j=pick(true); if (j<0) op=0; bool fault=g.chance(1,5); long before;
      switch (op) {
        case 0: case 1: { int v=next++; int how=g.below(3); withKind(g.below(4),v,[&](auto&& d, int bytes) { using T=std::decay_t<decltype(d)>; slots[i]={}; before=reg.live.size(); log << " new" << i << "(" << sizeof(T) << (fault&&how?" throws":"") << ")";
            if (fault && how) { reg.throwIn=0; bool thrown=false; try { if constexpr (local) H q(d); else H q(std::as_const(d)); } catch (CopyFailed&) { thrown=true; } reg.throwIn=-1; PBT_CHECK(g, thrown && long(reg.live.size())==before, log.str(), ": throwing constructor"); ++interesting; return; }
            if (how==0) slots[i].h=std::make_unique<H>(std::move(d)); else if (how==1 && !local) { if constexpr (!local) slots[i].h=std::make_unique<H>(std::as_const(d)); } else slots[i].h=std::make_unique<H>(d);
            slots[i].s=Slot::full; slots[i].bytes=bytes; slots[i].value=v; slots[i].type=&typeid(T); }); break; }
        case 2: log << " default" << i; slots[i]={}; slots[i].h=std::make_unique<H>(); break;
        case 3: { if (i==j || slots[j].s==Slot::unknown) break; log << " copy" << j << ">" << i << (fault?"!":""); slots[i]={}; before=reg.live.size(); if (fault && slots[j].s==Slot::full) { reg.throwIn=0; bool thrown=false; try { H q(std::as_const(*slots[j].h)); } catch (CopyFailed&) { thrown=true; } reg.throwIn=-1; PBT_CHECK(g, thrown && long(reg.live.size())==before, log.str(), ": throwing copy constructor"); ++interesting; break; }
          if (g.coin()) slots[i].h=std::make_unique<H>(std::as_const(*slots[j].h)); else slots[i].h=std::make_unique<H>(*slots[j].h); assign(slots[i],slots[j]); ++interesting; break; }
        case 4: { if (i==j) break; log << " move" << j << ">" << i; slots[i]={}; slots[i].h=std::make_unique<H>(std::move(*slots[j].h)); assign(slots[i],slots[j]); slots[j].s=Slot::unknown; ++interesting; break; }
        case 5: case 6: { int t=pick(true); if (slots[j].s==Slot::unknown) break; log << " assign" << j << ">" << t << (fault?"!":""); H& dst=*slots[t].h; const H& src=*slots[j].h;
          if (fault && slots[j].s==Slot::full && t!=j) { reg.throwIn=0; bool thrown=false; try { dst=src; } catch (CopyFailed&) { thrown=true; } reg.throwIn=-1; PBT_CHECK(g, thrown, log.str(), ": exception lost"); if (slots[t].s!=Slot::unknown && bool(dst)) verify(slots[t],t); else slots[t].s=bool(dst)?Slot::unknown:Slot::empty; ++interesting; break; }
          dst=src; assign(slots[t],slots[j]); ++interesting; break; }
        case 7: { int t=pick(true); if (t==j) break; log << " moveassign" << j << ">" << t; *slots[t].h=std::move(*slots[j].h); assign(slots[t],slots[j]); slots[j].s=Slot::unknown; ++interesting; break; }
        case 8: { int t=pick(true); if (t==j) break; log << " swap" << j << "," << t; using std::swap; swap(*slots[t].h,*slots[j].h); Slot x; assign(x,slots[t]); assign(slots[t],slots[j]); assign(slots[j],x); ++interesting; break; }
        case 9: if constexpr (local) { if (slots[j].s!=Slot::full) break; if (g.chance(1,4)) { log << " unbind" << j; slots[j].h->unbind(); slots[j].ctx.reset(); } else { int c=g.range(1,9); log << " bind" << j << "(" << c << ")"; slots[j].h->bind(Context{c}); slots[j].ctx=c; } } break;
        case 10: log << " delete" << j; slots[j]={}; break;
      }
      for (int q=0;q<4;++q) verify(slots[q],q);
    }
  }
  for (auto& s:slots) s={};
  PBT_CHECK(g, reg.live.empty(), log.str(), ": ", reg.live.size(), " objects were not destroyed");
  g.nontrivial(interesting>1); g.describe(log.str());
}
#if PART==3
template<std::size_t b> using GF=F::GridFunction<double(double),Set,F::DefaultDerivativeTraits,b>;
PROPERTY(grid_0,1000) { history<GF<0>,false,GridFn>(g); }
PROPERTY(grid_56,1000) { history<GF<56>,false,GridFn>(g); }
PROPERTY(grid_256,1000) { history<GF<256>,false,GridFn>(g); }
#else
template<std::size_t b> using DF=F::DifferentiableFunction<double(double),F::DefaultDerivativeTraits,b>;
template<std::size_t b> using LF=F::LocalFunction<double(double),Context,F::DefaultDerivativeTraits,b>;
PROPERTY(differentiable_0,1000) { history<DF<0>,false,Fn>(g); }
PROPERTY(differentiable_56,1000) { history<DF<56>,false,Fn>(g); }
PROPERTY(differentiable_256,1000) { history<DF<256>,false,Fn>(g); }
PROPERTY(local_0,1000) { history<LF<0>,true,Local>(g); }
PROPERTY(local_56,1000) { history<LF<56>,true,Local>(g); }
PROPERTY(local_256,1000) { history<LF<256>,true,Local>(g); }
// functions built from callables: a function with k derivatives
PROPERTY(from_callables,2000)
{
  reg.reset(); int v[3]={g.range(-5,5),g.range(-5,5),g.range(-5,5)}; std::ostringstream log;
  {
    F::SignatureTag<double(double)> tag; int how=g.below(4); log << "how=" << how;
    auto build=[&] {
      auto a=std::make_unique<Fn<8>>(v[0]); auto b=std::make_unique<Slope<0>>(v[1]); auto c=std::make_unique<Fn<30>>(v[2]);
      switch (how) {
        case 0: return F::makeDifferentiableFunctionFromCallables(tag,*a,*b,*c);
        case 1: return F::makeDifferentiableFunctionFromCallables(tag,std::move(*a),std::move(*b),std::move(*c));
        case 2: return F::makeDifferentiableFunctionFromCallables(tag,std::as_const(*a),*b,std::move(*c));
        default: { auto f=F::makeDifferentiableFunctionFromCallables(tag,*a,*b,*c); a->t.value=99; a->t.check=~99; return f; } } };
    auto f=build(); auto copy=std::make_unique<std::decay_t<decltype(f)>>(f);
    auto check=[&](const auto& h, const char* what) { double x=g.range(-4,4); PBT_CHECK(g, h(x)==v[0]*x+8, what, ": value ", h(x)); auto d=derivative(h); PBT_CHECK(g, d(x)==v[1], what, ": derivative ", d(x)); auto d2=derivative(d); PBT_CHECK(g, d2(x)==v[2]*x+30, what, ": second derivative ", d2(x)); bool thrown=false; try { derivative(d2); } catch (Dune::NotImplemented&) { thrown=true; } PBT_CHECK(g, thrown, what, ": derivative beyond the last callable"); return d2; };
    check(f,"function"); check(*copy,"copy"); auto d2=check(*copy,"copy"); DF<56> er=*copy; copy.reset(); PBT_CHECK(g, d2(2)==v[2]*2+30, "derivative outlives the function"); check(er,"type erased"); check(f,"function after destruction of its copy");
    Dune::CopyableOptional<std::decay_t<decltype(f)>> opt(f); { auto opt2=opt; opt2=f; opt=opt2; } check(*opt,"optional"); auto one=[&] { Fn<8> a(v[0]); return F::makeDifferentiableFunctionFromCallables(tag,a); }(); PBT_CHECK(g, one(3)==3*v[0]+8, "single callable"); { Dune::CopyableOptional<std::decay_t<decltype(one)>> o(one), o2(o); o2=one; o=o2; PBT_CHECK(g, (*o)(3)==3*v[0]+8, "optional single callable"); }
    auto fun=F::makeDifferentiableFunctionFromCallables(tag,+[](double x) { return 2*x; },[k=v[0]](double) { return double(k); }); PBT_CHECK(g, fun(4)==8 && derivative(fun)(1)==v[0], "function pointer and lambda");
  }
  PBT_CHECK(g, reg.live.empty(), log.str(), ": ", reg.live.size(), " objects were not destroyed"); g.nontrivial(); g.describe(log.str());
}
#endif
#endif
#include "main.hh"
