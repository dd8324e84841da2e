// A small property-based testing engine.
//
// Every random decision of a case is one integer drawn from a "tape".  A case
// is therefore completely described by its list of integers; shrinking works
// on that list (remove chunks, zero, halve, decrement), and a replay file is
// the list in text form.  Cases run in forked workers: a crash, a failed
// assertion, a sanitizer report or a hang is a failure of the case like any
// other, and is shrunk the same way.
#ifndef VERIF_PBT_HH
#define VERIF_PBT_HH

#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace pbt {

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
// the generated case is not in the domain of the property
struct Discard { std::string why; };

constexpr std::size_t maxTape = 1u << 20;
constexpr std::size_t maxText = 1u << 14;

// memory shared between the worker and the supervisor
struct Shared {
  volatile std::uint64_t length;     // choices recorded so far in the running case
  volatile std::uint64_t caseNo;
  volatile std::uint64_t caseNo0;
  volatile std::uint64_t running;
  char message[maxText];
  std::uint32_t tape[maxTape];
};

class Gen
{
public:
  // generating
  Gen(std::uint64_t seed, Shared* sh) : shared_(sh), state_(seed ^ 0x9E3779B97F4A7C15ull)
  { for (int i=0;i<4;++i) next(); if (shared_) shared_->length = 0; }
  // replaying
  Gen(std::vector<std::uint32_t> tape, Shared* sh) : shared_(sh), tape_(std::move(tape)), replay_(true)
  { if (shared_) shared_->length = 0; }

  // uniform in [0,n)
  std::uint32_t below(std::uint64_t n)
  {
    if (n<=1) return 0;   // no choice: nothing recorded
    std::uint64_t v;
    if (replay_) { v = pos_<tape_.size() ? tape_[pos_] : 0; if (v>=n) v %= n; }
    else v = next() % n;
    ++pos_;
    record(v);
    return v;
  }
  int range(int lo, int hi) { assert(hi>=lo); return lo + int(below(std::uint64_t(hi-lo)+1)); }
  bool coin() { return below(2)==1; }
  // true with probability num/den; false shrinks first
  bool chance(unsigned num, unsigned den) { return below(den) >= den-num; }
  // in [-1,1] on a grid of 1/1000, simplest value 0
  double unit() { int v = below(2001); return (v%2 ? -(v+1)/2 : v/2) / 1000.0; }
  // in [0,1] on a grid of 1/1000
  double unit01() { return below(1001)/1000.0; }
  double real(double lo, double hi) { return lo + (hi-lo)*unit01(); }
  template<class T> const T& pick(const std::vector<T>& v) { return v.at(below(v.size())); }
  // a permutation of 0..n-1; the all-zero tape is the identity
  std::vector<std::size_t> permutation(std::size_t n)
  {
    std::vector<std::size_t> p(n);
    for (std::size_t i=0;i<n;++i) p[i]=i;
    for (std::size_t i=0;i+1<n;++i) std::swap(p[i], p[i+below(n-i)]);
    return p;
  }

  // classification of the case
  void label(const std::string& l) { labels_.insert(l); }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void describe(const std::string& s) { if (description_.size()<600) description_ += (description_.empty()?"":"; ") + s; }
  void checked(std::uint64_t n = 1) { checks_ += n; }

  const std::set<std::string>& labels() const { return labels_; }
  bool isNontrivial() const { return nontrivial_; }
  const std::string& description() const { return description_; }
  std::uint64_t checks() const { return checks_; }
  std::uint64_t hash() const { return hash_; }
  std::size_t position() const { return pos_; }

private:
  void record(std::uint64_t v)
  {
    hash_ = (hash_ ^ (v+0x51ed27)) * 0x100000001b3ull; hash_ ^= hash_>>29;
    if (shared_) {
      auto l = shared_->length;
      if (l<maxTape) { shared_->tape[l] = v; shared_->length = l+1; }
    }
  }
  std::uint64_t next()
  {
    std::uint64_t z = (state_ += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  Shared* shared_;
  std::uint64_t state_ = 0;
  std::vector<std::uint32_t> tape_;
  bool replay_ = false;
  std::size_t pos_ = 0;
  std::set<std::string> labels_;
  bool nontrivial_ = false;
  std::string description_;
  std::uint64_t checks_ = 0;
  std::uint64_t hash_ = 0xcbf29ce484222325ull;
};

// --- failing ---------------------------------------------------------------

template<class... T>
[[noreturn]] void fail(const T&... t)
{
  std::ostringstream s; s.precision(17);
  (s << ... << t);
  throw Failure(s.str());
}
#define PBT_CHECK(g, cond, ...) do { (g).checked(); if (!(cond)) ::pbt::fail("check failed: ", #cond, " -- ", __VA_ARGS__); } while (0)

inline bool close(double a, double b, double tol = 1e-8, double scale = 1.0)
{ return std::abs(a-b) <= tol*std::max({scale, std::abs(a), std::abs(b)}); }   // false for NaN

// --- registry --------------------------------------------------------------

struct Prop {
  std::string name;
  std::function<void(Gen&)> body;
  unsigned weight;            // quick cases
};
inline std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }
struct Register { Register(std::string n, unsigned w, std::function<void(Gen&)> f) { registry().push_back({n,f,w}); } };

// PROPERTY(name, quickCases) { ... body using g ... }
#define PROPERTY(name, quickCases) \
  static void pbt_body_##name(::pbt::Gen& g); \
  static ::pbt::Register pbt_reg_##name(#name, quickCases, pbt_body_##name); \
  static void pbt_body_##name([[maybe_unused]] ::pbt::Gen& g)

// --- running ---------------------------------------------------------------

enum Outcome { Pass=0, Fail=1, Crash=2, Hang=3, Discarded=4 };

struct Result { Outcome outcome = Pass; std::string message; std::vector<std::uint32_t> tape; };

inline Shared* makeShared()
{
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  if (p==MAP_FAILED) { perror("mmap"); _exit(3); }
  return static_cast<Shared*>(p);
}

inline void setMessage(Shared* sh, const std::string& m)
{ std::strncpy(sh->message, m.c_str(), maxText-1); sh->message[maxText-1]=0; }

// runs the body once in this process
inline Outcome runHere(const Prop& p, Gen& g, Shared* sh)
{
  try { p.body(g); return Pass; }
  catch (const Discard&) { return Discarded; }
  catch (const Failure& e) { setMessage(sh, std::string(e.what())+" [case: "+g.description()+"]"); return Fail; }
  catch (const std::exception& e) { setMessage(sh, std::string("unexpected exception: ")+e.what()+" [case: "+g.description()+"]"); return Fail; }
  catch (...) { setMessage(sh, "unexpected exception of unknown type"); return Fail; }
}

// stderr of the child goes to a file so that sanitizer reports can be shown
inline Result runForked(const Prop& p, const std::vector<std::uint32_t>& tape, Shared* sh, unsigned timeout, const char* errFile)
{
  sh->message[0]=0; sh->length=0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid==0) {
    int fd = open(errFile, O_WRONLY|O_CREAT|O_TRUNC, 0644);
    if (fd>=0) { dup2(fd,2); dup2(fd,1); }
    alarm(timeout);
    Gen g(tape, sh);
    auto o = runHere(p, g, sh);
    _exit(o==Pass ? 0 : o==Fail ? 10 : 11);
  }
  int st=0; waitpid(pid,&st,0);
  Result r;
  r.tape.assign(sh->tape, sh->tape+sh->length);
  r.message = sh->message;
  if (WIFEXITED(st) && WEXITSTATUS(st)==0) r.outcome=Pass;
  else if (WIFEXITED(st) && WEXITSTATUS(st)==11) r.outcome=Discarded;
  else if (WIFEXITED(st) && WEXITSTATUS(st)==10) r.outcome=Fail;
  else if (WIFSIGNALED(st) && WTERMSIG(st)==SIGALRM) { r.outcome=Hang; r.message="case did not end within the time limit"; }
  else {
    r.outcome=Crash;
    std::ostringstream m; 
    if (WIFSIGNALED(st)) m << "killed by signal " << WTERMSIG(st); else m << "exit code " << WEXITSTATUS(st);
    std::ifstream in(errFile); std::string line; int n=0;
    while (n<12 && std::getline(in,line)) if (!line.empty() && line.find("====")==std::string::npos) { m << " | " << line.substr(0,300); ++n; }
    r.message=m.str();
  }
  return r;
}

inline bool bad(Outcome o);

// runs the first n cases of a run one after another in one process
inline Result runSequence(const Prop& p, std::uint64_t base, std::uint64_t n, Shared* sh, unsigned timeout, const char* errFile)
{
  sh->message[0]=0; sh->length=0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid==0) {
    int fd = open(errFile, O_WRONLY|O_CREAT|O_TRUNC, 0644);
    if (fd>=0) { dup2(fd,2); dup2(fd,1); }
    for (std::uint64_t c=0;c<n;++c) {
      alarm(timeout);
      Gen g(base + c*0xA0761D6478BD642Full, sh);
      if (runHere(p,g,sh)==Fail) _exit(10);
    }
    _exit(0);
  }
  int st=0; waitpid(pid,&st,0);
  Result r; r.message=sh->message;
  if (WIFEXITED(st) && WEXITSTATUS(st)==0) r.outcome=Pass;
  else if (WIFEXITED(st) && WEXITSTATUS(st)==10) r.outcome=Fail;
  else r.outcome=Crash;
  return r;
}

inline bool bad(Outcome o) { return o==Fail || o==Crash || o==Hang; }

inline Result shrink(const Prop& p, Result best, Shared* sh, unsigned timeout, double budget, const char* errFile)
{
  auto t0 = std::chrono::steady_clock::now();
  auto spent = [&]{ return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); };
  auto smaller = [](const std::vector<std::uint32_t>& a, const std::vector<std::uint32_t>& b) {
    if (a.size()!=b.size()) return a.size()<b.size();
    return a<b;
  };
  auto attempt = [&](const std::vector<std::uint32_t>& t) {
    if (spent()>budget) return false;
    auto r = runForked(p,t,sh,timeout,errFile);
    if (!bad(r.outcome)) return false;
    if (r.outcome==Hang && best.outcome!=Hang) return false;
    // the consumed tape is what counts
    if (!smaller(r.tape,best.tape)) return false;
    best=r; return true;
  };
  if (best.outcome==Hang) budget = std::min(budget, 60.0);
  bool progress=true;
  while (progress && spent()<budget) {
    progress=false;
    for (std::size_t len=std::max<std::size_t>(best.tape.size()/2,1); len>=1; len/=2) {
      for (std::size_t i=0; i+len<=best.tape.size() && spent()<budget; ) {
        auto t=best.tape; t.erase(t.begin()+i, t.begin()+i+len);
        if (attempt(t)) progress=true; else i+=len;
      }
      if (len==1) break;
    }
    for (std::size_t len=std::max<std::size_t>(best.tape.size()/4,1); len>=1; len/=2) {
      for (std::size_t i=0; i+len<=best.tape.size() && spent()<budget; i+=len) {
        auto t=best.tape;
        if (std::all_of(t.begin()+i,t.begin()+i+len,[](auto x){return x==0;})) continue;
        std::fill(t.begin()+i,t.begin()+i+len,0u);
        if (attempt(t)) progress=true;
      }
      if (len==1) break;
    }
    for (std::size_t i=0;i<best.tape.size() && spent()<budget;++i) {
      while (i<best.tape.size() && best.tape[i]>0 && spent()<budget) {
        auto t=best.tape; t[i]/=2; if (attempt(t)) { progress=true; continue; }
        t=best.tape; t[i]-=1; if (attempt(t)) { progress=true; continue; }
        break;
      }
    }
  }
  return best;
}

inline std::string jsonEscape(const std::string& s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c=='"'||c=='\\') { o+='\\'; o+=c; }
    else if (c=='\n') o+="\\n";
    else if (c<32||c>126) { char b[8]; std::snprintf(b,8,"\\u%04x",c); o+=b; }
    else o+=c;
  }
  return o;
}

inline std::uint64_t fnv(const std::string& s) { std::uint64_t h=0xcbf29ce484222325ull; for (unsigned char c:s) { h^=c; h*=0x100000001b3ull; } return h; }

inline int runProperty(const Prop& p, std::uint64_t seed, std::uint64_t cases, double maxTime, unsigned timeout, const std::string& out, const std::string& replayPath)
{
  Shared* sh = makeShared();
  auto t0=std::chrono::steady_clock::now();
  auto spent=[&]{ return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); };
  std::string statFile = out+".stat", errFile = out+".err";

  const std::uint64_t base = fnv(p.name) ^ (seed*0xD1B54A32D192ED03ull);
  // the worker
  sh->message[0]=0; sh->running=0; sh->length=0;
  fflush(nullptr);
  pid_t pid=fork();
  if (pid==0) {
    int fd = open(errFile.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
    if (fd>=0) { dup2(fd,2); dup2(fd,1); }
    std::uint64_t run=0, discarded=0, nontriv=0, checks=0;
    std::unordered_set<std::uint64_t> seen;
    std::map<std::string,std::uint64_t> labels;
    std::vector<std::string> samples;
    Outcome o=Pass;
    for (std::uint64_t c=0;c<cases && spent()<maxTime;++c) {
      sh->caseNo=c; sh->running=1;
      alarm(timeout);
      Gen g(base + c*0xA0761D6478BD642Full, sh);
      o=runHere(p,g,sh);
      alarm(0);
      sh->running=0;
      if (o==Discarded) { ++discarded; continue; }
      ++run;
      checks+=g.checks();
      for (auto& l:g.labels()) ++labels[l];
      bool fresh = seen.insert(g.hash()).second;
      if (g.isNontrivial() && fresh) {
        ++nontriv;
        if (samples.size()<3) samples.push_back(g.description());
      }
      if (o==Fail) break;
    }
    std::ofstream f(statFile);
    f << "\"evaluations\":" << run << ",\"discarded\":" << discarded << ",\"distinct\":" << seen.size()
      << ",\"distinct_nontrivial\":" << nontriv << ",\"checks\":" << checks << ",\"labels\":{";
    bool first=true;
    for (auto& [l,n]:labels) { f << (first?"":",") << '"' << jsonEscape(l) << "\":" << n; first=false; }
    f << "},\"samples\":[";
    for (std::size_t i=0;i<samples.size();++i) f << (i?",":"") << '"' << jsonEscape(samples[i]) << '"';
    f << "]";
    f.close();
    fflush(nullptr);
    // ask for leaks before leaving, so that a leak is a failure too
    _exit(o==Fail ? 10 : 0);
  }
  int st=0; waitpid(pid,&st,0);
  std::string stats;
  { std::ifstream f(statFile); std::stringstream ss; ss<<f.rdbuf(); stats=ss.str(); }
  if (stats.empty()) stats="\"evaluations\":"+std::to_string(sh->caseNo+1)+",\"discarded\":0,\"distinct\":0,\"distinct_nontrivial\":0,\"checks\":0,\"labels\":{},\"samples\":[]";
  bool ok = WIFEXITED(st) && WEXITSTATUS(st)==0;
  std::string msg, firstMsg; bool reproduced=false; std::size_t len=0;
  if (!ok) {
    firstMsg = sh->message;
    sh->caseNo0 = sh->caseNo;
    std::vector<std::uint32_t> tape(sh->tape, sh->tape+sh->length);
    if (firstMsg.empty()) {
      firstMsg = WIFSIGNALED(st) ? "signal "+std::to_string(WTERMSIG(st)) : "exit code "+std::to_string(WEXITSTATUS(st));
    }
    // replay three times: a failure that does not reproduce is not reported as a violation of the code
    int times=0; Result r;
    for (int i=0;i<3;++i) { r=runForked(p,tape,sh,timeout,errFile.c_str()); if (bad(r.outcome)) ++times; else break; }
    if (times<3) {
      // it may depend on the cases before it (state left behind, memory contents): run the same sequence again
      int seq=0;
      for (int i=0;i<2;++i) { auto q=runSequence(p,base,sh->caseNo0+1,sh,timeout,errFile.c_str()); if (bad(q.outcome)) { ++seq; r=q; } }
      if (seq==2) {
        reproduced=true; msg=(firstMsg.empty()?r.message:firstMsg)+" (depends on the preceding cases of the run)";
        std::ofstream f(replayPath);
        f << "# pbt replay\nproperty " << p.name << "\n# " << jsonEscape(msg) << "\nsequence " << base << " " << sh->caseNo0+1 << "\n";
      }
    }
    else {
      reproduced=true;
      r.tape=tape; 
      auto best=shrink(p,r,sh,timeout,std::min(120.0,std::max(20.0,maxTime/2)),errFile.c_str());
      // the final one must fail again
      auto again=runForked(p,best.tape,sh,timeout,errFile.c_str());
      if (!bad(again.outcome)) { again=r; best=r; }
      msg=again.message; len=best.tape.size();
      std::ofstream f(replayPath);
      f << "# pbt replay\nproperty " << p.name << "\n# " << jsonEscape(msg) << "\ntape";
      for (auto v:best.tape) f << ' ' << v;
      f << "\n";
    }
  }
  std::ofstream f(out);
  f << "{\"name\":\"" << p.name << "\"," << stats << ",\"wall_s\":" << spent() << ",\"seed\":" << seed
    << ",\"failed\":" << (ok?"false":"true") << ",\"reproduced\":" << (reproduced?"true":"false")
    << ",\"case\":" << sh->caseNo << ",\"tape_len\":" << len << ",\"first_message\":\"" << jsonEscape(firstMsg)
    << "\",\"message\":\"" << jsonEscape(msg) << "\",\"replay\":\"" << (reproduced?jsonEscape(replayPath):"") << "\"}\n";
  unlink(statFile.c_str()); unlink(errFile.c_str());
  return ok ? 0 : 1;
}

inline int replayFile(const std::string& path)
{
  std::ifstream in(path); std::string line, name; std::vector<std::uint32_t> tape; std::uint64_t sbase=0, scount=0;
  while (std::getline(in,line)) {
    std::istringstream s(line); std::string k; s>>k;
    if (k=="property") s>>name;
    else if (k=="sequence") s>>sbase>>scount;
    else if (k=="tape") { std::uint32_t v; while (s>>v) tape.push_back(v); }
  }
  for (auto& p:registry()) if (p.name==name) {
    Shared* sh=makeShared();
    if (std::getenv("PBT_INPROCESS")) {
      Gen g(tape,sh); auto o=runHere(p,g,sh);
      std::cout << "outcome " << o << " " << sh->message << "\ncase: " << g.description() << "\n"; return bad(o);
    }
    char err[]="/tmp/pbt-replay-XXXXXX"; int fd=mkstemp(err); ::close(fd);
    auto r=scount ? runSequence(p,sbase,scount,sh,120,err) : runForked(p,tape,sh,120,err);
    unlink(err);
    const char* n[]={"pass","FAIL","CRASH","HANG","discarded"};
    std::cout << name << ": " << n[r.outcome] << " " << r.message << "\n";
    return bad(r.outcome) ? 1 : 0;
  }
  std::cerr << "no such property: " << name << "\n"; return 3;
}

inline int main(int argc, char** argv)
{
  std::uint64_t seed=1, cases=0; double maxTime=300, scale=1; unsigned timeout=60; std::string name, out="/dev/null", replay;
  for (int i=1;i<argc;++i) {
    std::string a=argv[i];
    auto val=[&]{ return std::string(i+1<argc?argv[++i]:""); };
    if (a=="--list") { for (auto& p:registry()) std::cout << p.name << " " << p.weight << "\n"; return 0; }
    else if (a=="--replay") return replayFile(val());
    else if (a=="--run") name=val();
    else if (a=="--seed") seed=std::stoull(val());
    else if (a=="--cases") cases=std::stoull(val());
    else if (a=="--scale") scale=std::stod(val());
    else if (a=="--max-time") maxTime=std::stod(val());
    else if (a=="--case-timeout") timeout=std::stoul(val());
    else if (a=="--out") out=val();
    else if (a=="--replay-out") replay=val();
  }
  for (auto& p:registry()) if (p.name==name)
    return runProperty(p,seed,cases?cases:std::max<std::uint64_t>(1,std::uint64_t(p.weight*scale)),maxTime,timeout,out,replay);
  std::cerr << "no such property\n"; return 3;
}

} // namespace pbt
#endif
