// Entries, monomials, configurations and reference semantics shared by the
// monitors of the divisor structures.
#ifndef DIV_COMMON_H
#define DIV_COMMON_H
#include "mon.h"
#include <limits>
#include <memory>
#ifdef MON_MEMORY
#include "mem_hook.h"
#define MON_SCOPE mon::MemScope mon_scope;
#define MON_PAUSE mon::MemPause mon_pause;
#else
#define MON_SCOPE
#define MON_PAUSE
#endif

namespace divmon {
  using namespace mon;

  // What the instrumented entries and configurations saw.
  struct Watch {
    long live = 0;            // entries constructed and not yet destroyed
    u64 divides = 0, exponents = 0, compares = 0;
    std::string error;        // lifetime error
    std::string misuse;       // configuration called with bad arguments
    u64 constructed = 0;
    void reset() { *this = Watch(); }
    void fail(const char* what) { MON_PAUSE if (error.empty()) error = what; }
  };
  inline Watch& watch() { return perCase<Watch>(); }

  template<class Exp> struct MonoT {
    std::vector<Exp> e;
    MonoT() {}
    explicit MonoT(const std::vector<Exp>& v): e(v) {}
    void use() const {}
    Exp at(size_t i) const { return e[i]; }
    size_t vars() const { return e.size(); }
  };

  // Entry that owns memory and knows whether it is alive.
  template<class Exp> struct EntryT {
    u64 magic;
    u64 id;
    mutable u64 payload;
    Exp* e;
    size_t n;

    static u64 liveMagic(const void* p) { return mix((u64)(uintptr_t)p) ^ 0xA11FEull; }
    static u64 deadMagic() { return 0xDEADDEADDEADDEADull; }

    EntryT(): id(0), payload(0), e(0), n(0) { born(); }
    EntryT(u64 i, const std::vector<Exp>& v): id(i), payload(0), e(0), n(v.size()) {
      MON_PAUSE
      e = new Exp[n + 1];
      for (size_t k = 0; k < n; ++k) e[k] = v[k];
      born();
    }
    EntryT(const EntryT& o): id(0), payload(0), e(0), n(0) {
      if (o.alive("copied from an entry that is not alive")) take(o);
      born();
    }
    EntryT& operator=(const EntryT& o) {
      if (alive("assigned to an entry that is not alive") &&
          o.alive("assigned from an entry that is not alive") && this != &o) {
        delete[] e;
        e = 0;
        take(o);
      }
      return *this;
    }
    ~EntryT() {
      if (!alive("destroyed an entry that is not alive"))
        return;
      delete[] e;
      e = 0;
      magic = deadMagic();
      --watch().live;
    }
    bool isAlive() const { return magic == liveMagic(this); }
    bool alive(const char* what) const {
      if (isAlive()) return true;
      watch().fail(what);
      return false;
    }
    void use() const { alive("used an entry that is not alive"); }
    Exp at(size_t i) const { return isAlive() && i < n ? e[i] : Exp(0); }
    size_t vars() const { return isAlive() ? n : 0; }
    std::vector<Exp> exps() const {
      return isAlive() && e ? std::vector<Exp>(e, e + n) : std::vector<Exp>();
    }
  private:
    void born() { magic = liveMagic(this); ++watch().live; ++watch().constructed; }
    void take(const EntryT& o) {
      id = o.id; payload = o.payload; n = o.n;
      MON_PAUSE // what entries own is not the business of the structure
      e = new Exp[n + 1];
      for (size_t k = 0; k < n; ++k) e[k] = o.e ? o.e[k] : Exp(0);
    }
  };

  template<class Exp> bool vdivides(const std::vector<Exp>& a, const std::vector<Exp>& b) {
    for (size_t i = 0; i < a.size(); ++i)
      if (b[i] < a[i]) return false;
    return true;
  }

  // The orders are total on exponent vectors and put divisors first.
  template<class A, class B> bool ordered(int order, const A& a, const B& b, size_t n) {
    if (order == 2) {
      __int128 da = 0, db = 0;
      for (size_t i = 0; i < n; ++i) { da += a.at(i); db += b.at(i); }
      if (da != db) return da < db;
      order = 0;
    }
    if (order == 0) {
      for (size_t i = 0; i < n; ++i)
        if (a.at(i) != b.at(i)) return a.at(i) < b.at(i);
    } else {
      for (size_t i = n; i-- > 0; )
        if (a.at(i) != b.at(i)) return a.at(i) < b.at(i);
    }
    return false;
  }

  template<class Exp> struct ConfBase {
    typedef MonoT<Exp> Monomial;
    typedef EntryT<Exp> Entry;
    typedef Exp Exponent;
    size_t varCount = 1;
    bool sort = false, cache = false, automatic = false;
    double ratio = 0.5;
    size_t min = 50;
    int order = 0;

    template<class A> Exp getExponent(const A& a, size_t var) const {
      ++watch().exponents;
      StepLimit::step();
      a.use();
      if (var >= varCount) {
        MON_PAUSE
        watch().misuse = "getExponent called for a variable out of range";
        return Exp(0);
      }
      return a.at(var);
    }
    template<class A, class B> bool divides(const A& a, const B& b) const {
      ++watch().divides;
      StepLimit::step();
      a.use(); b.use();
      for (size_t i = 0; i < varCount; ++i)
        if (b.at(i) < a.at(i)) return false;
      return true;
    }
    template<class A, class B> bool isLessThan(const A& a, const B& b) const {
      ++watch().compares;
      StepLimit::step();
      a.use(); b.use();
      return ordered(order, a, b, varCount);
    }
    size_t getVarCount() const { return varCount; }
    bool getSortOnInsert() const { return sort; }
    bool getUseDivisorCache() const { return cache; }
    bool getDoAutomaticRebuilds() const { return automatic; }
    double getRebuildRatio() const { return ratio; }
    size_t getRebuildMin() const { return min; }
  };

  template<class Exp> struct Rec {
    u64 id;
    std::vector<Exp> e;
    u64 payload;
  };

  template<class Exp> std::string show(const std::vector<Exp>& e) {
    std::string s = "(";
    for (size_t i = 0; i < e.size(); ++i) s += (i ? "," : "") + std::to_string((long long)e[i]);
    return s + ")";
  }

  // Makes monomials of some character.
  template<class Exp> struct Gen {
    Rng& rng;
    size_t vars;
    u64 bound;       // usual bound on exponents
    unsigned sparse; // a variable is zero with chance sparse/8
    bool extreme;    // sometimes the largest exponents there are
    std::vector<std::vector<Exp> > past;
    static u64 expMax() { return (u64)std::numeric_limits<Exp>::max(); }

    explicit Gen(Ctx& ctx): rng(ctx.rng) {
      u64 k = rng.below(10);
      vars = k < 5 ? rng.range(1, 4) : k < 8 ? rng.range(3, 12) : k < 9 ? rng.range(10, 34) : rng.chance(7, 8) ? rng.range(30, 70) : rng.range(250, 300);
      static const u64 bounds[] = {1, 2, 3, 5, 10, 40, 120, 1000, 1000000};
      bound = bounds[rng.below(9)];
      if (bound > expMax()) bound = expMax();
      sparse = rng.coin() ? 0 : rng.below(8);
      extreme = rng.chance(1, 4);
    }
    Exp exponent() {
      if (sparse && rng.below(8) < sparse) return 0;
      if (extreme && rng.chance(1, 5)) {
        u64 m = expMax();
        u64 k = rng.below(4);
        return (Exp)(k == 0 ? m : k == 1 ? m - 1 : k == 2 ? m / 2 + rng.below(2) : rng.next() & m);
      }
      return (Exp)rng.below(bound + 1);
    }
    std::vector<Exp> fresh() {
      std::vector<Exp> v(vars);
      for (size_t i = 0; i < vars; ++i) v[i] = exponent();
      return v;
    }
    Exp up(Exp x) {
      u64 d = rng.chance(3, 4) ? rng.below(3) : rng.below(bound + 1);
      u64 room = expMax() - (u64)x;
      return (Exp)((u64)x + (d < room ? d : room));
    }
    Exp down(Exp x) {
      if (x == 0) return 0;
      u64 d = rng.chance(3, 4) ? rng.below(3) : rng.below((u64)x + 1);
      return (Exp)(d < (u64)x ? (u64)x - d : 0);
    }
    // related to a monomial that was made before
    std::vector<Exp> related() {
      if (past.empty() || rng.chance(1, 4)) return fresh();
      std::vector<Exp> v = past[rng.below(past.size())];
      u64 k = rng.below(6);
      if (k == 0) return v;
      for (size_t i = 0; i < vars; ++i) {
        if (k == 1) v[i] = up(v[i]);
        else if (k == 2) v[i] = down(v[i]);
        else if (k == 3 && rng.chance(1, 3)) v[i] = up(v[i]);
        else if (k == 4 && rng.chance(1, 3)) v[i] = down(v[i]);
      }
      if (k == 5) { size_t i = rng.below(vars); v[i] = rng.coin() ? up(v[i]) : down(v[i]); }
      return v;
    }
    std::vector<Exp> make() {
      std::vector<Exp> v = rng.chance(2, 3) ? fresh() : related();
      if (past.size() < 64) past.push_back(v);
      else past[rng.below(64)] = v;
      return v;
    }
    std::vector<Exp> query() {
      u64 k = rng.below(12);
      if (k == 0) return std::vector<Exp>(vars, 0);
      if (k == 1) return std::vector<Exp>(vars, (Exp)expMax());
      if (k < 5) return fresh();
      return related();
    }
  };

  // Records a visit and stops it after a given number of calls.
  template<class Entry> struct Visitor {
    std::vector<u64> ids;
    std::vector<const Entry*> addresses;
    std::vector<const Entry*> dead;
    size_t stopAfter; // returns false on this call, counting from 1; 0: never
    bool stopped = false, calledAfterStop = false;
    bool mutate = false; // touch the payload
    explicit Visitor(size_t s): stopAfter(s) {}
    bool see(const Entry& e) {
      MON_PAUSE
      StepLimit::step();
      if (stopped) calledAfterStop = true;
      if (!e.isAlive()) dead.push_back(&e);
      ids.push_back(e.isAlive() ? e.id : ~(u64)0);
      addresses.push_back(&e);
      if (stopAfter != 0 && ids.size() >= stopAfter) { stopped = true; return false; }
      return true;
    }
    bool proceed(Entry& e) { return see(e); }
    bool proceed(const Entry& e) { return see(e); }
  };
  template<class Entry> struct ConstVisitor {
    Visitor<Entry>& v;
    explicit ConstVisitor(Visitor<Entry>& vv): v(vv) {}
    bool proceed(const Entry& e) { return v.see(e); }
  };
  template<class Entry> struct Removed {
    std::vector<u64> ids;
    bool dead = false;
    void push_back(Entry& e) {
      MON_PAUSE
      StepLimit::step();
      if (!e.isAlive()) dead = true;
      ids.push_back(e.isAlive() ? e.id : ~(u64)0);
    }
  };
}
#endif
