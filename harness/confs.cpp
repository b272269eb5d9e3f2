// What structures do with the configuration they are given (C39).
#include <mathic/DivList.h>
#include <mathic/KDTree.h>
#include <mathic/Heap.h>
#include <mathic/TourTree.h>
#include <mathic/Geobucket.h>
#include <mathic/StlSet.h>
#include <mathic/PairQueue.h>
#include <mathic/HashTable.h>
#include "mon.h"
#include <sstream>
#include <memory>
using namespace mon;
namespace confmon {
  struct Watch {
    long live = 0;       // configurations constructed and not destroyed
    u64 copies = 0;      // made since the start of the case
    u64 calls = 0, tag = 0;
    const void* only = 0; // the one that may be asked; 0: any
    std::string wrong;
  };
  inline Watch& watch() { return perCase<Watch>(); }

  // A configuration that knows which one it is.
  class Identity {
  public:
    Identity(): self(this), tag(0) { ++watch().live; }
    Identity(const Identity& i): self(this), tag(i.tag) {
      i.asked("copied");
      ++watch().live; ++watch().copies;
    }
    Identity& operator=(const Identity& i) { i.asked("copied"); asked("assigned"); tag = i.tag; ++watch().copies; return *this; }
    ~Identity() {
      if (self != this) say("a configuration was destroyed twice");
      self = 0;
      --watch().live;
    }
    void asked(const char* what) const {
      Watch& w = watch();
      ++w.calls;
      StepLimit::step();
      if (self != this) say(std::string(what) + " was called on a configuration that is gone");
      else if (w.only != 0 && w.only != this) say(std::string(what) + " was called on another configuration than that of the structure");
      else if (w.only != 0 && tag != w.tag) say(std::string(what) + " was called on a configuration that has lost what was stored in it");
    }
    static void say(const std::string& s) { if (watch().wrong.empty()) watch().wrong = s; }
    const Identity* self;
    u64 tag;
  };

  // ***** the configurations

  struct DivConf : Identity {
    typedef std::vector<int> Monomial;
    typedef std::vector<int> Entry;
    typedef int Exponent;
    bool sort = false, cache = false, automatic = false;
    double ratio = 0.5;
    size_t min = 50, varCount = 3;
    int getExponent(const Monomial& m, size_t var) const { asked("getExponent"); return m[var]; }
    bool divides(const Monomial& a, const Monomial& b) const {
      asked("divides");
      for (size_t i = 0; i < a.size(); ++i) if (a[i] > b[i]) return false;
      return true;
    }
    bool isLessThan(const Monomial& a, const Monomial& b) const { asked("isLessThan"); return a < b; }
    size_t getVarCount() const { asked("getVarCount"); return varCount; }
    bool getSortOnInsert() const { asked("getSortOnInsert"); return sort; }
    bool getUseDivisorCache() const { asked("getUseDivisorCache"); return cache; }
    bool getDoAutomaticRebuilds() const { asked("getDoAutomaticRebuilds"); return automatic; }
    double getRebuildRatio() const { asked("getRebuildRatio"); return ratio; }
    size_t getRebuildMin() const { asked("getRebuildMin"); return min; }
  };
  template<bool Linked, bool Mask> struct LConf : DivConf { static const bool UseLinkedList = Linked, UseDivMask = Mask; };
  template<bool Packed, int Masks, size_t Leaf> struct TConf : DivConf {
    static const bool UseDivMask = Masks > 0, UseTreeDivMask = Masks > 1, PackedTree = Packed, AllowRemovals = true;
    static const size_t LeafSize = Leaf;
  };
  struct Queued { // comparisons in queues go by key only
    int key; unsigned count;
  };
  template<bool Dedup, bool Fast> struct QConf : Identity {
    typedef Queued Entry;
    typedef int CompareResult;
    int compare(const Entry& a, const Entry& b) const { asked("compare"); mayYield(); return a.key < b.key ? -1 : a.key > b.key; }
    bool cmpLessThan(int c) const { asked("cmpLessThan"); return c < 0; }
    bool cmpEqual(int c) const { asked("cmpEqual"); return c == 0; }
    Entry deduplicate(Entry a, Entry b) const { asked("deduplicate"); a.count += b.count; return a; }
    static const bool supportDeduplication = Dedup, fastIndex = Fast;
  };
  template<unsigned F, size_t Factor> struct GConf : QConf<(F & 1) != 0, false> {
    size_t minBucketSize = 4, geoBase = 2;
    static const size_t insertFactor = Factor;
    static const bool minBucketBinarySearch = (F & 2) != 0, trackFront = (F & 4) != 0, premerge = (F & 8) != 0, collectMax = (F & 16) != 0;
    static const mathic::GeobucketBucketStorage bucketStorage = static_cast<mathic::GeobucketBucketStorage>(F / 32);
  };
  template<bool Retire> struct PConf : Identity {
    typedef size_t PairData;
    typedef int CompareResult;
    void computePairData(size_t col, size_t row, size_t& data) { asked("computePairData"); mayYield(); data = col * 31 % 17 + row * 7 % 13; }
    int compare(size_t, size_t, size_t a, size_t, size_t, size_t b) const { asked("compare"); mayYield(); return a < b ? -1 : a > b; }
    bool cmpLessThan(int c) const { asked("cmpLessThan"); return c < 0; }
  };
  struct HConf : Identity {
    typedef int Key;
    typedef int Value;
    size_t hash(int k) { asked("hash"); mayYield(); return (size_t)k % 41; }
    bool keysEqual(int a, int b) { asked("keysEqual"); mayYield(); return a == b; }
  };
}
namespace mathic {
  namespace PairQueueNamespace {
    template<> struct SupportRetirement<confmon::PConf<false> > { static bool const value = false; };
  }
}
using namespace confmon;
namespace {
  // ***** histories

  struct Case {
    Ctx& ctx;
    const char* type;
    Rng& rng;
    const void* at;
    u64 copiesAtStart;
    explicit Case(Ctx& c, const char* t): ctx(c), type(t), rng(c.rng), at(0), copiesAtStart(0) { watch() = Watch(); }
    void fine(const char* what) {
      mayYieldBetween();
      Watch& w = watch();
      if (!w.wrong.empty()) MON_CHECK(ctx, "c", false, type << ": " << w.wrong << " in or before " << what);
      MON_CHECK(ctx, "c", w.copies == copiesAtStart, type << ": " << what << " copied the configuration");
      MON_CHECK(ctx, "c", w.live == 1, type << ": there are " << w.live << " configurations after " << what);
    }
    // the configuration, from which the structure is made, goes away
    template<class Q, class C> std::unique_ptr<Q> make(C& conf) {
      conf.tag = watch().tag = rng.next();
      std::unique_ptr<Q> q(new Q(conf));
      MON_CHECK(ctx, "c", watch().copies >= 1, type << ": the configuration was not copied");
      MON_CHECK(ctx, "c", watch().live == 2, type << ": there are " << watch().live - 1 << " configurations in a new object");
      copiesAtStart = watch().copies;
      ctx.count("objects made")++;
      return q;
    }
    template<class A> void began(A& of) { // of: the configuration of the structure
      at = &static_cast<Identity&>(of);
      watch().only = at;
      MON_CHECK(ctx, "c", of.tag == watch().tag, type << ": the configuration inside is not a copy of the one given");
      fine("the construction");
    }
    template<class A> void same(A& of, const A& constOf) {
      MON_CHECK(ctx, "c", &static_cast<Identity&>(of) == at && &static_cast<const Identity&>(constOf) == at, type << ": the configuration inside has moved");
      if (rng.chance(1, 4)) {
        of.tag = watch().tag = rng.next();
        MON_CHECK(ctx, "c", constOf.tag == watch().tag, type << ": what is stored in the configuration is not there");
        ctx.count("values stored in configurations")++;
      }
    }
    template<class Q> void end(std::unique_ptr<Q>& q) {
      q.reset();
      Watch& w = watch();
      if (!w.wrong.empty()) MON_CHECK(ctx, "c", false, type << ": " << w.wrong << " in the destruction");
      MON_CHECK(ctx, "c", w.live == 0, type << ": " << w.live << " configurations are left");
      ctx.count("calls of configurations") += w.calls;
      if (w.calls > 50) ctx.nontrivial = true;
    }
  };
  struct AllVisitor {
    template<class E> bool proceed(const E&) { return true; }
  };
  std::vector<int> monomial(Rng& rng, size_t vars, unsigned most) {
    std::vector<int> m(vars);
    for (size_t i = 0; i < vars; ++i) m[i] = (int)rng.below(most);
    return m;
  }
  template<class T> struct Clear { static void clear(T& t) { t.clear(); } };
  template<class C> struct Clear<mathic::DivList<C> > { static void clear(mathic::DivList<C>&) {} };

  template<class T> void divCase(Ctx& ctx, const char* type) {
    typedef typename T::Configuration C;
    Case c(ctx, type);
    Rng& rng = ctx.rng;
    std::unique_ptr<T> t;
    size_t vars = rng.range(1, 6);
    unsigned most = 2 + (unsigned)rng.below(8);
    std::set<std::vector<int> > used; // trees do not hold many equal entries
    {
      std::unique_ptr<C> conf(new C());
      conf->sort = rng.coin(); conf->cache = rng.coin(); conf->automatic = rng.coin();
      conf->ratio = 0.3; conf->min = rng.range(1, 20); conf->varCount = vars;
      ctx.op(type); ctx.arg(conf->sort); ctx.arg(conf->cache); ctx.arg(conf->automatic); ctx.arg(vars);
      t = c.make<T>(*conf);
    }
    c.began(t->getConfiguration());
    for (size_t n = rng.range(5, 80); n > 0; --n) {
      unsigned x = (unsigned)rng.below(12);
      std::vector<int> m = monomial(rng, vars, most);
      ctx.op("op"); ctx.arg(x); ctx.arg(m[0]);
      AllVisitor v;
      const T& ct = *t;
      switch (x) {
      case 0: case 1: case 2: if (used.insert(m).second) t->insert(m); break;
      case 3: {
        std::vector<std::vector<int> > in;
        for (size_t k = rng.below(12); k > 0; --k) {
          m = monomial(rng, vars, most);
          if (used.insert(m).second) in.push_back(m);
        }
        t->insert(in.begin(), in.end());
        break;
      }
      case 4: { for (int& e : m) e += most / 2; t->removeMultiples(m); break; }
      case 5: t->removeElement(m); break;
      case 6: t->findDivisor(m); ct.findDivisor(m); break;
      case 7: t->findAllDivisors(m, v); ct.findAllDivisors(m, v); break;
      case 8: t->findAllMultiples(m, v); ct.findAllMultiples(m, v); break;
      case 9: t->forAll(v); t->size(); t->getName(); t->getMemoryUse(); break;
      case 10: t->rebuild(); break;
      default: if (rng.chance(1, 5)) Clear<T>::clear(*t);
      }
      c.fine("an operation");
      c.same(t->getConfiguration(), ct.getConfiguration());
    }
    c.end(t);
  }

  // bulk operations, of all queues but the set
  template<class Q> struct Bulk {
    static void decrease(Q& q, Queued e) { q.decreaseTop(e); }
    static void all(Q& q) { AllVisitor v; q.forAll(v); }
    static void clear(Q& q) { q.clear(); }
  };
  template<class C> struct Bulk<mathic::StlSet<C> > {
    typedef mathic::StlSet<C> Q;
    static void decrease(Q&, Queued) {}
    static void all(Q&) {}
    static void clear(Q&) {}
  };
  struct Less { bool operator()(const Queued& a, const Queued& b) const { return a.key < b.key; } };
  template<class C, class F> void queueOf(Ctx& ctx, const char* type, F set) {
    typedef typename F::Queue Q;
    Case c(ctx, type);
    Rng& rng = ctx.rng;
    std::unique_ptr<Q> q;
    {
      std::unique_ptr<C> conf(new C());
      set(*conf, rng);
      ctx.op(type);
      q = c.make<Q>(*conf);
    }
    c.began(q->getConfiguration());
    unsigned most = 2 + (unsigned)rng.skewed(1000);
    for (size_t n = rng.range(5, 120); n > 0; --n) {
      unsigned x = (unsigned)rng.below(10);
      Queued e = {(int)rng.below(most), 1};
      ctx.op("op"); ctx.arg(x); ctx.arg(e.key);
      const Q& cq = *q;
      switch (x) {
      case 0: case 1: case 2: q->push(e); break;
      case 3: case 4: {
        std::vector<Queued> in;
        for (size_t k = rng.below(30); k > 0; --k) { Queued f = {(int)rng.below(most), 1}; in.push_back(f); }
        std::sort(in.begin(), in.end(), Less());
        if (!in.empty()) q->push(&in[0], &in[0] + in.size());
        break;
      }
      case 5: if (!q->empty()) q->top(); break;
      case 6: case 7: if (!q->empty()) q->pop(); break;
      case 8: if (!q->empty()) { Queued top = q->top(); if (top.key > 0) { top.key = (int)rng.below((u64)top.key); Bulk<Q>::decrease(*q, top); } } break;
      default:
        if (rng.chance(1, 10)) Bulk<Q>::clear(*q);
        else Bulk<Q>::all(*q);
        cq.getName(); cq.getMemoryUse();
      }
      c.fine("an operation");
      c.same(q->getConfiguration(), cq.getConfiguration());
    }
    c.end(q);
  }
  template<class Q_> struct Simple {
    typedef Q_ Queue;
    template<class C> void operator()(C&, Rng&) const {}
  };
  template<class Q_> struct GeoSet {
    typedef Q_ Queue;
    template<class C> void operator()(C& conf, Rng& rng) const { conf.geoBase = rng.range(2, 5); conf.minBucketSize = rng.range(1, 8); }
  };

  template<bool Retire> void pairCase(Ctx& ctx, const char* type) {
    typedef PConf<Retire> C;
    typedef mathic::PairQueue<C> Q;
    Case c(ctx, type);
    Rng& rng = ctx.rng;
    std::unique_ptr<Q> q;
    {
      std::unique_ptr<C> conf(new C());
      ctx.op(type);
      q = c.make<Q>(*conf);
    }
    c.began(q->configuration());
    std::vector<bool> retired;
    for (size_t n = rng.range(5, 60); n > 0; --n) {
      unsigned x = (unsigned)rng.below(8);
      ctx.op("op"); ctx.arg(x);
      const Q& cq = *q;
      if (x < 4) {
        // rows have to be given in the order of their pairs
        std::vector<size_t> rows;
        size_t col = q->columnCount();
        for (size_t i = 0; i < col; ++i) if (!retired[i] && rng.coin()) rows.push_back(i);
        std::stable_sort(rows.begin(), rows.end(), [](size_t a, size_t b) { return a * 7 % 13 > b * 7 % 13; });
        q->addColumnDescending(rows.begin(), rows.end());
        retired.push_back(false);
      } else if (x < 6) { if (!q->empty()) { q->topPair(); q->topPairData(); q->pop(); } }
      else if (x == 6 && Retire && !retired.empty()) {
        size_t i = (size_t)rng.below(retired.size());
        if (!retired[i]) { q->retireIndex(i); retired[i] = true; }
      } else { cq.pairCount(); cq.name(); cq.getMemoryUse(); }
      c.fine("an operation");
      c.same(q->configuration(), cq.configuration());
    }
    c.end(q);
  }

  void hashCase(Ctx& ctx, const char* type) {
    typedef mathic::HashTable<HConf> T;
    Case c(ctx, type);
    Rng& rng = ctx.rng;
    std::unique_ptr<T> t;
    std::set<int> keys;
    {
      std::unique_ptr<HConf> conf(new HConf());
      ctx.op(type);
      conf->tag = watch().tag = rng.next();
      t.reset(new T(*conf, (unsigned)rng.below(6)));
      MON_CHECK(ctx, "c", watch().live == 2, type << ": there are " << watch().live - 1 << " configurations in a new object");
      c.copiesAtStart = watch().copies;
      ctx.count("objects made")++;
    }
    c.began(t->configuration());
    for (size_t n = rng.range(5, 200); n > 0; --n) {
      int key = (int)rng.below(300);
      unsigned x = (unsigned)rng.below(4);
      ctx.op("op"); ctx.arg(x); ctx.arg(key);
      const T& ct = *t;
      if (x < 2) t->insert(key, key);
      else if (x == 2) t->lookup(key);
      else { T::Handle* h = t->lookup(key); if (h != 0) t->remove(h); }
      c.fine("an operation");
      c.same(t->configuration(), ct.configuration());
    }
    c.end(t);
  }
}
#define REG(name, ...) \
  static void f_##name(Ctx& ctx) { __VA_ARGS__(ctx, #name); } \
  static mon::Registrar r_##name("confs-" #name, "C39 C28 C35", &f_##name);
#define REGD(name, ...) \
  static void f_##name(Ctx& ctx) { __VA_ARGS__(ctx, #name); } \
  static mon::Registrar r_##name("confs-" #name, "C39 C28 C35f", &f_##name);
#define REGQ(name, Q, Set, ...) \
  static void f_##name(Ctx& ctx) { typedef __VA_ARGS__ C; queueOf<C>(ctx, #name, Set<mathic::Q<C> >()); } \
  static mon::Registrar r_##name("confs-" #name, "C39 C28 C35", &f_##name);
#if MON_PART == 0
REGD(array, divCase<mathic::DivList<LConf<false, false> > >)
REGD(array_mask, divCase<mathic::DivList<LConf<false, true> > >)
REGD(linked_mask, divCase<mathic::DivList<LConf<true, true> > >)
typedef PConf<true> RetireConf;
REG(pairs, pairCase<true>)
REG(pairs_noretire, pairCase<false>)
REG(hash, hashCase)
REGQ(heap, Heap, Simple, QConf<false, false>)
REGQ(heap_dedup, Heap, Simple, QConf<true, true>)
REGQ(tour, TourTree, Simple, QConf<false, false>)
REGQ(set, StlSet, Simple, QConf<false, false>)
#elif MON_PART == 1
REGD(binary_none_1, divCase<mathic::KDTree<TConf<false, 0, 1> > >)
REGD(binary_tree_2, divCase<mathic::KDTree<TConf<false, 2, 2> > >)
#elif MON_PART == 2
REGD(packed_none_1, divCase<mathic::KDTree<TConf<true, 0, 1> > >)
REGD(packed_tree_3, divCase<mathic::KDTree<TConf<true, 2, 3> > >)
#elif MON_PART == 3
REGQ(geo_0, Geobucket, GeoSet, GConf<0, 1>)
REGQ(geo_4, Geobucket, GeoSet, GConf<4, 2>)
REGQ(geo_45, Geobucket, GeoSet, GConf<32 + 13, 1>)
#else
REGQ(geo_19, Geobucket, GeoSet, GConf<19, 2>)
REGQ(geo_75, Geobucket, GeoSet, GConf<64 + 11, 1>)
REGQ(geo_94, Geobucket, GeoSet, GConf<64 + 30, 1>)
#endif
