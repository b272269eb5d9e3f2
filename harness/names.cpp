// Names of structures and queues against their types and options (C38).
#include <mathic/DivList.h>
#include <mathic/KDTree.h>
#include <mathic/Heap.h>
#include <mathic/TourTree.h>
#include <mathic/Geobucket.h>
#include <mathic/StlSet.h>
#include "mon.h"
#include <sstream>
using namespace mon;
namespace namesmon {
  struct Options {
    bool sort = false, cache = false, automatic = false;
    double ratio = 0.5;
    size_t min = 50, base = 2, bucket = 4, varCount = 3;
  };
  struct Source {
    std::string type; // and what is chosen when compiling
    enum Kind { Plain, Geo, List, Tree } kind;
    bool masks;
    std::string (*name)(const Options&);
  };
  typedef std::vector<Source> Sources;
  Sources& sources(); // filled by all parts
}
using namespace namesmon;
namespace {
  // What the name has to tell.
  std::string signature(const Source& s, const Options& o) {
    std::ostringstream r;
    r << s.type;
    if (s.kind == Source::Geo) r << " base " << o.base << " smallest bucket " << o.bucket;
    if (s.kind == Source::List || s.kind == Source::Tree) r << " sort " << o.sort;
    if (s.kind == Source::Tree) r << " cache " << o.cache;
    if (s.kind == Source::Tree || (s.kind == Source::List && s.masks)) {
      r << " rebuilds " << o.automatic;
      if (o.automatic) r << " ratio " << o.ratio << " minimum " << o.min;
    }
    return r.str();
  }
  template<class T> std::string nameOf(const T& t) {
    std::string a = t.getName(), b = t.getName();
    return a == b ? a : a + "\n" + b;
  }

  struct DivConf : Options {
    typedef std::vector<int> Monomial;
    typedef std::vector<int> Entry;
    typedef int Exponent;
    explicit DivConf(const Options& o): Options(o) {}
    int getExponent(const Monomial& m, size_t var) const { return m[var]; }
    bool divides(const Monomial& a, const Monomial& b) const {
      for (size_t i = 0; i < a.size(); ++i) if (a[i] > b[i]) return false;
      return true;
    }
    bool isLessThan(const Monomial& a, const Monomial& b) const { return a < b; }
    size_t getVarCount() const { return varCount; }
    bool getSortOnInsert() const { return sort; }
    bool getUseDivisorCache() const { return cache; }
    bool getDoAutomaticRebuilds() const { return automatic; }
    double getRebuildRatio() const { return ratio; }
    size_t getRebuildMin() const { return min; }
  };
  template<bool Linked, bool Mask> struct LConf : DivConf {
    using DivConf::DivConf;
    static const bool UseLinkedList = Linked, UseDivMask = Mask;
  };
  template<bool Packed, int Masks, size_t Leaf, bool Removals> struct TConf : DivConf {
    using DivConf::DivConf;
    static const bool UseDivMask = Masks > 0, UseTreeDivMask = Masks > 1, PackedTree = Packed, AllowRemovals = Removals;
    static const size_t LeafSize = Leaf;
  };
  template<class T, class Conf> std::string divName(const Options& o) {
    T t((Conf(o)));
    return nameOf(t);
  }

  template<bool Dedup, bool Fast> struct QConf {
    typedef int Entry;
    typedef int CompareResult;
    int compare(int a, int b) const { return a < b ? -1 : a > b; }
    bool cmpLessThan(int c) const { return c < 0; }
    bool cmpEqual(int c) const { return c == 0; }
    int deduplicate(int a, int) const { return a; }
    static const bool supportDeduplication = Dedup, fastIndex = Fast;
  };
  template<unsigned F, size_t Factor> struct GConf : QConf<(F & 1) != 0, false> {
    size_t minBucketSize = 4, geoBase = 2;
    static const size_t insertFactor = Factor;
    static const bool minBucketBinarySearch = (F & 2) != 0, trackFront = (F & 4) != 0, premerge = (F & 8) != 0, collectMax = (F & 16) != 0;
    static const mathic::GeobucketBucketStorage bucketStorage = static_cast<mathic::GeobucketBucketStorage>(F / 32);
  };
  template<class T, class Conf> std::string queueName(const Options&) {
    T t((Conf()));
    return nameOf(t);
  }
  template<class T, class Conf> std::string geoName(const Options& o) {
    Conf c;
    c.minBucketSize = o.bucket;
    c.geoBase = o.base;
    T t(c);
    return nameOf(t);
  }

  std::string on(bool b) { return b ? "1" : "0"; }
  void add(Sources& v, const std::string& type, Source::Kind kind, bool masks, std::string (*f)(const Options&)) {
    Source s = {type, kind, masks, f};
    v.push_back(s);
  }
  template<bool Linked, bool Mask> void list(Sources& v) {
    typedef LConf<Linked, Mask> C;
    add(v, "list linked " + on(Linked) + " masks " + on(Mask), Source::List, Mask, &divName<mathic::DivList<C>, C>);
  }
  template<bool Packed, int Masks, size_t Leaf, bool Removals> void tree(Sources& v) {
    typedef TConf<Packed, Masks, Leaf, Removals> C;
    add(v, "tree packed " + on(Packed) + " masks " + std::to_string(Masks) + " leaf " + std::to_string(Leaf) + " removals " + on(Removals),
        Source::Tree, Masks > 0, &divName<mathic::KDTree<C>, C>);
  }
  template<bool Packed, size_t Leaf> void trees(Sources& v) {
    tree<Packed, 0, Leaf, false>(v); tree<Packed, 0, Leaf, true>(v);
    tree<Packed, 1, Leaf, false>(v); tree<Packed, 1, Leaf, true>(v);
    tree<Packed, 2, Leaf, false>(v); tree<Packed, 2, Leaf, true>(v);
  }
  template<bool D, bool F> void heap(Sources& v) {
    typedef QConf<D, F> C;
    add(v, "heap deduplication " + on(D) + " fast " + on(F), Source::Plain, false, &queueName<mathic::Heap<C>, C>);
  }
  template<bool F> void tour(Sources& v) {
    typedef QConf<false, F> C;
    add(v, "tournament tree fast " + on(F), Source::Plain, false, &queueName<mathic::TourTree<C>, C>);
  }
  template<unsigned F, size_t Factor> void geo(Sources& v) {
    typedef GConf<F, Factor> C;
    add(v, "geobucket switches " + std::to_string(F) + " factor " + std::to_string((unsigned long)Factor), Source::Geo, false, &geoName<mathic::Geobucket<C>, C>);
  }
#if MON_PART > 0
  template<unsigned F> struct Geos { // F and every third before it
    static void go(Sources& v) {
      geo<F, 1>(v);
      if (F % 7 == 1) geo<F, 12>(v);
      geo<F, 2>(v);
      Geos<(F < 3 ? 1000 : F - 3)>::go(v);
    }
  };
  template<> struct Geos<1000> { static void go(Sources&) {} };
  struct Init { Init() { Geos<96 - MON_PART>::go(sources()); } } init;
}
#else
  struct Init {
    Init() {
      Sources& v = sources();
      list<false, false>(v); list<false, true>(v); list<true, false>(v); list<true, true>(v);
      trees<false, 1>(v); trees<true, 1>(v); trees<false, 2>(v); trees<true, 2>(v); trees<false, 15>(v); trees<true, 25>(v);
      heap<false, false>(v); heap<false, true>(v); heap<true, false>(v); heap<true, true>(v);
      tour<false>(v); tour<true>(v);
      typedef QConf<false, false> C;
      add(v, "set", Source::Plain, false, &queueName<mathic::StlSet<C>, C>);
    }
  } init;

  void change(Rng& rng, Options& o) {
    const double ratios[] = {0.1, 0.25, 0.5, 0.75, 1, 1.5, 2, 10, 100};
    switch (rng.below(12)) {
    case 0: o.sort = !o.sort; break;
    case 1: o.cache = !o.cache; break;
    case 2: o.automatic = rng.chance(2, 3); break;
    case 3: o.ratio = rng.coin() ? ratios[rng.below(9)] : (1 + rng.skewed(99998)) / (rng.coin() ? 1000.0 : 10.0); break;
    case 4: o.min = rng.coin() ? rng.below(30) : rng.skewed(100000000); break;
    case 5: o.base = 2 + rng.skewed(100); break;
    case 6: o.bucket = 1 + rng.skewed(10000); break;
    // a little
    case 7: if (o.ratio < 99) o.ratio += 0.001; break;
    case 8: ++o.min; break;
    case 9: ++o.base; break;
    case 10: ++o.bucket; break;
    default: o.varCount = 1 + rng.below(20);
    }
  }
  void namesCase(Ctx& ctx) {
    Rng& rng = ctx.rng;
    Sources& sources = namesmon::sources();
    static bool sorted = false;
    if (!sorted) std::sort(sources.begin(), sources.end(), [](const Source& a, const Source& b) { return a.type < b.type; });
    sorted = true;
    struct Seen { std::string signature, name; };
    std::vector<Seen> seen;
    size_t at = (size_t)rng.below(sources.size());
    Options o;
    for (unsigned i = 0; i < 8; ++i) change(rng, o);
    bool both = false;
    for (size_t n = rng.range(2, 20); n > 0; --n) {
      const Source& s = sources[at];
      Seen now = {signature(s, o), s.name(o)};
      ctx.op("name"); ctx.argS(now.signature);
      MON_CHECK(ctx, "n", !now.name.empty(), "the name of <" << now.signature << "> is empty");
      MON_CHECK(ctx, "n", now.name.find('\n') == std::string::npos, "the name of <" << now.signature << "> changes or has more than one line: " << now.name);
      for (size_t i = 0; i < seen.size(); ++i) {
        const bool same = seen[i].signature == now.signature;
        ctx.count(same ? "pairs of the same configuration" : "pairs of different configurations")++;
        both = both || !same;
        if (same) MON_CHECK(ctx, "n", seen[i].name == now.name, "two objects of <" << now.signature << "> are named " << seen[i].name << " and " << now.name);
        else MON_CHECK(ctx, "n", seen[i].name != now.name, "<" << seen[i].signature << "> and <" << now.signature << "> are both named " << now.name);
      }
      seen.push_back(now);
      // what comes next is close to what there was
      switch (rng.below(4)) {
      case 0: at = (size_t)rng.below(sources.size()); break;
      case 1: at = (at + (size_t)rng.below(7) + sources.size() - 3) % sources.size(); break;
      default: change(rng, o);
      }
    }
    ctx.count("names")+= seen.size();
    if (both) ctx.nontrivial = true;
  }
}
static mon::Registrar r_names("names", "C38 C28", &namesCase, 1);
namespace namesmon { Sources& sources() { static Sources v; return v; } }
#endif
