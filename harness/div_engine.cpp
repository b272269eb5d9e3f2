// Drives one divisor structure (and in some modes a twin that is never
// rebuilt) through a history of operations against a list of records.
//
// Oracles, by tag:
//  Q answers of queries          K contents, size and results of removals
//  V protocol of visits          D validity of what findDivisor returns
//  L lifetimes of entries        R agreement with a twin never rebuilt
//  N number of divisibility tests
//  M reported memory use (see mem_hook.h)
//  A automatic rebuilds: when they are due, and only then
#include "div_if.h"
#ifdef MON_MEMORY
#include <memtailor.h>
#endif

namespace divmon {
  enum Op {
    OpInsert, OpRange, OpRemoveMultiples, OpRemoveElement, OpFind, OpAllDivisors,
    OpAllMultiples, OpForAll, OpMove, OpRebuild, OpClear, OpMutate, OpCheck, OpCount
  };

  // When an automatic rebuild is due: after max(size() * ratio, min) insertions
  // and removals. Which size() is meant is left open: it is one of those there
  // were since the last rebuild. The number of changes is an interval, as it
  // is not known when several insertions in one call or rebuilds of a small
  // structure went by unobserved.
  struct Due {
    bool automatic;
    double ratio;
    size_t min, lo, hi, sizeMin, sizeMax;
    void reset(size_t size) { lo = hi = 0; sizeMin = sizeMax = size; }
    void sized(size_t size) {
      if (size < sizeMin) sizeMin = size;
      if (size > sizeMax) sizeMax = size;
    }
    size_t earliest() const { size_t n = (size_t)((double)sizeMin * ratio * 0.999999); return n > min ? n : min; }
    size_t latest() const {
      size_t n = (size_t)((double)sizeMax * ratio * 1.000001) + 1;
      n = n > min ? n : min;
      return n > 1 ? n : 1;
    }
  };

  template<class Exp> struct Engine {
    typedef ConfBase<Exp> Conf;
    typedef EntryT<Exp> Entry;
    typedef MonoT<Exp> Monomial;
    typedef IDiv<Exp> T;
    typedef std::vector<Exp> Vec;

    Ctx& ctx;
    Rng& rng;
    const Kind<Exp>& kind;
    const bool IsList;
    Conf conf;
    Gen<Exp> gen;
    std::unique_ptr<T> t, twin;
    std::vector<Rec<Exp> > model; // in list order for lists that are not sorted
    std::map<Vec, size_t> dups;   // for the bound on identical entries
    u64 nextId = 1;
    bool sorted;                  // list in sorted mode
    bool switching = false;       // options change now and then
    unsigned w[OpCount];
    size_t hits = 0, removals = 0, sizeMax = 0, rebuilds = 0;
    bool big = false, giant = false; // giant: more than fits 16 bits
    size_t liveBase = 0, bytesBefore = 0, sizeBefore = 0; // about memory
    bool adding = false;
    Due due;
    u64 constructedBefore = 0, exponentsBefore = 0;

    Engine(Ctx& c, const Kind<Exp>& k): ctx(c), rng(c.rng), kind(k), IsList(k.isList), gen(c), sorted(false) {}

    std::string state() const {
      return " (size " + std::to_string(model.size()) + ")";
    }

    void configure() {
      conf.varCount = gen.vars;
      conf.sort = rng.coin();
      conf.cache = ctx.mode == "C08" ? true : rng.chance(1, 3);
      conf.automatic = rng.chance(ctx.mode == "C06" || ctx.mode == "C36" ? 5 : 3, 6);
      static const double ratios[] = {0.01, 0.1, 0.5, 1.0, 3.0};
      conf.ratio = ratios[rng.below(5)];
      static const size_t mins[] = {0, 1, 2, 5, 20, 100, 500};
      conf.min = mins[rng.below(7)];
      conf.order = (int)rng.below(3);
      switching = ctx.mode != "C36" && rng.chance(1, ctx.mode == "C08" ? 2 : 5);
      if (switching) conf.cache = rng.chance(1, 3);
      giant = mon::Large && rng.chance(1, 400) && gen.vars <= 34 && kind.cap > 1;
      if (giant) { // keep it feasible
        if (gen.bound < 10) gen.bound = 10;
        gen.sparse = 0;
        if (gen.vars < 6) gen.vars = conf.varCount = 6;
        conf.sort = IsList ? false : conf.sort;
        if (conf.ratio < 0.5) conf.ratio = 0.5;
      }
      sorted = IsList && conf.sort;
      ctx.arg(gen.vars); ctx.arg(gen.bound); ctx.arg(gen.sparse); ctx.arg(gen.extreme);
      ctx.arg(conf.sort); ctx.arg(conf.cache); ctx.arg(conf.automatic);
      ctx.arg((u64)(conf.ratio * 100)); ctx.arg(conf.min); ctx.arg(conf.order); ctx.arg(switching);
      ctx.endl();
    }

    void weights() {
      static const unsigned base[OpCount] = {30, 3, 3, 4, 12, 6, 6, 2, 3, 2, 1, 2, 3};
      for (int i = 0; i < OpCount; ++i) w[i] = base[i];
      const std::string& m = ctx.mode;
      if (m == "C06") { w[OpRebuild] = 8; w[OpRange] = 5; }
      else if (m == "C07") { w[OpAllDivisors] = w[OpAllMultiples] = 15; w[OpForAll] = 8; }
      else if (m == "C08") { w[OpFind] = 40; w[OpRemoveElement] = 8; w[OpRebuild] = 4; w[OpRange] = 4; w[OpClear] = 2; }
      else if (m == "C09") { w[OpRemoveMultiples] = 6; w[OpRemoveElement] = 6; w[OpRebuild] = 5; w[OpMove] = 6; w[OpClear] = 2; }
      else if (m == "C03" || m == "C04") { w[OpRemoveMultiples] = 6; w[OpRemoveElement] = 8; w[OpMove] = 6; w[OpRange] = 5; w[OpCheck] = 6; }
      else if (m == "C29") { w[OpFind] = 30; w[OpAllDivisors] = w[OpAllMultiples] = 10; }
      else if (m == "C36") {
        w[OpInsert] = 40; w[OpRemoveMultiples] = w[OpRemoveElement] = 12; w[OpRebuild] = rng.below(3);
        w[OpFind] = w[OpAllDivisors] = w[OpAllMultiples] = w[OpForAll] = w[OpMutate] = 1;
      }
      if (rng.chance(1, 3)) { w[OpRemoveMultiples] = w[OpClear] = 0; } // let it grow
      if (rng.chance(1, 4)) w[OpRemoveElement] = 0;
      if (!kind.removals) w[OpRemoveMultiples] = w[OpRemoveElement] = 0;
      if (!IsList) w[OpMove] = 0;
      else w[OpClear] = 0;
      if (sorted) w[OpMove] = 0;
    }

    void run() {
      ctx.soft = true;
      watch().reset();
      configure();
      weights();
#ifdef MON_MEMORY
      liveBase = counted();
#endif
      t.reset(kind.make(conf));
      due.automatic = conf.automatic;
      due.ratio = conf.ratio;
      due.min = conf.min;
      due.reset(0);
      if (ctx.mode == "C06") {
        Conf c2 = conf;
        c2.automatic = false;
        twin.reset(kind.make(c2));
      }
      u64 k = rng.below(40);
      size_t ops = k < 20 ? rng.range(10, 60) : k < 36 ? rng.range(40, 300) : rng.range(200, 800);
      big = k == 39 || (ctx.mode == "C36" && k >= 20);
      if (giant) { big = true; ops = rng.range(4, 16); }
      if (big) bulkStart();
      unsigned total = 0;
      for (int i = 0; i < OpCount; ++i) total += w[i];
      for (size_t i = 0; i < ops; ++i) {
        unsigned r = (unsigned)rng.below(total);
        int op = 0;
        while (r >= w[op]) r -= w[op++];
#ifdef MON_MEMORY
        adding = op == OpInsert || op == OpRange || op == OpRebuild;
        bytesBefore = t->getMemoryUse();
        sizeBefore = model.size();
#endif
        step((Op)op);
        after();
      }
      fullCheck();
      finish();
      ctx.nontrivial = sizeMax >= 3 && (hits > 0 || removals > 0);
    }

    void bulkStart() {
      size_t n = giant ? rng.range(65500, 67000) : rng.range(300, ctx.tier ? 3000 : 1200);
      ctx.op("bulk"); ctx.arg(n); ctx.endl();
      if (giant) ctx.count("structures of more than 65000 entries")++;
      if (rng.coin() || (giant && !IsList)) {
        insertRange(n);
      } else {
        for (size_t i = 0; i < n; ++i) insertOne();
      }
    }

    // Around one insertion or removal.
    void changing() {
      constructedBefore = watch().constructed;
      exponentsBefore = watch().exponents;
    }
    void changed(size_t changes, const char* what) {
      if (!ctx.active("A")) return;
      // A rebuild copies all the entries, and looks at all their exponents
      // where there are masks. Nothing else does both, when there are many:
      // an array that grows copies, removeElement looks at exponents.
      size_t size = t->size();
      u64 constructed = watch().constructed - constructedBefore, exponents = watch().exponents - exponentsBefore;
      bool visible, rebuilt;
      if (IsList) {
        visible = kind.masks && size >= gen.vars + 100;
        rebuilt = exponents >= size && constructed >= size;
      } else {
        visible = size >= 4 * kind.cap + 100;
        rebuilt = constructed >= size;
      }
      due.sized(size);
      due.lo += changes;
      due.hi += changes;
      if (!due.automatic) {
        if (!visible) return;
        ctx.count("changes without automatic rebuilds")++;
        MON_CHECK(ctx, "A", !rebuilt, what << " rebuilt the structure of " << size
          << " entries though automatic rebuilds are off");
        return;
      }
      if (visible && rebuilt) {
        ctx.count("automatic rebuilds seen")++;
        MON_CHECK(ctx, "A", due.hi >= due.earliest(), what << " rebuilt the structure of " << size << " entries after at most "
          << due.hi << " changes, where at least " << due.earliest() << " are needed");
        due.reset(size);
      } else if (visible) {
        ctx.count("changes without a rebuild")++;
        MON_CHECK(ctx, "A", due.lo < due.latest(), what << " did not rebuild the structure of " << size << " entries after at least "
          << due.lo << " changes, where " << due.latest() << " are enough");
        if (due.lo >= due.latest()) due.reset(size); // report once
      } else
        unseen(size);
    }
    // There may have been a rebuild.
    void unseen(size_t size) {
      if (!due.automatic || due.hi < due.earliest()) return;
      due.lo = 0;
      due.sizeMin = 0;
      if (due.hi >= due.latest()) due.hi = due.latest();
      due.sized(size);
    }
    void rangeInserted(size_t before, size_t n) {
      if (n == 0) return;
      if (before == 0) { due.reset(n); return; }
      due.sized(before + n);
      due.lo += n;
      due.hi += n;
      unseen(before + n);
    }

    void limit() { StepLimit::set(2000000 + (u64)(model.size() + 200) * (gen.vars + 70) * 400); }

#ifdef MON_MEMORY
    // The arena for scratch space is shared and keeps its memory.
    static size_t counted() { return MemHook::live() - memt::Arena::getArena().getMemoryUse(); }
#endif

    void checkMisc() {
      MON_CHECK(ctx, "L", watch().error.empty(), watch().error << state());
      MON_CHECK(ctx, "Q K C28", watch().misuse.empty(), watch().misuse);
      if (ctx.active("L")) {
        long want = (long)(t->size() + (twin ? twin->size() : 0));
        MON_CHECK(ctx, "L", watch().live == want,
          "structures hold " << want << " entries but " << watch().live << " are alive");
      }
    }

    void after() {
      StepLimit::set(0);
      if (model.size() > sizeMax) sizeMax = model.size();
      MON_CHECK(ctx, "K", t->size() == model.size(),
        "size() is " << t->size() << " but " << model.size() << " entries are stored");
      MON_CHECK(ctx, "K", t->empty() == model.empty(), "empty() is " << t->empty() << state());
      checkMisc();
      if (twin)
        MON_CHECK(ctx, "R", t->size() == twin->size(),
          "size " << t->size() << " differs from " << twin->size() << " in the structure never rebuilt");
#ifdef MON_MEMORY
      size_t bytes = t->getMemoryUse(), live = counted() - liveBase;
      ctx.count("memory reports")++;
      MON_CHECK(ctx, "M", bytes >= model.size() * sizeof(Entry),
        "getMemoryUse() is " << bytes << " with " << model.size() << " entries of " << sizeof(Entry) << " bytes");
      MON_CHECK(ctx, "M", bytes <= live + live / 2 + 256, "getMemoryUse() is " << bytes << " with " << live << " bytes allocated");
      MON_CHECK(ctx, "M", live <= bytes + bytes / 4 + 4096, "getMemoryUse() is " << bytes << " but " << live << " bytes are allocated");
      if (adding) return;
      // trees may need room for a traversal
      size_t slack = IsList ? 0 : 4096 + 64 * sizeBefore;
      MON_CHECK(ctx, "M", bytes <= bytesBefore + slack || (conf.automatic && !IsList), "without an insertion, getMemoryUse() grew from "
        << bytesBefore << " to " << bytes << " with " << sizeBefore << " entries before and " << model.size() << " now");
#endif
    }

    void rememberIds(std::vector<u64>& ids, T& x, unsigned how) {
      std::vector<const Entry*> p;
      x.iterate(how, p);
      for (size_t i = 0; i < p.size(); ++i)
        ids.push_back(p[i]->isAlive() ? p[i]->id : ~(u64)0);
    }

    static std::string showIds(const std::vector<u64>& v) {
      std::string s = "[";
      for (size_t i = 0; i < v.size() && i < 30; ++i) s += (i ? " " : "") + std::to_string((long long)v[i]);
      return s + (v.size() > 30 ? " ...]" : "]");
    }

    size_t indexOf(u64 id) const {
      for (size_t i = 0; i < model.size(); ++i)
        if (model[i].id == id) return i;
      return model.size();
    }

    // Contents (and order for lists), by iteration.
    void contents(const char* tags, const char* when) {
      StepLimit::set(0);
      std::vector<const Entry*> p;
      t->iterate((unsigned)rng.below(4), p);
      ctx.count("contents checks")++;
      MON_CHECK(ctx, tags, p.size() == model.size(), when << ": iteration yields " << p.size()
        << " entries, " << model.size() << " are stored");
      if (p.size() != model.size()) return;
      if (IsList && !sorted) {
        for (size_t i = 0; i < p.size(); ++i) {
          MON_CHECK(ctx, tags, p[i]->isAlive(), when << ": dead entry in the list");
          if (!p[i]->isAlive()) return;
          MON_CHECK(ctx, tags, p[i]->id == model[i].id && p[i]->exps() == model[i].e,
            when << ": entry " << i << " of the list is #" << p[i]->id << show(p[i]->exps()) << " instead of #"
            << model[i].id << show(model[i].e));
          MON_CHECK(ctx, tags, p[i]->payload == model[i].payload, when << ": entry #" << p[i]->id << " lost its data");
        }
        return;
      }
      std::vector<std::pair<u64, size_t> > want, got;
      for (size_t i = 0; i < model.size(); ++i) want.push_back(std::make_pair(model[i].id, i));
      for (size_t i = 0; i < p.size(); ++i) got.push_back(std::make_pair(p[i]->isAlive() ? p[i]->id : ~(u64)0, i));
      std::sort(want.begin(), want.end());
      std::sort(got.begin(), got.end());
      for (size_t i = 0; i < want.size(); ++i) {
        MON_CHECK(ctx, tags, want[i].first == got[i].first, when << ": entry #" << want[i].first
          << " should be there, found #" << (long long)got[i].first);
        if (want[i].first != got[i].first) return;
        const Entry& e = *p[got[i].second];
        const Rec<Exp>& r = model[want[i].second];
        MON_CHECK(ctx, tags, e.exps() == r.e, when << ": entry #" << r.id << " is " << show(e.exps())
          << " instead of " << show(r.e));
        MON_CHECK(ctx, tags, e.payload == r.payload, when << ": entry #" << r.id << " lost its data");
      }
      if (sorted) {
        for (size_t i = 1; i < p.size(); ++i)
          MON_CHECK(ctx, tags, !ordered(conf.order, *p[i], *p[i - 1], conf.varCount),
            when << ": the list is not sorted at " << i << ": " << show(p[i - 1]->exps()) << " before " << show(p[i]->exps()));
      }
    }

    // For sorted lists, the order among equal entries is whatever it is, but
    // it does not change: old is the sequence of ids before an operation.
    void relativeOrder(const std::vector<u64>& old, const char* when) {
      if (!IsList) return;
      std::vector<u64> now;
      rememberIds(now, *t, 0);
      std::unordered_map<u64, size_t> pos;
      for (size_t i = 0; i < old.size(); ++i) pos[old[i]] = i + 1;
      size_t last = 0;
      for (size_t i = 0; i < now.size(); ++i) {
        size_t p = pos.count(now[i]) ? pos[now[i]] : 0;
        if (p == 0) continue;
        MON_CHECK(ctx, "K", p > last, when << ": entries that stayed changed their relative order: "
          << showIds(old) << " to " << showIds(now));
        last = p;
      }
    }

    void compareTwin(const char* when) {
      if (!twin) return;
      std::vector<u64> a, b;
      rememberIds(a, *t, 0);
      rememberIds(b, *twin, 0);
      if (!IsList || sorted) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
      MON_CHECK(ctx, "R", a == b, when << ": contents " << showIds(a) << " differ from " << showIds(b)
        << " in the structure never rebuilt");
    }

    void fullCheck() {
      compareTwin("at the end");
      contents("K", "at the end");
      // every stored entry is found by a query
      size_t stride = model.size() / (giant ? 5 : 20) + 1;
      for (size_t i = rng.below(stride); i < model.size(); i += stride)
        allDivisors(model[i].e, 0, rng.coin());
    }

    void finish() {
      if (!IsList && rng.coin()) {
        ctx.op("finalClear");
        t->clear();
        MON_CHECK(ctx, "K", t->size() == 0 && t->empty(), "not empty after clear()");
        if (twin) twin->clear();
        model.clear();
        checkMisc();
      }
      t.reset();
      twin.reset();
      MON_CHECK(ctx, "L", watch().error.empty(), watch().error << " on destruction");
      MON_CHECK(ctx, "L", watch().live == 0, watch().live << " entries are alive after the structure was destroyed");
      ctx.count("entries constructed") += watch().constructed;
      ctx.count("divisibility tests") += watch().divides;
    }

    void logVec(const Vec& v) {
      for (size_t i = 0; i < v.size(); ++i) ctx.arg((u64)v[i]);
    }

    // Through the configuration that the structure hands out.
    void switchOptions() {
      conf.cache = rng.coin();
      conf.automatic = rng.coin();
      ctx.op("options"); ctx.arg(conf.cache); ctx.arg(conf.automatic); ctx.endl();
      t->options(conf.cache, conf.automatic);
      ctx.count("changes of options")++;
    }

    void step(Op op) {
      limit();
      ctx.count("operations")++;
      if (switching && rng.chance(1, 10)) switchOptions();
      switch (op) {
      case OpInsert: insertOne(); break;
      case OpRange: insertRange(rng.chance(1, 5) ? rng.below(2) : rng.chance(1, 5) ? rng.range(20, 120) : rng.range(2, 15)); break;
      case OpRemoveMultiples: removeMultiples(); break;
      case OpRemoveElement: removeElement(); break;
      case OpFind: find(gen.query()); break;
      case OpAllDivisors: { Vec q = gen.query(); allDivisors(q, stopPoint(), rng.coin()); break; }
      case OpAllMultiples: { Vec q = gen.query(); allMultiples(q, stopPoint(), rng.coin()); break; }
      case OpForAll: forAll(stopPoint(), rng.coin()); break;
      case OpMove: move(); break;
      case OpRebuild: rebuild(); break;
      case OpClear: if (rng.chance(1, 4)) clear(); break;
      case OpMutate: mutate(); break;
      default:
        if (model.size() < 400 || rng.chance(1, 8)) { compareTwin("check"); contents("K", "check"); }
        if (rng.chance(1, 4)) {
          MON_CHECK(ctx, "K", !t->getName().empty(), "no name");
          MON_CHECK(ctx, "K", t->varCount() == 2 * conf.varCount, "configuration lost");
        }
        break;
      }
    }

    size_t stopPoint() { return rng.chance(ctx.mode == "C07" ? 2 : 1, 4) ? rng.range(1, 6) : 0; }

    void insertOne() {
      Vec v = gen.make();
      ctx.op("insert"); ctx.arg(nextId); logVec(v); ctx.endl();
      Rec<Exp> r = {nextId++, v, 0};
      std::vector<u64> old;
      bool checkOrder = sorted && model.size() < 300 && ctx.active("K");
      if (checkOrder) rememberIds(old, *t, 0);
      if (!IsList && dups[v] >= kind.cap) {
        // More identical entries than a leaf can hold: refused without
        // effect, unless they happen to fit after all.
#ifndef MATHIC_DEBUG
        if (rng.chance(1, 2)) {
          bool thrown = false;
          try { Entry e(r.id, v); t->insert(e); }
          catch (const std::logic_error&) { thrown = true; }
          if (!thrown) {
            model.push_back(r);
            ++dups[v];
            rangeInserted(model.size() - 1, 1);
            if (twin) twinInsertMaybe(r);
          } else {
            afterThrow();
            ctx.count("refused insertions")++;
            contents("K", "after a refused insertion");
          }
        }
#endif
        return;
      }
      { Entry e(r.id, v); changing(); t->insert(e); changed(1, "insert"); if (twin) twin->insert(e); }
      model.push_back(r);
      ++dups[v];
      if (checkOrder) relativeOrder(old, "insert");
    }
    void twinInsertMaybe(const Rec<Exp>& r) {
      try { Entry e(r.id, r.e); twin->insert(e); }
      catch (const std::logic_error&) { twin.reset(); }
    }

    void insertRange(size_t n) {
      ctx.op("insertRange"); ctx.arg(n);
      std::vector<Rec<Exp> > recs;
      for (size_t i = 0; i < n; ++i) {
        Vec v = gen.make();
        if (!IsList && dups[v] >= kind.cap) continue;
        ++dups[v];
        Rec<Exp> r = {nextId++, v, 0};
        recs.push_back(r);
        logVec(v);
      }
      ctx.endl();
      std::vector<u64> old;
      bool checkOrder = sorted && !model.empty() && model.size() < 300 && ctx.active("K");
      if (checkOrder) rememberIds(old, *t, 0);
      {
        unsigned how = (unsigned)rng.below(2);
        std::vector<Entry> entries;
        for (size_t i = 0; i < recs.size(); ++i) entries.push_back(Entry(recs[i].id, recs[i].e));
        if (twin)
          for (size_t i = 0; i < entries.size(); ++i) twin->insert(entries[i]);
        t->insert(entries, how);
        rangeInserted(model.size(), recs.size());
      }
      model.insert(model.end(), recs.begin(), recs.end());
      if (checkOrder) relativeOrder(old, "insertRange");
    }

    std::vector<u64> multiplesOf(const Vec& q) const {
      std::vector<u64> r;
      for (size_t i = 0; i < model.size(); ++i)
        if (vdivides(q, model[i].e)) r.push_back(model[i].id);
      return r;
    }
    std::vector<u64> divisorsOf(const Vec& q) const {
      std::vector<u64> r;
      for (size_t i = 0; i < model.size(); ++i)
        if (vdivides(model[i].e, q)) r.push_back(model[i].id);
      return r;
    }

    void eraseFromModel(const std::vector<u64>& ids) {
      std::unordered_set<u64> s(ids.begin(), ids.end());
      size_t j = 0;
      for (size_t i = 0; i < model.size(); ++i) {
        if (s.count(model[i].id)) { --dups[model[i].e]; continue; }
        if (i != j) model[j] = model[i];
        ++j;
      }
      model.resize(j);
    }

    void removeMultiples() {
      Vec q = gen.query();
      if (model.size() > 10 && rng.chance(3, 4)) { // keep some
        size_t best = ~(size_t)0;
        for (int k = 0; k < 4; ++k) {
          Vec c = gen.query();
          size_t m = multiplesOf(c).size();
          if (m > 0 && m < best) { best = m; q = c; }
        }
      }
      bool out = rng.coin();
      ctx.op(out ? "removeMultiplesTo" : "removeMultiples"); logVec(q); ctx.endl();
      std::vector<u64> want = multiplesOf(q), old;
      bool checkOrder = sorted && model.size() < 300 && ctx.active("K");
      if (checkOrder) rememberIds(old, *t, 0);
      Monomial m(q);
      Removed<Entry> rec;
      bool result;
      changing();
      if (out) result = t->removeMultiples(m, rec);
      else result = t->removeMultiples(m);
      changed(want.size(), "removeMultiples");
      if (twin) {
        Removed<Entry> rec2;
        bool result2 = twin->removeMultiples(m, rec2);
        MON_CHECK(ctx, "R", result == result2, "removeMultiples returned " << result << ", and " << result2
          << " in the structure never rebuilt");
        if (out) {
          std::vector<u64> a = rec.ids, b = rec2.ids;
          std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
          MON_CHECK(ctx, "R", a == b, "removeMultiples" << show(q) << " removed " << showIds(a) << ", and "
            << showIds(b) << " in the structure never rebuilt");
        }
      }
      MON_CHECK(ctx, "K", result == !want.empty(), "removeMultiples" << show(q) << " returned " << result << " but there were "
        << want.size() << " multiples");
      if (out) {
        MON_CHECK(ctx, "L K", !rec.dead, "removeMultiples reported a dead entry");
        std::vector<u64> a = rec.ids, b = want;
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        MON_CHECK(ctx, "K", a == b, "removeMultiples" << show(q) << " reported " << showIds(a) << " instead of " << showIds(b));
      }
      eraseFromModel(want);
      removals += want.size();
      ctx.count("entries removed") += want.size();
      if (model.size() < 500 || rng.chance(1, 8)) contents("K", "after removeMultiples");
      if (checkOrder) relativeOrder(old, "removeMultiples");
    }

    void removeElement() {
      Vec q;
      if (!model.empty() && rng.chance(3, 4)) {
        q = model[rng.below(model.size())].e;
        if (rng.chance(1, 5)) { size_t i = rng.below(q.size()); q[i] = rng.coin() ? gen.up(q[i]) : gen.down(q[i]); }
      } else q = gen.query();
      ctx.op("removeElement"); logVec(q); ctx.endl();
      std::vector<u64> old;
      bool small = model.size() < 500;
      if (small) rememberIds(old, *t, 0);
      size_t count = 0;
      for (size_t i = 0; i < model.size(); ++i) count += model[i].e == q;
      Monomial m(q);
      changing();
      bool result = t->removeElement(m);
      changed(count > 0, "removeElement");
      if (twin) {
        bool result2 = twin->removeElement(m);
        MON_CHECK(ctx, "R", result == result2, "removeElement" << show(q) << " returned " << result << ", and "
          << result2 << " in the structure never rebuilt");
      }
      MON_CHECK(ctx, "K", result == (count > 0), "removeElement" << show(q) << " returned " << result << " but there were "
        << count << " such entries");
      if (count > 0) {
        // which one was removed is not specified
        std::vector<u64> now;
        rememberIds(now, *t, 0);
        std::unordered_set<u64> s(now.begin(), now.end());
        std::vector<u64> gone;
        for (size_t i = 0; i < model.size(); ++i)
          if (!s.count(model[i].id)) gone.push_back(model[i].id);
        MON_CHECK(ctx, "K", gone.size() == 1, "removeElement" << show(q) << " removed " << gone.size() << " entries: " << showIds(gone));
        if (gone.size() == 1)
          MON_CHECK(ctx, "K", model[indexOf(gone[0])].e == q, "removeElement" << show(q) << " removed " << show(model[indexOf(gone[0])].e));
        if (gone.size() != 1 || model[indexOf(gone[0])].e != q) {
          MON_MUST(ctx, "K", count == 1, "removeElement" << show(q) << " was wrong");
          gone.clear();
          for (size_t i = 0; i < model.size(); ++i)
            if (model[i].e == q) gone.push_back(model[i].id);
        }
        if (twin && count > 1) {
          // the twin may have removed another of the identical entries
          resyncTwin();
        }
        eraseFromModel(gone);
        ++removals;
        ctx.count("entries removed")++;
      }
      if (small) {
        contents("K", "after removeElement");
        relativeOrder(old, "removeElement");
      }
    }

    // Makes the twin hold the same ids where identical entries can differ.
    void resyncTwin() {
      std::vector<u64> now;
      rememberIds(now, *t, 0);
      std::vector<u64> b;
      rememberIds(b, *twin, 0);
      std::sort(now.begin(), now.end());
      std::sort(b.begin(), b.end());
      if (now != b) twin.reset(); // the comparison ends here, quietly
    }

    void checkReturned(const char* tags, const Entry* p, const Vec& q, bool exists) {
      MON_CHECK(ctx, tags, (p != 0) == exists, "findDivisor" << show(q) << (p ? " returned an entry" : " returned nothing")
        << (exists ? ", there is a divisor" : ", there is no divisor") << state());
      if (p == 0) return;
      ++hits;
      MON_CHECK(ctx, tags, p->isAlive(), "findDivisor" << show(q) << " returned a dead entry" << state());
      if (!p->isAlive()) return;
      size_t i = indexOf(p->id);
      MON_CHECK(ctx, tags, i < model.size(), "findDivisor" << show(q) << " returned entry #" << p->id << " which is not stored");
      if (i == model.size()) return;
      MON_CHECK(ctx, tags, p->exps() == model[i].e, "findDivisor returned entry #" << p->id << " with other exponents");
      MON_CHECK(ctx, tags, vdivides(model[i].e, q), "findDivisor" << show(q) << " returned " << show(model[i].e)
        << " which does not divide it");
      if (model.size() < 200 || rng.chance(1, 10)) {
        std::vector<const Entry*> all;
        t->iterate(0, all);
        bool found = std::find(all.begin(), all.end(), p) != all.end();
        MON_CHECK(ctx, tags, found, "findDivisor" << show(q) << " returned an address that is not that of a stored entry");
      }
    }

    void find(const Vec& q) {
      unsigned how = (unsigned)rng.below(IsList ? 3 : 2);
      ctx.op("find"); ctx.arg(how); logVec(q); ctx.endl();
      ctx.count("queries")++;
      std::vector<u64> ds = divisorsOf(q);
      Monomial m(q);
      unsigned repeat = ctx.mode == "C08" ? 2 : 1;
      for (unsigned k = 0; k < repeat; ++k) {
        u64 before = watch().divides;
        const Entry* p;
        if (how == 0) p = t->findDivisor(m);
        else if (how == 1) p = t->findDivisorConst(m);
        else p = t->findDivisorIterator(m);
        u64 tests = watch().divides - before;
#ifndef MATHIC_DEBUG
        MON_COST(ctx, "N", tests <= model.size() + (conf.cache ? 1 : 0),
          "findDivisor made " << tests << " divisibility tests on " << model.size() << " entries");
#endif
        if (tests < model.size()) ctx.count("queries that skipped entries")++;
        if (twin) {
          const Entry* p2 = twin->findDivisor(m);
          MON_CHECK(ctx, "R", (p != 0) == (p2 != 0), "findDivisor" << show(q) << (p ? " finds" : " does not find")
            << " a divisor, unlike the structure never rebuilt");
          if (p != 0) MON_CHECK(ctx, "R", p->isAlive() && vdivides(p->exps(), q), "findDivisor" << show(q)
            << " returned no divisor after rebuilds");
        }
        if (p != 0) ctx.count("divisors found")++;
        checkReturned("Q D", p, q, !ds.empty());
        if (rng.chance(1, 3)) break;
      }
    }

    void visitResult(const char* what, const Vec& q, const Visitor<Entry>& v, std::vector<u64> want, size_t stop) {
      ++ctx.count("visits");
      if (v.stopped) ctx.count("visits cut short")++;
      MON_CHECK(ctx, "V", !v.calledAfterStop, what << show(q) << " called the visitor after it asked to stop");
      std::vector<u64> got = v.ids;
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      MON_CHECK(ctx, "V Q", v.dead.empty(), what << show(q) << " visited a dead entry");
      for (size_t i = 1; i < got.size(); ++i)
        MON_CHECK(ctx, "V Q", got[i] != got[i - 1], what << show(q) << " visited entry #" << got[i] << " twice");
      bool cut = stop != 0 && want.size() >= stop;
      if (cut) {
        MON_CHECK(ctx, "V", got.size() == stop || v.calledAfterStop, what << show(q) << " visited " << got.size()
          << " entries, the visitor was to stop after " << stop << " of " << want.size());
        for (size_t i = 0; i < got.size(); ++i)
          MON_CHECK(ctx, "V Q", std::binary_search(want.begin(), want.end(), got[i]),
            what << show(q) << " visited #" << (long long)got[i] << " which does not match");
      } else {
        MON_CHECK(ctx, "V Q", got == want, what << show(q) << " visited " << showIds(got) << " instead of " << showIds(want));
      }
      hits += want.size();
      if (ctx.mode == "C07" && (model.size() < 300 || rng.chance(1, 10)))
        contents("V", what);
    }

    void allDivisors(const Vec& q, size_t stop, bool constant) {
      limit();
      ctx.op(constant ? "allDivisorsConst" : "allDivisors"); ctx.arg(stop); logVec(q); ctx.endl();
      Monomial m(q);
      Visitor<Entry> v(stop);
      u64 before = watch().divides;
      t->findAllDivisors(m, v, constant);
      u64 tests = watch().divides - before;
#ifndef MATHIC_DEBUG
      MON_COST(ctx, "N", tests <= model.size(), "findAllDivisors made " << tests << " divisibility tests on " << model.size() << " entries");
#endif
      twinVisit(q, v, stop, true);
      visitResult("findAllDivisors", q, v, divisorsOf(q), stop);
      StepLimit::set(0);
    }

    void allMultiples(const Vec& q, size_t stop, bool constant) {
      ctx.op(constant ? "allMultiplesConst" : "allMultiples"); ctx.arg(stop); logVec(q); ctx.endl();
      Monomial m(q);
      Visitor<Entry> v(stop);
      u64 before = watch().divides;
      t->findAllMultiples(m, v, constant);
      u64 tests = watch().divides - before;
#ifndef MATHIC_DEBUG
      MON_COST(ctx, "N", tests <= model.size(), "findAllMultiples made " << tests << " divisibility tests on " << model.size() << " entries");
#endif
      twinVisit(q, v, stop, false);
      visitResult("findAllMultiples", q, v, multiplesOf(q), stop);
    }

    void twinVisit(const Vec& q, const Visitor<Entry>& v, size_t stop, bool divisors) {
      if (!twin) return;
      Monomial m(q);
      Visitor<Entry> v2(stop);
      if (divisors) twin->findAllDivisors(m, v2, false);
      else twin->findAllMultiples(m, v2, false);
      std::vector<u64> a = v.ids, b = v2.ids;
      if (stop == 0) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
      MON_CHECK(ctx, "R", stop == 0 ? a == b : a.size() == b.size(), (divisors ? "findAllDivisors" : "findAllMultiples") << show(q)
        << " visits " << showIds(a) << ", and " << showIds(b) << " in the structure never rebuilt");
    }

    void forAll(size_t stop, bool constant) {
      ctx.op(constant ? "forAllConst" : "forAll"); ctx.arg(stop); ctx.endl();
      Visitor<Entry> v(stop);
      t->forAll(v, constant);
      std::vector<u64> want;
      for (size_t i = 0; i < model.size(); ++i) want.push_back(model[i].id);
      if (stop == 0) {
        std::vector<u64> got = v.ids, w2 = want;
        std::sort(got.begin(), got.end()); std::sort(w2.begin(), w2.end());
        MON_CHECK(ctx, "K V", got == w2, "forAll visited " << showIds(got) << " instead of " << showIds(w2));
      }
      visitResult("forAll", Vec(), v, want, stop);
    }

    void move() {
      if (model.empty()) return;
      size_t i = rng.below(model.size());
      if (rng.chance(1, 6)) i = rng.coin() ? 0 : model.size() - 1;
      ctx.op("moveToFront"); ctx.arg(i); ctx.endl();
      t->moveToFront(i);
      if (twin) twin->moveToFront(i);
      Rec<Exp> r = model[i];
      model.erase(model.begin() + i);
      model.insert(model.begin(), r);
      if (model.size() < 300) contents("K", "after moveToFront");
    }

    void rebuild() {
      ctx.op("rebuild"); ctx.endl();
      ctx.count("explicit rebuilds")++;
      std::vector<u64> old;
      bool checkOrder = IsList && model.size() < 300;
      if (checkOrder) rememberIds(old, *t, 0);
      t->rebuild();
      due.reset(t->size());
      ++rebuilds;
      if (checkOrder) {
        std::vector<u64> now;
        rememberIds(now, *t, 0);
        MON_CHECK(ctx, "R K", now == old, "rebuild changed the contents from " << showIds(old) << " to " << showIds(now));
      }
      compareTwin("after rebuild");
      if (ctx.mode == "C06" && model.size() < 300) contents("R", "after rebuild");
    }

    void clear() {
      ctx.op("clear"); ctx.endl();
      t->clear();
      due.reset(0);
      if (twin) twin->clear();
      removals += model.size();
      model.clear();
      dups.clear();
      MON_CHECK(ctx, "K", t->empty() && t->size() == 0, "not empty after clear()");
      contents("K", "after clear");
    }

    // Entries may be changed as long as their monomial stays the same.
    void mutate() {
      Vec q = gen.query();
      ctx.op("mutate"); logVec(q); ctx.endl();
      Monomial m(q);
      Entry* p = t->findDivisor(m);
      checkReturned("Q D", p, q, !divisorsOf(q).empty());
      if (p == 0 || !p->isAlive()) return;
      size_t i = indexOf(p->id);
      if (i == model.size()) return;
      if (twin && dups[model[i].e] > 1) return;
      p->payload = ++model[i].payload;
    }
  };

  template<class Exp> void divCase(Ctx& ctx, const Kind<Exp>& kind) {
    Engine<Exp> e(ctx, kind);
    e.run();
  }
#if MON_PART == 0
  template void divCase<int>(Ctx&, const Kind<int>&);
#elif MON_PART == 1
  template void divCase<unsigned char>(Ctx&, const Kind<unsigned char>&);
#elif MON_PART == 2
  template void divCase<long long>(Ctx&, const Kind<long long>&);
#else
  template void divCase<unsigned>(Ctx&, const Kind<unsigned>&);
#endif
}
