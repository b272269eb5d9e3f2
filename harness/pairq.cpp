// The pair queue.
//
// Oracles:
//  P order and delivery of pairs, counts, data of the top
//  T retirement (together with P when indices are retired)
//  S life of the pair data
//  F a failed addition changes nothing
//  N numbers of comparisons and computations
//  M reported memory use
#include <mathic/PairQueue.h>
#include "mon.h"
#include <list>
#include <memory>
#if defined(MON_MEMORY) || defined(MON_ALLOC)
#include "mem_hook.h"
#define MON_SCOPE mon::MemScope mon_scope;
#define MON_PAUSE mon::MemPause mon_pause;
#else
#define MON_SCOPE
#define MON_PAUSE
#endif

namespace pqmon {
  using mon::Ctx; using mon::Rng; using mon::u64; using mon::mix;
  typedef unsigned Index;
  typedef std::pair<size_t, size_t> Pair;
  struct Fault : std::exception { const char* what() const noexcept { return "injected"; } };

  struct State {
    u64 seed; unsigned order; u64 width;
    u64 comps, computed;
    long failAt;                 // computations until one throws, 0 for never
    bool failAfter;              // after the computation instead of before
    u64 faults;
    std::string error;           // misuse of pair data
    std::string computeError;    // computations that must not be
    std::map<const void*, Pair> live; // pair data objects and what they describe
    bool inConstruct, inDestruct;
    bool trackTimes;
    std::unordered_map<u64, unsigned> times; // computations of each pair
    const std::vector<char>* retired;
    static State& get() { return mon::perCase<State>(); }
    void reset() {
      comps = computed = faults = 0; failAt = 0; failAfter = false;
      error.clear(); computeError.clear(); live.clear(); inConstruct = inDestruct = false; times.clear(); retired = 0;
    }
    int64_t key(u64 c, u64 r) const {
      switch (order) {
        case 0: return (int64_t)(mix(seed ^ mix(c * 0x10001 + r * 7)) % width);
        case 1: return (int64_t)(mix(seed ^ c) % width);
        case 2: return (int64_t)(mix(seed ^ r) % width);
        case 3: return (int64_t)(c / width * 100000 + r);
        case 4: return -(int64_t)(c / width * 100000) - (int64_t)r;
        case 5: return 0;
        default: return (int64_t)((mix(seed ^ c) % width) * (mix(seed ^ r) % width));
      }
    }
    void say(const std::string& s) { if (error.empty()) error = s; }
    static std::string str(Pair p) { return "(" + std::to_string((unsigned long)p.first) + "," + std::to_string((unsigned long)p.second) + ")"; }
    void born(const void* p, Pair d) {
      MON_PAUSE
      if (!live.insert(std::make_pair(p, d)).second) say("pair data is constructed where pair data is alive");
    }
    void died(const void* p) {
      MON_PAUSE
      if (live.erase(p) == 0) say("pair data is destructed that is not alive");
    }
    void describe(const void* p, Pair d) {
      MON_PAUSE
      std::map<const void*, Pair>::iterator it = live.find(p);
      if (it == live.end()) say("pair data is computed in an object that is not alive, for " + str(d));
      else it->second = d;
    }
    void compute(Pair d) {
      MON_PAUSE
      ++computed;
      if (d.first <= d.second && error.empty()) say("pair data is computed for " + str(d));
      if (retired != 0 && ((d.first < retired->size() && (*retired)[d.first]) || (d.second < retired->size() && (*retired)[d.second])))
        if (computeError.empty()) computeError = "pair data is computed for " + str(d) + ", which is retired";
      if (trackTimes) ++times[d.first * 1000003ull + d.second];
    }
    bool fault() { // whether the computation that is next fails
      if (failAt == 0 || --failAt != 0) return false;
      ++faults;
      return true;
    }
    void compared(const void* p, Pair d, const char* which) {
      MON_PAUSE
      std::map<const void*, Pair>::iterator it = live.find(p);
      if (it == live.end()) say(std::string("the ") + which + " pair data of a comparison is not alive, for " + str(d));
      else if (it->second != d) say(std::string("the ") + which + " pair data of a comparison is for " + str(it->second) + " but " + str(d) + " is compared");
    }
  };
  const Pair None((size_t)-1, (size_t)-1);

  // Pair data that owns memory and is default-constructed.
  struct Data {
    Data(): heap(static_cast<u64*>(malloc(sizeof(u64)))), col(~0u), row(~0u) { *heap = 0; State::get().born(this, None); }
    Data(const Data&) = delete;
    ~Data() { free(heap); heap = 0; State::get().died(this); }
    void set(Index c, Index r) { col = c; row = r; *heap = mix(c * 31337ull + r); State::get().describe(this, Pair(c, r)); }
    bool ok(Index c, Index r) const { return heap != 0 && col == c && row == r && *heap == mix(c * 31337ull + r); }
    u64* heap;
    Index col, row;
  };
  // Pair data that can not be default-constructed.
  struct Special {
    Special(Index c, Index r, State& s): heap(static_cast<u64*>(malloc(sizeof(u64)))), col(c), row(r) {
      *heap = mix(c * 31337ull + r);
      if (!s.inConstruct) s.say("pair data is constructed other than by the construction function");
      s.born(this, Pair(c, r));
    }
    Special(const Special&) = delete;
    ~Special() {
      if (!State::get().inDestruct) State::get().say("pair data is destructed other than by the destruction function");
      free(heap);
      heap = 0;
      State::get().died(this);
    }
    void set(Index c, Index r) { col = c; row = r; *heap = mix(c * 31337ull + r); State::get().describe(this, Pair(c, r)); }
    bool ok(Index c, Index r) const { return heap != 0 && col == c && row == r && *heap == mix(c * 31337ull + r); }
    u64* heap;
    Index col, row;
  };
  struct Empty {
    bool ok(Index, Index) const { return true; }
  };
  inline void set(Data& d, Index c, Index r) { d.set(c, r); }
  inline void set(Special& d, Index c, Index r) { d.set(c, r); }
  inline void set(Empty&, Index, Index) {}
  inline void seen(const Data& d, Index c, Index r, const char* w) { State::get().compared(&d, Pair(c, r), w); }
  inline void seen(const Special& d, Index c, Index r, const char* w) { State::get().compared(&d, Pair(c, r), w); }
  inline void seen(const Empty&, Index, Index, const char*) {}

  // Kind makes different configurations of the same shape.
  template<class PD, int Kind> struct Conf {
    typedef PD PairData;
    typedef int CompareResult;
    Conf(): s(&State::get()) {}
    void computePairData(size_t col, size_t row, PD& pd) {
      mon::mayYield();
      s->compute(Pair(col, row));
      bool f = s->fault();
      if (f && !s->failAfter) throw Fault();
      set(pd, (Index)col, (Index)row);
      if (f) throw Fault();
    }
    int compare(size_t c1, size_t r1, const PD& p1, size_t c2, size_t r2, const PD& p2) const {
      mon::mayYield();
      ++s->comps;
      seen(p1, (Index)c1, (Index)r1, "first");
      seen(p2, (Index)c2, (Index)r2, "second");
      int64_t a = s->key(c1, r1), b = s->key(c2, r2);
      return a < b ? -1 : a > b ? 1 : 0;
    }
    bool cmpLessThan(int v) const { return v < 0; }
    State* s;
  };
  typedef Conf<Data, 0> Plain;
  typedef Conf<Data, 1> NoRetire;
  typedef Conf<Special, 2> Spec;
  typedef Conf<Special, 3> SpecNoRetire;
  typedef Conf<Empty, 4> NoData;
}

namespace mathic {
  namespace PairQueueNamespace {
    template<int K> struct ConstructPairDataFunction<pqmon::Conf<pqmon::Special, K> > {
      static void function(void* memory, Index col, Index row, pqmon::Conf<pqmon::Special, K>& conf) {
        pqmon::State& s = *conf.s;
        s.compute(pqmon::Pair(col, row));
        if (s.fault()) throw pqmon::Fault();
        s.inConstruct = true;
        new (memory) pqmon::Special(col, row, s);
        s.inConstruct = false;
      }
    };
    template<int K> struct DestructPairDataFunction<pqmon::Conf<pqmon::Special, K> > {
      static void function(pqmon::Special* pd, Index col, Index row, pqmon::Conf<pqmon::Special, K>& conf) {
        pqmon::State& s = *conf.s;
        {
          MON_PAUSE
          std::map<const void*, pqmon::Pair>::iterator it = s.live.find(pd);
          if (it == s.live.end()) s.say("the destruction function got pair data that is not alive");
          else if (it->second != pqmon::Pair(col, row))
            s.say("the destruction function is told the pair " + s.str(pqmon::Pair(col, row)) + " but the data is for " + s.str(it->second));
          else if (pd->heap == 0) s.say("the destruction function got pair data that was destructed before");
          if (it == s.live.end()) return;
        }
        s.inDestruct = true;
        pd->~Special();
        s.inDestruct = false;
      }
    };
    template<> struct SupportRetirement<pqmon::NoRetire> { static bool const value = false; };
    template<> struct SupportRetirement<pqmon::SpecNoRetire> { static bool const value = false; };
  }
}

namespace pqmon {
  enum Op { OpAdd, OpPop, OpRetire, OpFail, OpDrain, OpMany };
  struct Step { Op op; u64 seed; size_t n; };

  template<class C> struct Engine {
    typedef mathic::PairQueue<C> PQ;
    Ctx& ctx;
    State& s;
    std::unique_ptr<PQ> q;
    bool canRetire, faults, hasData;
    std::vector<char> retired;
    size_t cols, livePairs;
    std::set<Pair> pairs;
    std::map<int64_t, std::set<Pair> > byKey;
    std::map<size_t, std::set<Pair> > byIndex;
    bool anyRetired;
    size_t prelude;
    bool longColumns; // with more rows than fit 16 bits
    std::vector<size_t> liveIdx; // indices that are not retired (with a large prelude: a selection)
    size_t nonEmptyColumns;
    size_t liveBase;
    bool checkCosts;

    explicit Engine(Ctx& c): ctx(c), s(State::get()) {
      hasData = !std::is_same<typename C::PairData, Empty>::value;
    }

    std::string show(Pair p) const { return State::str(p); }
    const char* order() const { return anyRetired ? "T" : "P"; }

    void drop(Pair p) {
      pairs.erase(p);
      std::map<int64_t, std::set<Pair> >::iterator it = byKey.find(s.key(p.first, p.second));
      it->second.erase(p);
      if (it->second.empty()) byKey.erase(it);
      byIndex[p.first].erase(p);
      byIndex[p.second].erase(p);
    }
    void addPair(Pair p) {
      pairs.insert(p);
      byKey[s.key(p.first, p.second)].insert(p);
      byIndex[p.first].insert(p);
      byIndex[p.second].insert(p);
    }

    void check(Rng& r, bool full) {
      MON_CHECK(ctx, "S", s.error.empty(), s.error);
      MON_CHECK(ctx, "T", s.computeError.empty(), s.computeError);
      bool e = q->empty();
      MON_MUST(ctx, order(), e == pairs.empty(), "empty() is " << e << " with " << pairs.size() << " pairs of live indices inside");
      MON_CHECK(ctx, order(), q->columnCount() == cols, "columnCount() is " << q->columnCount() << " but " << cols << " columns were added");
      if (full) {
        size_t n = q->pairCount();
        if (anyRetired) MON_CHECK(ctx, "T", n >= pairs.size(), "pairCount() is " << n << " with " << pairs.size() << " pairs of live indices inside");
        else MON_CHECK(ctx, "P", n == pairs.size(), "pairCount() is " << n << " with " << pairs.size() << " pairs inside");
      }
      if (!e) {
        Pair p = q->topPair();
        if (anyRetired) MON_CHECK(ctx, "T", p.first < cols && p.second < cols && !retired[p.first] && !retired[p.second], "the top pair is " << show(p) << ", which is retired");
        MON_CHECK(ctx, order(), pairs.count(p) != 0, "the top pair is " << show(p) << ", which was not added or was popped before");
        int64_t k = s.key(p.first, p.second), max = byKey.rbegin()->first;
        MON_CHECK(ctx, order(), k == max, "the top pair is " << show(p) << " but " << show(*byKey.rbegin()->second.begin()) << " is larger");
        const typename C::PairData& pd = q->topPairData();
        MON_CHECK(ctx, order(), pd.ok((Index)p.first, (Index)p.second), "the data of the top pair " << show(p) << " is not for that pair");
        if (hasData) {
          std::map<const void*, Pair>::iterator it = s.live.find(&pd);
          MON_CHECK(ctx, "S", it != s.live.end() && it->second == p, "the data of the top pair is not alive or for another pair");
        }
      }
      if (cols > 0) {
        size_t tries = full ? 20 : 2;
        for (size_t i = 0; i < tries; ++i) {
          size_t x = i == 0 ? cols - 1 : r.below(cols);
          MON_CHECK(ctx, "T", q->retired(x) == (retired[x] != 0), "retired(" << x << ") is " << q->retired(x));
        }
      }
    }

    template<class T> void addAs(const std::vector<size_t>& rows, unsigned how) {
      std::vector<T> v(rows.begin(), rows.end());
      if (how == 0) { MON_SCOPE q->addColumnDescending(v.begin(), v.end()); }
      else if (how == 1) { const T* p = v.data(); MON_SCOPE q->addColumnDescending(p, p + v.size()); }
      else { std::list<T> l(rows.begin(), rows.end()); MON_SCOPE q->addColumnDescending(l.begin(), l.end()); }
    }
    void rawAdd(const std::vector<size_t>& rows, Rng& r) {
      unsigned how = (unsigned)r.below(3);
      switch (r.below(3)) {
        case 0: addAs<size_t>(rows, how); break;
        case 1: addAs<unsigned>(rows, how); break;
        default: addAs<int>(rows, how);
      }
    }
    static unsigned log2ceil(u64 n) { unsigned x = 0; while ((u64(1) << x) < n) ++x; return x; }

    std::vector<size_t> makeRows(Rng& r, size_t n) {
      std::set<size_t> rows;
      if (!liveIdx.empty()) {
        bool all = r.chance(1, 6) && liveIdx.size() < 80;
        if (n > 2 * liveIdx.size()) all = true; // a long column
        if (all) rows.insert(liveIdx.begin(), liveIdx.end());
        else for (size_t i = 0; i < n; ++i) rows.insert(r.chance(1, 4) ? liveIdx[liveIdx.size() - 1 - r.below(std::min<size_t>(4, liveIdx.size()))] : r.pick(liveIdx));
      }
      std::vector<size_t> v(rows.begin(), rows.end());
      r.shuffle(v);
      size_t c = cols;
      State& st = s;
      std::stable_sort(v.begin(), v.end(), [c, &st](size_t a, size_t b) { return st.key(c, a) > st.key(c, b); });
      return v;
    }

    void add(Rng& r, size_t n) {
      std::vector<size_t> rows = makeRows(r, n);
      u64 before = s.comps, cb = s.computed;
      rawAdd(rows, r);
      for (size_t i = 0; i < rows.size(); ++i) addPair(Pair(cols, rows[i]));
      if (!rows.empty()) ++nonEmptyColumns;
      retired.push_back(0);
      liveIdx.push_back(cols);
      ++cols;
      ctx.count("pairs added") += rows.size();
      if (checkCosts) {
        MON_COST(ctx, "N", s.comps - before <= 3 * log2ceil(nonEmptyColumns + 2) + 6, "addColumnDescending made " << s.comps - before << " comparisons with " << nonEmptyColumns << " columns");
        MON_COST(ctx, "N", s.computed - cb <= 1, "addColumnDescending computed the data of " << s.computed - cb << " pairs");
      }
    }

    void succeeded(const std::vector<size_t>& rows) {
      for (size_t i = 0; i < rows.size(); ++i) addPair(Pair(cols, rows[i]));
      if (!rows.empty()) ++nonEmptyColumns;
      retired.push_back(0);
      liveIdx.push_back(cols);
      ++cols;
    }
    // Memory must not pile up when the same addition fails again and again.
    void repeatedFailures(Rng& r, size_t n) {
      std::vector<size_t> rows = makeRows(r, n);
      if (rows.empty()) return;
      ctx.count("repeated failures")++;
      size_t mem = 0;
      for (unsigned i = 0; i < 400; ++i) {
        s.failAt = 1;
        bool thrown = false;
        try { addAs<size_t>(rows, 0); } catch (const Fault&) { thrown = true; }
        s.failAt = 0;
        if (thrown) mon::afterThrow();
        MON_MUST(ctx, "F", thrown, "the exception from computing pair data did not reach the caller");
        if (i == 20) mem = q->getMemoryUse();
      }
      MON_CHECK(ctx, "F", q->getMemoryUse() <= mem, "getMemoryUse() went from " << mem << " to " << q->getMemoryUse() << " when an addition failed again and again");
    }

    void failingAdd(Rng& r, size_t n) {
      if (r.chance(1, 25)) { repeatedFailures(r, std::min<size_t>(n, 200)); return; }
#ifdef MON_ALLOC
      if (r.coin()) {
        // Go on adding until an allocation fails, then some more.
        size_t times = r.range(1, 20), failures = r.range(1, 3);
        for (size_t i = 0; i < times && failures > 0; ++i) {
          std::vector<size_t> rows = makeRows(r, i % 5 == 4 ? n : r.range(0, 6));
          if (failAllocation(r, rows)) --failures;
          check(r, i % 4 == 0);
        }
        return;
      }
#endif
      std::vector<size_t> rows = makeRows(r, n);
      if (rows.empty()) return;
      failWith(r, rows, false);
    }
    bool failAllocation(Rng& r, const std::vector<size_t>& rows) { return failWith(r, rows, true); }
    // whether it failed
    bool failWith(Rng& r, const std::vector<size_t>& rows, bool alloc) {
      bool e = q->empty();
      size_t count = q->pairCount(), columns = q->columnCount();
      Pair top = e ? None : q->topPair();
      std::map<const void*, Pair> live = s.live;
      std::vector<char> ret;
      for (size_t i = 0; i < cols; ++i) ret.push_back(i + 300 > cols || i < 300 ? q->retired(i) : retired[i]);
      s.failAt = 1;
#ifdef MATHIC_DEBUG
      if (!rows.empty()) s.failAt = 1 + (long)r.below(2 * rows.size());
#endif
      s.failAfter = r.coin();
      bool thrown = false;
#ifdef MON_ALLOC
      if (alloc) { 
        s.failAt = 0;
        mon::MemHook::failAt() = 1 + (long)(r.chance(1, 3) ? r.below(3) : 0);
      }
      try { rawAdd(rows, r); } catch (const Fault&) { thrown = !alloc; } catch (const std::bad_alloc&) { thrown = alloc; }
      if (alloc) s.failAt = mon::MemHook::failAt();
      mon::MemHook::failAt() = 0;
#else
      try { rawAdd(rows, r); } catch (const Fault&) { thrown = true; }
#endif
      if (thrown) mon::afterThrow();
      bool pending = s.failAt != 0;
      s.failAt = 0;
      if (pending) { // it was not reached
        MON_CHECK(ctx, "F", !thrown, "an exception came from nowhere");
        succeeded(rows);
        return false;
      }
      ctx.count(alloc ? "failed allocations" : "failed additions")++;
      MON_CHECK(ctx, "F", thrown, "the exception " << (alloc ? "of a failed allocation" : "from computing pair data") << " did not reach the caller");
      MON_CHECK(ctx, "F", q->columnCount() == columns, "columnCount() went from " << columns << " to " << q->columnCount() << " in a failed addition");
      MON_CHECK(ctx, "F", q->pairCount() == count, "pairCount() went from " << count << " to " << q->pairCount() << " in a failed addition");
      MON_CHECK(ctx, "F", q->empty() == e, "empty() is " << q->empty() << " after a failed addition");
      MON_CHECK(ctx, "F", e || q->topPair() == top, "the top pair changed in a failed addition");
      for (size_t i = 0; i < cols; ++i)
        if (i + 300 > cols || i < 300)
          MON_CHECK(ctx, "F", q->retired(i) == (ret[i] != 0), "retired(" << i << ") changed in a failed addition");
      MON_CHECK(ctx, "F", s.live == live, "there are " << s.live.size() << " pair data objects after a failed addition, " << live.size() << " before, or they changed");
      MON_CHECK(ctx, "F S", s.error.empty(), s.error);
      return true;
    }

    void pop() {
      if (pairs.empty()) return;
      Pair p = q->topPair();
      MON_MUST(ctx, order(), pairs.count(p) != 0, "the top pair is " << show(p) << ", which was not added or was popped before");
      u64 before = s.comps;
      size_t mem = q->getMemoryUse();
      { MON_SCOPE q->pop(); }
      drop(p);
      ctx.count("pairs popped")++;
      if (checkCosts && !anyRetired)
        MON_COST(ctx, "N", s.comps - before <= 3 * log2ceil(nonEmptyColumns + 2) + 6, "pop made " << s.comps - before << " comparisons with " << nonEmptyColumns << " columns");
      MON_CHECK(ctx, "M", q->getMemoryUse() <= mem, "pop made getMemoryUse() grow from " << mem << " to " << q->getMemoryUse());
    }

    void retire(Rng& r) {
      if (liveIdx.empty()) return;
      size_t i;
      unsigned how = (unsigned)r.below(4);
      size_t pos = liveIdx.size();
      if (how == 0 && !pairs.empty()) {
        Pair p = q->topPair();
        i = r.coin() ? p.first : p.second;
        pos = std::lower_bound(liveIdx.begin(), liveIdx.end(), i) - liveIdx.begin();
        if (pos == liveIdx.size() || liveIdx[pos] != i) return;
      } else {
        pos = how == 1 ? liveIdx.size() - 1 : r.below(liveIdx.size());
        i = liveIdx[pos];
      }
      liveIdx.erase(liveIdx.begin() + pos);
      retired[i] = 1;
      anyRetired = true;
      std::set<Pair> gone = byIndex[i];
      for (std::set<Pair>::iterator it = gone.begin(); it != gone.end(); ++it) drop(*it);
      ctx.count("indices retired")++;
      ctx.count("pairs retired") += gone.size();
      { MON_SCOPE q->retireIndex(i); }
    }

    void mem() {
#ifdef MON_MEMORY
      size_t m = q->getMemoryUse(), live = mon::MemHook::live() - liveBase;
      ctx.count("memory reports")++;
      // the rows still to come, at 2 or 4 bytes each, and a pair data for every column that has some
      size_t need = 0;
      std::set<size_t> c;
      for (std::set<Pair>::iterator it = pairs.begin(); it != pairs.end(); ++it) { need += it->first >= 65535 ? 4 : 2; c.insert(it->first); }
      need += c.size() * sizeof(typename C::PairData);
      MON_CHECK(ctx, "M", m >= need, "getMemoryUse() is " << m << " but the pairs take " << need);
      MON_CHECK(ctx, "M", m <= live + live / 2 + 1024, "getMemoryUse() is " << m << " with " << live << " bytes allocated");
#endif
    }

    void run(const std::vector<Step>& steps, bool withFaults) {
      q.reset();
      s.reset();
      retired.clear(); pairs.clear(); byKey.clear(); byIndex.clear(); liveIdx.clear();
      cols = 0; anyRetired = false; nonEmptyColumns = 0;
      s.retired = &retired;
      s.trackTimes = checkCosts;
#ifdef MON_MEMORY
      liveBase = mon::MemHook::live();
#endif
      { MON_SCOPE q.reset(new PQ(C())); }
      size_t largest = 0;
      u64 popsBefore = ctx.count("pairs popped");
      Rng cr(12);
      check(cr, true);
      const std::vector<size_t> none;
      for (size_t i = 0; i < prelude; ++i) {
        { MON_SCOPE q->addColumnDescending(none.begin(), none.end()); }
        retired.push_back(0);
        if (longColumns || i < 20 || i % 5000 == 77 || i + 12 > prelude) liveIdx.push_back(i);
        ++cols;
      }
      for (size_t i = 0; i < steps.size(); ++i) {
        Rng r(steps[i].seed);
        switch (steps[i].op) {
          case OpAdd: add(r, steps[i].n); break;
          case OpMany: for (size_t k = 0; k < steps[i].n; ++k) add(r, r.skewed(6)); break;
          case OpPop: for (size_t k = 0; k < steps[i].n; ++k) { pop(); check(r, false); } break;
          case OpRetire: if (canRetire) retire(r); break;
          case OpFail: if (withFaults) failingAdd(r, steps[i].n); break;
          case OpDrain: while (!pairs.empty()) { pop(); check(r, false); } break;
        }
        check(r, true);
        mem();
        if (pairs.size() > largest) largest = pairs.size();
        if (ctx.logging) { ctx.log += "-> " + std::to_string((unsigned long)pairs.size()) + " pairs in " + std::to_string((unsigned long)cols) + (i % 6 == 5 ? "\n" : "; "); }
      }
      if (largest >= 5 && ctx.count("pairs popped") > popsBefore) ctx.nontrivial = true;
      if (largest > ctx.count("MAX pairs in a queue")) ctx.count("MAX pairs in a queue") = largest;
      if (cols > 65536 && largest > 4) ctx.count("queues with large indices")++;
      ctx.count("pair data computed") += s.computed;
      ctx.count("comparisons") += s.comps;
      if (checkCosts)
        for (std::unordered_map<u64, unsigned>::iterator it = s.times.begin(); it != s.times.end(); ++it)
          MON_COST(ctx, "N", it->second <= 1, "the data of a pair was computed " << it->second << " times");
      { MON_SCOPE q.reset(); }
      MON_CHECK(ctx, "S", s.error.empty(), s.error);
      MON_CHECK(ctx, "S", s.live.empty(), s.live.size() << " pair data objects are left after the queue was destroyed");
    }

    void runCase() {
      Rng& rng = ctx.rng;
      const std::string& mode = ctx.mode;
      s.seed = rng.next();
      s.order = (unsigned)rng.below(8) % 7;
      static const u64 widths[] = {1, 2, 5, 30, 1000, 1000000};
      s.width = widths[rng.below(6)];
      bool retireMode = mode == "C17" || mode == "C18" || mode == "C19" || mode == "C28" || mode == "C30";
      canRetire = PQ::SupportRetirement && retireMode && (mode == "C17" || rng.chance(3, 4));
      faults = mode == "C19" || mode == "C18" || mode == "C28";
      checkCosts = mode == "C29";
#ifdef MATHIC_DEBUG
      checkCosts = false; // the assertions compare and compute as well
#endif
      prelude = rng.chance(1, mode == "C19" ? 25 : 10) ? 65535 - rng.below(12) + (rng.chance(1, 3) ? rng.below(3000) : 0) : rng.chance(1, 3) ? rng.below(60) : 0;
      ctx.arg(s.order); ctx.arg(s.width); ctx.arg(prelude);
      size_t n = rng.chance(1, 10) ? rng.range(1, 10) : rng.range(10, ctx.tier ? 300 : 120);
      if (checkCosts) n *= 3;
      size_t maxRows = rng.chance(1, 4) ? 150 : rng.range(1, 30);
      longColumns = mon::Large && prelude > 60000 && rng.chance(1, 20);
      if (longColumns) { n = rng.range(6, 20); prelude += 70; ctx.count("queues with long columns")++; }
      unsigned adds = (unsigned)rng.range(25, 60);
      std::vector<Step> steps;
      for (size_t i = 0; i < n; ++i) {
        Step st = {OpAdd, rng.next(), 0};
        unsigned x = (unsigned)rng.below(100);
        if (x < adds) st.n = rng.chance(1, 8) ? 0 : rng.skewed(maxRows);
        else if (x < 88) { st.op = OpPop; st.n = rng.chance(1, 6) ? rng.range(1, 30) : rng.range(1, 3); }
        else if (x < 90) { st.op = OpMany; st.n = rng.range(1, 30); }
        else if (x < 91) st.op = OpDrain;
        else st.op = canRetire ? OpRetire : OpPop, st.n = 1;
        if (canRetire && rng.chance(1, 8)) st.op = OpRetire;
        if (faults && rng.chance(1, 8)) { st.op = OpFail; st.n = 1 + rng.skewed(maxRows); }
        if (longColumns && i == 0) { st.op = OpAdd; st.n = rng.coin() ? 3 * prelude : 30000; }
        if (longColumns && st.op == OpDrain) st.op = OpPop, st.n = 2000;
        ctx.arg(st.op); ctx.arg(st.n); ctx.hash = mix(ctx.hash ^ st.seed);
        steps.push_back(st);
      }
      if (rng.coin() && !longColumns) { Step st = {OpDrain, rng.next(), 0}; steps.push_back(st); }
      ctx.endl();
      ctx.soft = mode != "C19";
      if (mode != "C19") { run(steps, faults); return; }
      std::string tag, msg;
      try { run(steps, true); return; }
      catch (const mon::Violation& v) { tag = v.tag; msg = v.msg; }
      catch (const mon::Foreign& v) { tag = v.tag; msg = v.msg; }
      bool also = false;
      try { run(steps, false); } catch (const mon::Violation&) { also = true; } catch (const mon::Foreign&) { also = true; }
      if (also) throw mon::Foreign(tag, msg);
      ctx.fail("F", msg);
    }
  };

  template<class C> void pairCase(Ctx& ctx) {
    Engine<C> e(ctx);
    e.runCase();
  }
}
using namespace pqmon;
#if MON_PART == 0
static mon::Registrar r0("pairqueue", "C16 C17 C18 C19 C28 C35 C29 C30", &pairCase<Plain>, 2);
static mon::Registrar r1("pairqueue-noretire", "C16 C17 C18 C19 C28 C35 C29 C30", &pairCase<NoRetire>);
#elif MON_PART == 1
static mon::Registrar r2("pairqueue-special", "C16 C17 C18 C19 C28 C35", &pairCase<Spec>, 2);
static mon::Registrar r3("pairqueue-special-noretire", "C16 C17 C18 C19 C28 C35", &pairCase<SpecNoRetire>);
#else
static mon::Registrar r4("pairqueue-nodata", "C16 C17 C19 C28 C35 C29 C30", &pairCase<NoData>);
#endif
