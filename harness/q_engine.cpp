// Drives one priority queue through a history and watches it.
//
// Oracles:
//  O  top and pop are maximal, nothing is lost, invented or altered, size
//  U  deduplication combines equal elements only, once, and loses nothing
//  B  bulk operations agree with their elementary meaning
//  C28 every entry object is destroyed
//  N  numbers of comparisons
//  M  reported memory use
//  p  what is printed
#include "q_if.h"

namespace qmon {
  QShared& shared() { return mon::perCase<QShared>(); }
  GeoParams& geoParams() { return mon::perCase<GeoParams>(); }

  E QShared::onDedup(const E& a, const E& b) {
    MON_PAUSE
    ++dedups;
    foundEqual = false;
    std::ostringstream err;
    if (a.key != b.key) err << "elements of the keys " << a.key << " and " << b.key << " are combined";
    else if (hasId) {
      std::unordered_map<uint32_t, Rec>::iterator x = inside.find(a.id), y = inside.find(b.id);
      if (a.id == b.id) err << "element " << a.id << " of key " << a.key << " is combined with itself";
      else if (x == inside.end() || y == inside.end())
        err << "element " << (x == inside.end() ? a.id : b.id) << " of key " << a.key << " is combined but is not in the queue";
      else if (x->second.pay != a.pay || y->second.pay != b.pay || x->second.key != a.key || y->second.key != b.key)
        err << "an element that was altered is combined: key " << a.key;
      else {
        E e = {a.key, nextId++, a.pay + b.pay};
        inside.erase(a.id);
        inside.erase(b.id);
        Rec r = {e.key, e.pay};
        inside[e.id] = r;
        removeKey(a.key);
        return e;
      }
    }
    if (dedupError.empty()) dedupError = err.str();
    return a;
  }

  namespace {
    enum Op { OpPush, OpRange, OpPop, OpTop, OpDecrease, OpForAll, OpClear, OpPrint, OpMove, OpCheck, OpDrain };
    const char* const OpNames[] = {"push", "range", "pop", "top", "decreaseTop", "forAll", "clear", "print", "move", "check", "drain"};
    struct Step { Op op; u64 seed; size_t n; };

    struct Engine {
      Ctx& ctx;
      const QKind& kind;
      Maker make;
      QShared& s;
      std::unique_ptr<IQueue> q;
      bool elementary;   // replace bulk operations by what they mean
      u64 keySeed;
      int lo, hi;
      unsigned pattern;  // of keys over time
      u64 pushed;
      // totals for costs
      u64 elems, maxCount, compsTotal;
      size_t lastMem;
      bool memKnown;
      size_t liveBase;
      std::string history;

      Engine(Ctx& c, const QKind& k, Maker m): ctx(c), kind(k), make(m), s(shared()) {}

      const char* loss() const { return kind.dedup ? "O U" : "O"; }

      int key(Rng& r) {
        ++pushed;
        double span = (double)hi - lo;
        switch (pattern) {
          case 0: case 1: case 2: return (int)(lo + (int64_t)r.below((u64)((int64_t)hi - lo + 1)));
          case 3: { // rising
            int64_t v = lo + (int64_t)(pushed % 1000 * span / 1000);
            return (int)v;
          }
          case 4: { // falling
            int64_t v = hi - (int64_t)(pushed % 1000 * span / 1000);
            return (int)v;
          }
          case 5: { // not above the maximum, like a heap of a sweep
            int64_t top = s.keys.empty() ? hi : s.keys.rbegin()->first;
            int64_t v = top - (int64_t)r.below(8);
            return (int)(v < lo ? lo : v);
          }
          default: return r.chance(1, 3) ? lo : r.coin() ? hi : (int)(lo + (int64_t)r.below((u64)((int64_t)hi - lo + 1)));
        }
      }
      E fresh(Rng& r) {
        E e;
        e.key = key(r);
        e.id = kind.hasId ? s.nextId++ : 0;
        e.pay = kind.hasId ? (kind.entrySize == sizeof(Odd12) ? (uint32_t)mix(e.id) : mix(e.id)) : 0;
        return e;
      }

      void checkDedup() {
        if (kind.dedup) s.notCombined();
        s.foundEqual = false;
        MON_CHECK(ctx, "U", s.dedupError.empty(), s.dedupError);
        MON_CHECK(ctx, loss(), s.uninit == 0, "an element that was never stored was compared or handed out");
      }
      // the element is one that is inside
      void checkElement(const E& e, const char* what) {
        if (kind.hasId) {
          std::unordered_map<uint32_t, Rec>::iterator it = s.inside.find(e.id);
          MON_MUST(ctx, loss(), it != s.inside.end(), what << " gave element " << e.id << " of key " << e.key << ", which is not in the queue");
          MON_CHECK(ctx, loss(), it->second.key == e.key && it->second.pay == e.pay, what << " gave element " << e.id << " with its content altered");
        } else
          MON_MUST(ctx, loss(), s.keys.count(e.key) != 0, what << " gave key " << e.key << ", which is not in the queue");
      }
      void checkCount() {
        bool e = q->empty();
        MON_MUST(ctx, loss(), e == (s.count == 0), "empty() is " << e << " with " << s.count << " elements inside");
        if (kind.hasSize) {
          size_t n = q->size();
          MON_CHECK(ctx, loss(), n == s.count, "size() is " << n << " with " << s.count << " elements inside");
        }
      }
      void checkMax(const E& e, int max, const char* what) {
        checkElement(e, what);
        MON_CHECK(ctx, "O", e.key == max, what << " gave key " << e.key << " but the maximum is " << max);
      }
      void taken(const E& e) {
        if (kind.hasId) s.inside.erase(e.id);
        s.removeKey(e.key);
      }
      void contents(const char* why) {
        if (!kind.hasForAll) return;
        std::vector<E> v;
        bool late = false;
        q->forAll(v, (size_t)-1, late, true);
        sameContents(v, why);
      }
      void sameContents(const std::vector<E>& v, const char* why) {
        ctx.count("elements visited") += v.size();
        MON_CHECK(ctx, "B", v.size() == s.count, why << ": " << v.size() << " elements were visited of " << s.count);
        if (kind.hasId) {
          std::unordered_set<uint32_t> seen;
          for (size_t i = 0; i < v.size(); ++i) {
            std::unordered_map<uint32_t, Rec>::iterator it = s.inside.find(v[i].id);
            MON_CHECK(ctx, "B", it != s.inside.end() && it->second.key == v[i].key && it->second.pay == v[i].pay,
              why << ": element " << v[i].id << " of key " << v[i].key << " was visited but is not in the queue");
            MON_CHECK(ctx, "B", seen.insert(v[i].id).second, why << ": element " << v[i].id << " was visited twice");
          }
        } else {
          std::map<int, size_t> n;
          for (size_t i = 0; i < v.size(); ++i) ++n[v[i].key];
          MON_CHECK(ctx, "B", n == s.keys, why << ": the visited keys are not those in the queue");
        }
      }

      u64 before;
      u64 dedupsBefore;
      size_t countBefore, memBefore;
      void begin() {
        before = s.comps;
        dedupsBefore = s.dedups;
        countBefore = s.count;
        s.limit = s.comps + 20000000;
#ifdef MON_MEMORY
        memBefore = q->memoryUse();
#endif
      }
      static unsigned log2ceil(u64 n) { unsigned r = 0; while ((u64(1) << r) < n) ++r; return r; }
      // adds: elements added by the operation; takes: removed
      void end(u64 adds, u64 takes, const char* what) {
        u64 comps = s.comps - before;
        if (countBefore + adds > maxCount) maxCount = countBefore + adds;
        elems += adds + takes;
        compsTotal += comps;
        ctx.count("comparisons") += comps;
        if (strcmp(kind.type, "heap") == 0 || strcmp(kind.type, "tour") == 0) {
          u64 ops = (adds > takes ? adds : takes) + (s.dedups - dedupsBefore);
          u64 bound = ops * (3 * log2ceil(countBefore + adds + 2) + 6);
          MON_COST(ctx, "N", comps <= bound, what << " made " << comps << " comparisons with " << countBefore + adds << " elements; the bound is " << bound);
        } else if (strcmp(kind.type, "geo") == 0) {
          u64 base = geoParams().base;
          unsigned levels = 1;
          for (u64 c = geoParams().min; c < maxCount * kind.insertFactor; c *= base) ++levels;
          u64 per = geoParams().min + 2 * kind.insertFactor * base + (base + 3) * (levels + 2) + 10;
          MON_COST(ctx, "N", compsTotal <= elems * per, compsTotal << " comparisons for " << elems << " elements pushed and popped, with at most "
            << maxCount << " in the queue; the bound is " << elems * per);
          if (elems > 500) {
            u64 pct = compsTotal * 100 / (elems * per);
            if (pct > ctx.count("MAX percent of the bound")) ctx.count("MAX percent of the bound") = pct;
          }
        }
        checkDedup();
#ifdef MON_MEMORY
        size_t m = q->memoryUse(), live = mon::MemHook::live() - liveBase;
        ctx.count("memory reports")++;
        MON_CHECK(ctx, "M", m >= s.count * kind.entrySize, "getMemoryUse() is " << m << " with " << s.count << " elements of " << kind.entrySize << " bytes");
        MON_CHECK(ctx, "M", m <= live + live / 2 + 256, "getMemoryUse() is " << m << " with " << live << " bytes allocated");
        // the set only estimates the overhead of its nodes
        size_t room = strcmp(kind.type, "set") == 0 ? m / 2 + 2048 : m / 4 + 2048;
        MON_CHECK(ctx, "M", live <= m + room, "getMemoryUse() is " << m << " but " << live << " bytes are allocated");
        if (adds == 0) MON_CHECK(ctx, "M", m <= memBefore, what << " made getMemoryUse() grow from " << memBefore << " to " << m);
#endif
      }

      void pop(bool withTop) {
        if (s.count == 0) return;
        int max = s.keys.rbegin()->first;
        begin();
        E t;
        if (withTop) {
          t = q->top();
          checkDedup();
          checkMax(t, max, "top()");
        }
        u64 d = s.dedups;
        E p = q->pop();
        checkDedup();
        checkMax(p, max, "pop()");
        if (withTop && s.dedups == d && kind.hasId)
          MON_CHECK(ctx, "O", t.id == p.id, "pop() gave element " << p.id << " after top() gave " << t.id);
        taken(p);
        ctx.count("elements popped")++;
        end(0, 1, "pop()");
        checkCount();
      }

      void decrease(Rng& r, bool withTop) {
        if (s.count == 0) return;
        int max = s.keys.rbegin()->first;
        E e = fresh(r);
        if (r.chance(1, 3)) e.key = max;
        else if (e.key > max) e.key = (int)std::max((int64_t)kind.keyMin, (int64_t)max - (int64_t)r.below(20));
        if (elementary) { pop(withTop); begin(); s.add(e); q->push(e); end(1, 0, "push()"); checkCount(); return; }
        begin();
        E t;
        bool known = withTop || !kind.hasId || !kind.hasForAll;
        if (known) {
          t = q->top();
          checkDedup();
          checkMax(t, max, "top()");
        }
        ctx.count("tops replaced")++;
        if (known) {
          // The old top is in the queue until it is replaced, so remove it
          // from the model first: nothing may be combined with it.
          taken(t);
          s.add(e);
          q->decreaseTop(e);
          end(1, 1, "decreaseTop()");
        } else {
          s.add(e);
          q->decreaseTop(e);
          checkDedup();
          std::vector<E> v;
          bool late = false;
          q->forAll(v, (size_t)-1, late, true);
          std::unordered_set<uint32_t> left;
          for (size_t i = 0; i < v.size(); ++i) left.insert(v[i].id);
          std::vector<uint32_t> gone;
          for (std::unordered_map<uint32_t, Rec>::iterator it = s.inside.begin(); it != s.inside.end(); ++it)
            if (left.count(it->first) == 0) gone.push_back(it->first);
          MON_MUST(ctx, "B O", gone.size() == 1, "replacing the top took " << gone.size() << " elements out of the queue");
          E g = {s.inside[gone[0]].key, gone[0], s.inside[gone[0]].pay};
          MON_CHECK(ctx, "B O", g.key == max, "replacing the top took an element of key " << g.key << " out of the queue but the maximum was " << max);
          taken(g);
          end(1, 1, "decreaseTop()");
          sameContents(v, "after decreaseTop()");
        }
        checkCount();
      }

      void range(Rng& r, size_t n) {
        std::vector<E> v;
        for (size_t i = 0; i < n; ++i) v.push_back(fresh(r));
        if (kind.sortedRange) {
          std::stable_sort(v.begin(), v.end(), [](const E& a, const E& b) { return a.key > b.key; });
          if (kind.dedup)
            v.erase(std::unique(v.begin(), v.end(), [](const E& a, const E& b) { return a.key == b.key; }), v.end());
        }
        ctx.count("ranges pushed")++;
        unsigned how = (unsigned)r.below(3);
        begin();
        for (size_t i = 0; i < v.size(); ++i) if (!elementary) s.add(v[i]);
        if (elementary)
          for (size_t i = 0; i < v.size(); ++i) { s.add(v[i]); q->push(v[i]); }
        else q->pushRange(v, how);
        end(v.size(), 0, "push(range)");
        checkCount();
      }

      // What print() shows is what is inside.
      void printed() {
        std::vector<E> v, w;
        bool late = false;
        if (kind.hasForAll) q->forAll(v, (size_t)-1, late, true);
        const std::string name = q->name(), out = q->print();
        MON_CHECK(ctx, "C28", !out.empty(), "print() printed nothing");
        if (!ctx.active("p")) return;
        ctx.count("prints")++;
        MON_CHECK(ctx, "p", !name.empty() && out.compare(0, name.size(), name) == 0, "print() does not start with the name " << name << ": " << out.substr(0, 200));
        MON_CHECK(ctx, "p", out[out.size() - 1] == '\n', "print() does not end the line");
        if (out.size() < name.size()) return;
        std::istringstream in(out.substr(name.size()));
        std::string token, all = out.substr(name.size(), 600);
        if (strcmp(kind.type, "geo") == 0) {
          std::string line;
          size_t total = 0, bucket = 0;
          std::getline(in, line);
          while (std::getline(in, line) && line != "}") {
            std::istringstream l(line);
            size_t label = ~(size_t)0, size = 0, cap = 0;
            char c = 0;
            l >> label >> c;
            MON_CHECK(ctx, "p", label == bucket && c == ':', "print() shows the bucket after " << bucket << " others as " << line);
            ++bucket;
            std::vector<int> keys;
            bool dots = false, ended = false;
            while (!ended && l >> token) {
              if (token == "...") dots = true;
              else if (token[0] == '[') {
                ended = sscanf(token.c_str(), "[%zu/%zu]", &size, &cap) == 2;
                if (!ended) break;
              } else {
                keys.push_back(atoi(token.c_str()));
                MON_CHECK(ctx, "p", s.keys.count(keys.back()) != 0, "print() shows key " << token << ", which is not in the queue: " << line);
              }
            }
            MON_CHECK(ctx, "p", ended, "print() does not tell the size of a bucket: " << line);
            MON_CHECK(ctx, "p", keys.size() == (dots ? 4 : size) && size <= cap, "print() shows " << keys.size() << " keys and size " << size << " of " << cap << ": " << line);
            for (size_t i = 1; i < keys.size(); ++i)
              MON_CHECK(ctx, "p", keys[i - 1] <= keys[i], "print() shows the keys of a bucket out of order: " << line);
            total += size;
            if (size > 4) ctx.count("large buckets printed")++;
          }
          MON_CHECK(ctx, "p", total == s.count, "print() shows " << total << " elements in buckets, and there are " << s.count << ": " << all);
        } else if (strcmp(kind.type, "tour") != 0) { // that one prints the addresses of its players
          std::vector<int> keys;
          while (in >> token) {
            if (token[0] != '-' && !isdigit((unsigned char)token[0])) continue; // brackets
            if (token[token.size() - 1] == ':') continue; // numbers of levels
            keys.push_back(atoi(token.c_str()));
          }
          std::vector<int> want;
          if (kind.hasForAll) for (size_t i = 0; i < v.size(); ++i) want.push_back(v[i].key);
          else for (std::map<int, size_t>::reverse_iterator it = s.keys.rbegin(); it != s.keys.rend(); ++it)
            want.insert(want.end(), it->second, it->first);
          std::vector<int> a = keys, b = want;
          std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
          MON_CHECK(ctx, "p", a == b, "print() shows " << a.size() << " elements that are not the " << b.size() << " in the queue: " << all);
          if (!kind.hasForAll) MON_CHECK(ctx, "p", keys == want, "print() does not show the elements in order: " << all);
        }
        MON_CHECK(ctx, "p", q->print() == out, "printing a second time shows something else");
        if (kind.hasForAll) {
          q->forAll(w, (size_t)-1, late, true);
          MON_CHECK(ctx, "p", v == w, "printing changed the queue");
        }
        checkCount();
      }

      void moveQueue(Rng& r) {
        ctx.count("heaps moved")++;
        std::unique_ptr<IQueue> to(q->moveOut());
        // the source is empty and usable
        MON_CHECK(ctx, "B", q->empty() && q->size() == 0, "a heap that was moved from is not empty");
        std::vector<E> v;
        bool late = false;
        q->forAll(v, (size_t)-1, late, true);
        MON_CHECK(ctx, "B", v.empty(), "a heap that was moved from visits " << v.size() << " elements");
        if (r.chance(2, 3)) {
          QShared saved = s;
          s.inside.clear(); s.keys.clear(); s.count = 0;
          size_t n = r.range(1, 40);
          for (size_t i = 0; i < n; ++i) { E e = fresh(r); s.add(e); q->push(e); checkDedup(); }
          MON_MUST(ctx, "B", q->size() == s.count, "a heap that was moved from does not count what is pushed on it");
          if (r.coin()) q->clear();
          else while (s.count > 0 && r.chance(20, 21)) {
            int max = s.keys.rbegin()->first;
            E e = q->pop();
            checkDedup();
            MON_CHECK(ctx, "B", e.key == max, "a heap that was moved from gives key " << e.key << " but the maximum is " << max);
            checkElement(e, "pop() of a heap that was moved from");
            taken(e);
          }
          uint32_t id = s.nextId;
          u64 comps = s.comps, dd = s.dedups; size_t alive = s.ownedAlive;
          std::string err = s.dedupError;
          s = saved;
          s.nextId = id; s.comps = comps; s.dedups = dd; s.ownedAlive = alive; s.dedupError = err;
        }
        q.swap(to);
        to.reset();
        checkCount();
        contents("after moving the heap");
      }

      void step(const Step& st) {
        Rng r(st.seed);
        s.limit = s.comps + 20000000;
        switch (st.op) {
          case OpPush: {
            E e = fresh(r);
            begin();
            s.add(e);
            q->push(e);
            end(1, 0, "push()");
            checkCount();
            break;
          }
          case OpRange: range(r, st.n); break;
          case OpPop: for (size_t i = 0; i < st.n && s.count > 0; ++i) pop(r.coin()); break;
          case OpTop: if (s.count > 0) {
            int max = s.keys.rbegin()->first;
            begin();
            E e = q->top();
            end(0, 1, "top()");
            checkMax(e, max, "top()");
            checkCount();
            break;
          }
          break;
          case OpDecrease: for (size_t i = 0; i < st.n && s.count > 0; ++i) decrease(r, r.chance(2, 3)); break;
          case OpForAll: {
            if (elementary) break;
            ctx.count("visits")++;
            size_t stop = r.coin() ? (size_t)-1 : 1 + r.below(s.count + 1);
            std::vector<E> v;
            bool late = false;
            u64 c = s.comps;
            q->forAll(v, stop, late, r.coin());
            MON_CHECK(ctx, "B", !late, "forAll called the visitor after it asked to stop");
            if (stop > s.count) sameContents(v, "forAll");
            else {
              ctx.count("visits cut short")++;
              MON_CHECK(ctx, "B", v.size() == stop, "forAll visited " << v.size() << " elements, not the " << stop << " that were asked for");
              for (size_t i = 0; i < v.size(); ++i) {
                if (kind.hasId) MON_CHECK(ctx, "B", s.inside.count(v[i].id) && s.inside[v[i].id].pay == v[i].pay, "forAll visited an element that is not in the queue");
                else MON_CHECK(ctx, "B", s.keys.count(v[i].key), "forAll visited an element that is not in the queue");
              }
            }
            (void)c;
            checkDedup();
            checkCount();
            break;
          }
          case OpClear:
            if (elementary) {
              q.reset();
              q.reset(make());
              s.inside.clear(); s.keys.clear(); s.count = 0;
              break;
            }
            ctx.count("clears")++;
            begin();
            s.inside.clear(); s.keys.clear(); s.count = 0;
            q->clear();
            end(0, 0, "clear()");
            checkCount();
            { std::vector<E> v; bool late = false; q->forAll(v, (size_t)-1, late, true);
              MON_CHECK(ctx, "B", v.empty(), "a cleared queue visits " << v.size() << " elements"); }
            break;
          case OpPrint: {
            printed();
            break;
          }
          case OpMove: if (!elementary) moveQueue(r); break;
          case OpCheck: contents("check"); break;
          case OpDrain:
            while (s.count > 0) pop(r.chance(1, 3));
            break;
        }
      }

      void run(const std::vector<Step>& steps, bool elem) {
        elementary = elem;
        q.reset();
        s.reset();
        s.hasId = kind.hasId;
        pushed = elems = maxCount = compsTotal = 0;
#ifdef MON_MEMORY
        liveBase = mon::MemHook::live();
#endif
        q.reset(make());
        checkCount();
        size_t largest = 0;
        u64 popped = 0;
        (void)popped;
        for (size_t i = 0; i < steps.size(); ++i) {
          if (!elem) { ctx.op(OpNames[steps[i].op]); ctx.arg(steps[i].n); ctx.hash = mix(ctx.hash ^ steps[i].seed); }
          step(steps[i]);
          if (!elem && ctx.logging) { ctx.log += "-> " + std::to_string((unsigned long)s.count) + (i % 8 == 7 ? "\n" : "; "); }
          if (s.count > largest) largest = s.count;
        }
        checkCount();
        if (largest >= 8) ctx.nontrivial = true;
        if (largest > ctx.count("MAX elements in a queue")) ctx.count("MAX elements in a queue") = largest;
        ctx.count("combinations") += s.dedups;
        q.reset();
        MON_CHECK(ctx, "C28", s.ownedAlive == 0, s.ownedAlive << " entry objects are left after the queue was destroyed");
#ifdef MON_MEMORY
        MON_CHECK(ctx, "C28", mon::MemHook::live() == liveBase, "memory is left after the queue was destroyed");
#endif
      }
    };
  }

  void runQueueCase(Ctx& ctx, const QKind& kind, Maker make) {
    Rng& rng = ctx.rng;
    const std::string& mode = ctx.mode;
    bool bulk = mode == "C15", mem = mode == "C28", cost = mode == "C29", use = mode == "C30";
    ctx.soft = !bulk;
    Engine e(ctx, kind, make);
    // keys
    e.pattern = (unsigned)rng.below(7);
    unsigned width = (unsigned)rng.below(6);
    int64_t w = width == 0 ? 0 : width == 1 ? 3 : width == 2 ? 30 : width == 3 ? 300 : width == 4 ? 100000 : 0xFFFFFFFFll;
    if (mode == "C14" && width == 0 && rng.coin()) w = 10;
    const int64_t all = (int64_t)kind.keyMax - kind.keyMin;
    if (kind.keyMax < INT32_MAX && w > 100) w = all;
    if (w == 0xFFFFFFFFll || w == all) { e.lo = kind.keyMin; e.hi = kind.keyMax; }
    else {
      int64_t low = rng.chance(1, 8) ? kind.keyMin : rng.chance(1, 8) ? kind.keyMax - w : -(int64_t)rng.below(w + 1);
      if (kind.keyMax < INT32_MAX && low < kind.keyMin) low = kind.keyMin;
      e.lo = (int)low; e.hi = (int)(low + w);
      if (e.hi > kind.keyMax) e.hi = kind.keyMax;
    }
    ctx.arg((u64)e.lo); ctx.arg((u64)e.hi); ctx.arg(e.pattern);
    // shape of a geobucket
    static const size_t bases[] = {2, 2, 2, 3, 4, 7, 16};
    static const size_t mins[] = {1, 1, 2, 3, 4, 5, 8, 16, 50};
    geoParams().base = bases[rng.below(7)];
    geoParams().min = mins[rng.below(9)];
    if (strcmp(kind.type, "geo") == 0) { ctx.arg(geoParams().base); ctx.arg(geoParams().min); }
    // history
    size_t n = rng.chance(1, 12) ? rng.range(1, 12) : rng.range(20, ctx.tier ? 700 : 400);
    size_t target = 2 + rng.skewed(ctx.tier ? 3000 : 600); // size that the queue hovers around
    size_t maxRange = rng.chance(1, 3) ? 1 + target : 12;
    if (cost) { n = rng.range(50, ctx.tier ? 3000 : 1500); target = 10 + rng.below(ctx.tier ? 6000 : 3000); maxRange = rng.coin() ? 8 : 1 + target / 2; }
    bool giant = mon::Large && !use && kind.keyMax == INT32_MAX && rng.chance(1, 400);
    if (giant) { n = rng.range(3, 12); target = rng.range(66000, 100000); maxRange = target; ctx.count("giant queues")++; }
    // steady: one kind of operation on a large queue
    const unsigned steady = cost && rng.coin() ? 1 + (unsigned)rng.below(4) : 0;
    std::vector<Step> steps;
    int64_t est = 0; // of the size
    unsigned phase = 0; // grow, shrink, hover, replace the top
    size_t phaseLeft = 0;
    for (size_t i = 0; i < n; ++i) {
      if (phaseLeft == 0) {
        phase = i == 0 ? 0 : (unsigned)rng.below(5);
        phaseLeft = rng.range(3, 60);
      }
      --phaseLeft;
      if (est < 0) est = 0;
      if (est > (int64_t)target && phase == 0) phase = 1;
      if (est < 2 && phase == 1) phase = 0;
      Step st;
      st.seed = rng.next();
      st.n = 1;
      unsigned x = (unsigned)rng.below(100);
      unsigned pushes = phase == 0 ? 70 : phase == 1 ? 15 : 43, ranges = phase == 0 ? 18 : 4;
      if (x < pushes) st.op = OpPush;
      else if (x < pushes + ranges) { st.op = OpRange; st.n = rng.chance(1, 8) ? 0 : rng.skewed(maxRange); }
      else if (x < 92) { st.op = OpPop; st.n = phase == 1 && rng.chance(1, 4) ? rng.below(est / 3 + 2) : 1; }
      else st.op = OpTop;
      if (phase == 3 && kind.hasDecrease && x >= 30) { st.op = OpDecrease; st.n = 1 + rng.below(3); }
      if (kind.hasDecrease && rng.chance(bulk ? 12 : 3, 100)) { st.op = OpDecrease; st.n = rng.range(1, 4); }
      bool rare = bulk || mem || use;
      if (kind.hasForAll && rare && rng.chance(8, 100)) st.op = OpForAll;
      if (kind.hasClear && (rare || mode == "C12" || mode == "C37") && rng.chance(1, bulk ? 60 : 150)) st.op = OpClear;
      if (kind.hasMove && rare && rng.chance(1, 50)) st.op = OpMove;
      if ((mem && rng.chance(1, 60)) || (mode == "C37" && rng.chance(1, 8))) st.op = OpPrint;
      if (kind.hasForAll && bulk && rng.chance(1, 12)) st.op = OpCheck;
      if (rng.chance(1, 250)) st.op = OpDrain;
      if (mode == "C14" && st.op == OpDecrease && rng.coin()) st.op = OpPush;
      if (giant && i == 0) { st.op = OpRange; st.n = target; }
      if (giant && (st.op == OpCheck || (st.op == OpPrint && i > 3))) st.op = OpTop;
      if (steady && i == 0) { st.op = OpRange; st.n = target; }
      else if (steady && !rng.chance(1, 12)) {
        st.n = 1;
        if (steady == 1) { st.op = OpRange; st.n = 1 + rng.below(maxRange); }
        else if (steady == 2) st.op = OpPush;
        else if (steady == 3) st.op = i % 2 ? OpPop : rng.coin() ? OpPush : OpRange;
        else { st.op = kind.hasDecrease ? OpDecrease : OpPop; }
      }
      switch (st.op) {
        case OpPush: ++est; break;
        case OpRange: est += st.n; break;
        case OpPop: est -= st.n; break;
        case OpClear: case OpDrain: est = 0; break;
        default: break;
      }
      steps.push_back(st);
    }
    if (rng.chance(3, 4)) { Step st = {OpDrain, rng.next(), 0}; steps.push_back(st); }
    if (!bulk) { e.run(steps, false); return; }
    // C15: when something goes wrong, do the same with elementary operations
    // only; if that goes wrong as well then the fault is elsewhere.
    std::string tag, msg;
    try {
      e.run(steps, false);
      return;
    } catch (const mon::Violation& v) { tag = v.tag; msg = v.msg; }
    catch (const mon::Foreign& v) { tag = v.tag; msg = v.msg; }
    bool also = false;
    try { e.run(steps, true); } catch (const mon::Violation&) { also = true; } catch (const mon::Foreign&) { also = true; }
    if (also) throw mon::Foreign(tag, msg);
    ctx.fail("B", msg);
  }
}
