#include "mathic.h"
#include <array>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <set>
#include <vector>
static const size_t MaxVars = 40;
struct Mono {
  std::array<int, MaxVars> e; int id;
  Mono(): id(0) {e.fill(0);}
  bool operator==(const Mono& o) const {return e == o.e;}
};
static bool dividesRef(const Mono& a, const Mono& b, size_t n) {
  for (size_t i = 0; i < n; ++i) if (a.e[i] > b.e[i]) return false;
  return true;
}
template<bool Mask, bool TreeMask, bool Packed, size_t Leaf, bool Linked, bool Removals = true>
struct Conf {
  typedef int Exponent; typedef const Mono& Monomial; typedef Mono Entry;
  static const bool UseDivMask = Mask, UseTreeDivMask = TreeMask, PackedTree = Packed;
  static const bool UseLinkedList = Linked, AllowRemovals = Removals;
  static const size_t LeafSize = Leaf;
  size_t vars; bool sort, cache, autob; double ratio; size_t mn;
  mutable size_t* divs;
  Conf(size_t v, bool s = false, bool c = false, bool a = false, double r = 0.5, size_t m = 5):
    vars(v), sort(s), cache(c), autob(a), ratio(r), mn(m), divs(0) {}
  size_t getVarCount() const {return vars;}
  int getExponent(const Mono& m, size_t v) const {return m.e[v];}
  bool divides(const Mono& a, const Mono& b) const {if (divs) ++*divs; return dividesRef(a, b, vars);}
  bool isLessThan(const Mono& a, const Mono& b) const { // degree, then lexicographic
    int x = 0, y = 0;
    for (size_t i = 0; i < vars; ++i) x += a.e[i], y += b.e[i];
    return x != y ? x < y : a.e < b.e;
  }
  bool getSortOnInsert() const {return sort;}
  bool getUseDivisorCache() const {return cache;}
  bool getDoAutomaticRebuilds() const {return autob;}
  double getRebuildRatio() const {return ratio;}
  size_t getRebuildMin() const {return mn;}
};
static unsigned long long state = 88172645463325252ull;
static unsigned rnd(unsigned n) {
  state ^= state << 13; state ^= state >> 7; state ^= state << 17;
  return unsigned((state >> 11) % n);
}
static Mono randomMono(size_t vars, unsigned range) {
  Mono m; for (size_t i = 0; i < vars; ++i) m.e[i] = rnd(range); return m;
}
struct Rec {
  std::multiset<int> ids; size_t limit; bool after; size_t calls;
  Rec(size_t l = size_t(-1)): limit(l), after(false), calls(0) {}
  bool proceed(const Mono& m) {
    if (calls >= limit) after = true;
    ids.insert(m.id); return ++calls < limit;
  }
  void push_back(const Mono& m) {ids.insert(m.id);}
};
#define FAIL(what) do {printf("wrong: %s\n", what); return 1;} while (0)
template<class F> auto clearIt(F& f, int) -> decltype(f.clear()) {return f.clear();}
template<class F> void clearIt(F&, long) {abort();}
// Random inserts, removals and queries compared with a plain vector.
// How: bit 0 removals, bit 1 rebuilds, bit 2 range insert first, bit 3 clear
template<class F, class C>
int drive(const C& conf, unsigned range, int ops, size_t maxSize, int how) {
  F f(conf); std::vector<Mono> ref; int id = 0;
  if (how & 4) {
    for (size_t i = 0; i < maxSize / 2; ++i) {
      Mono m = randomMono(conf.vars, range); m.id = ++id; bool dup = false;
      for (auto& r : ref) dup = dup || r.e == m.e;
      if (!dup) ref.push_back(m);
    }
    std::vector<Mono> copy(ref); f.insert(copy.begin(), copy.end());
  }
  for (int op = 0; op < ops; ++op) {
    Mono m = !ref.empty() && rnd(4) == 0 ? ref[rnd(ref.size())] : randomMono(conf.vars, range);
    if (rnd(3) == 0 && !ref.empty()) { // near an entry
      m = ref[rnd(ref.size())]; m.e[rnd(conf.vars)] += rnd(2);
    }
    switch (rnd(8)) {
    case 0: case 1: case 2: {
      if (ref.size() >= maxSize) break;
      bool dup = false; for (auto& r : ref) dup = dup || r.e == m.e;
      if (dup) break;
      m.id = ++id; ref.push_back(m); f.insert(m); break;
    }
    case 3: {
      if (!(how & 1)) break;
      if (rnd(2)) {
        Rec out, want; bool any = f.removeMultiples(m, out);
        std::vector<Mono> left;
        for (auto& r : ref) if (dividesRef(m, r, conf.vars)) want.push_back(r); else left.push_back(r);
        if (want.ids != out.ids || any != !want.ids.empty()) FAIL("removeMultiples");
        ref = left;
      } else {
        size_t at = ref.size();
        for (size_t i = 0; i < ref.size(); ++i) if (ref[i].e == m.e) at = i;
        if (f.removeElement(m) != (at != ref.size())) FAIL("removeElement");
        if (at != ref.size()) ref.erase(ref.begin() + at);
      }
      break;
    }
    case 4: {
      Rec out(rnd(3) ? size_t(-1) : 1 + rnd(3)), want;
      f.findAllDivisors(m, out);
      for (auto& r : ref) if (dividesRef(r, m, conf.vars)) want.push_back(r);
      if (out.after) FAIL("visited after asking to stop");
      if (out.calls < out.limit ? out.ids != want.ids : out.calls > want.ids.size()) FAIL("findAllDivisors");
      break;
    }
    case 5: {
      Rec out(rnd(3) ? size_t(-1) : 1 + rnd(3)), want;
      f.findAllMultiples(m, out);
      for (auto& r : ref) if (dividesRef(m, r, conf.vars)) want.push_back(r);
      if (out.after) FAIL("visited after asking to stop");
      if (out.calls < out.limit ? out.ids != want.ids : out.calls > want.ids.size()) FAIL("findAllMultiples");
      break;
    }
    case 6: {
      const Mono* d = f.findDivisor(m); bool any = false;
      for (auto& r : ref) any = any || dividesRef(r, m, conf.vars);
      if (any != (d != 0)) FAIL("findDivisor");
      if (d && !dividesRef(*d, m, conf.vars)) FAIL("findDivisor returned a non-divisor");
      break;
    }
    default:
      if ((how & 2) && rnd(10) == 0) f.rebuild();
      if ((how & 8) && rnd(60) == 0) {clearIt(f, 0); ref.clear();}
    }
    if (f.size() != ref.size()) FAIL("size");
    if (rnd(5) == 0) {
      Rec out, want; f.forAll(out);
      for (auto& r : ref) want.push_back(r);
      if (out.ids != want.ids) FAIL("contents");
    }
  }
  return 0;
}
