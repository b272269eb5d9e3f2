#include "mathic.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <vector>
static unsigned long long state = 88172645463325252ull;
static unsigned rnd(unsigned n) {
  state ^= state << 13; state ^= state >> 7; state ^= state << 17;
  return unsigned((state >> 11) % n);
}
// An entry is a key and a weight; deduplication adds the weights.
struct E2 {int key; int weight; E2(int k = 0, int w = 0): key(k), weight(w) {}};
inline std::ostream& operator<<(std::ostream& o, const E2& e) {return o << e.key;}
template<bool Dedup, bool Fast = false>
struct PConf {
  typedef E2 Entry; typedef int CompareResult;
  static const bool supportDeduplication = Dedup, fastIndex = Fast;
  mutable size_t* compares; PConf(): compares(0) {}
  int compare(const E2& a, const E2& b) const {if (compares) ++*compares; return a.key < b.key ? -1 : a.key > b.key;}
  static bool cmpLessThan(int c) {return c < 0;}
  static bool cmpEqual(int c) {return c == 0;}
  static E2 deduplicate(const E2& a, const E2& b) {return E2(a.key, a.weight + b.weight);}
};
template<bool Dedup, bool Bin, bool Track, bool Pre, bool Col, int Storage, size_t Factor = 1>
struct GConf: PConf<Dedup> {
  size_t minBucketSize, geoBase;
  static const size_t insertFactor = Factor;
  static const bool minBucketBinarySearch = Bin, trackFront = Track, premerge = Pre, collectMax = Col;
  static const mathic::GeobucketBucketStorage bucketStorage = mathic::GeobucketBucketStorage(Storage);
  GConf(size_t m, size_t b): minBucketSize(m), geoBase(b) {}
};
template<bool D, bool F> const bool PConf<D, F>::supportDeduplication;
template<bool D, bool F> const bool PConf<D, F>::fastIndex;
#define FAIL(what) do {printf("wrong: %s\n", what); return 1;} while (0)
struct Sum {
  std::map<int, int>* m; bool proceed(const E2& e) {(*m)[e.key] += e.weight; return true;}
};
template<class Q> auto sizeOf(const Q& q, size_t, int) -> decltype(q.size()) {return q.size();}
template<class Q> size_t sizeOf(const Q&, size_t n, long) {return n;}
// Random pushes, range pushes, pops and decreaseTop compared with a map from key to
// the total weight (and, with no deduplication, the number of entries).
template<class Q, class C>
int drive(const C& conf, int ops, int keys, int maxSize, bool dedup, unsigned pushBias, bool ranges) {
  Q q(conf); std::map<int, int> ref; size_t count = 0;
  for (int op = 0; op < ops; ++op) {
    unsigned w = rnd(10);
    if ((w < pushBias && int(count) < maxSize) || q.empty()) {
      if (ranges && rnd(3) == 0) {
        std::vector<E2> v; std::map<int, int> seen; size_t n = 1 + rnd(rnd(4) ? 6 : maxSize / 2 + 1);
        for (size_t i = 0; i < n; ++i) {int k = rnd(keys); if (!dedup || !seen[k]++) v.push_back(E2(k, 1));}
        std::sort(v.begin(), v.end(), [](const E2& a, const E2& b) {return a.key > b.key;});
        for (auto& e : v) ref[e.key] += 1;
        count += v.size(); q.push(v.begin(), v.end());
      } else {
        int k = rnd(keys); ref[k] += 1; ++count; q.push(E2(k, 1));
      }
    } else if (w == 9 && !q.empty()) {
      int t = ref.rbegin()->first; E2 old = q.top();
      if (old.key != t) FAIL("top before decreaseTop");
      int k = rnd(t + 1);
      ref[t] -= old.weight; count -= old.weight; if (ref[t] == 0) ref.erase(t);
      ref[k] += 1; ++count; q.decreaseTop(E2(k, 1));
    } else if (!q.empty()) {
      int t = ref.rbegin()->first;
      if (rnd(2) && q.top().key != t) FAIL("top");
      E2 e = q.pop();
      if (e.key != t) FAIL("pop is not the largest");
      if (e.weight > ref[t]) FAIL("weight appeared from nowhere");
      ref[t] -= e.weight; count -= e.weight;
      if (ref[t] == 0) ref.erase(t);
    }
    if (!dedup && sizeOf(q, count, 0) != count) FAIL("size");
    if (q.empty() != (count == 0)) FAIL("empty");
    if (rnd(50) == 0) {
      std::map<int, int> m; Sum s = {&m}; q.forAll(s);
      if (m != ref) FAIL("contents");
    }
  }
  while (!q.empty()) {
    E2 e = q.pop(); if (ref.empty() || e.key != ref.rbegin()->first) FAIL("drain order");
    ref[e.key] -= e.weight; if (ref[e.key] == 0) ref.erase(e.key);
  }
  if (!ref.empty()) FAIL("lost entries");
  return 0;
}
