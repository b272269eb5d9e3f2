// C21: the hash table.
// Oracles: H map behaviour and handles, N comparisons, M reported memory use.
#include <vector>
#include <mathic/HashTable.h>
#include "mon.h"
#include <memory>
#ifdef MON_MEMORY
#include "mem_hook.h"
#define MON_SCOPE mon::MemScope mon_scope;
#else
#define MON_SCOPE
#endif
using namespace mon;
namespace {
  struct Counts { u64 equals = 0; unsigned hashKind = 0; };
  // Hash functions: how badly they collide is up to the case.
  size_t hashOf(u64 k) {
    switch (perCase<Counts>().hashKind) {
      case 0: return (size_t)k;                // identity
      case 1: return 7;                        // constant
      case 2: return (size_t)(k & 3);          // few values
      case 3: return (size_t)(mix(k));         // good
      case 4: return (size_t)(k << 40);        // differs in high bits only
      case 5: return (size_t)(k * 64);         // collides in low bits
      default: return (size_t)(mix(k) % 50);   // fifty values
    }
  }
  // The key types store what they are as a number for the model.
  struct IntKeys {
    typedef int Key;
    static Key make(u64 k) { return (int)k; }
    static u64 raw(const Key& k) { return (u64)(unsigned)k; }
    static u64 norm(u64 k) { return (u64)(unsigned)(int)k; }
  };
  struct LongKeys {
    typedef u64 Key;
    static Key make(u64 k) { return k; }
    static u64 raw(const Key& k) { return k; }
    static u64 norm(u64 k) { return k; }
  };
  struct PairKeys { // trivially destructible, larger than a word
    struct Key { u64 a; unsigned char b[20]; };
    static Key make(u64 k) { Key x; x.a = k; for (int i = 0; i < 20; ++i) x.b[i] = (unsigned char)(k * (i + 1)); return x; }
    static u64 raw(const Key& k) { return k.a; }
    static u64 norm(u64 k) { return k; }
  };
  struct StringKeys {
    typedef std::string Key;
    static Key make(u64 k) { return (k % 3 == 0 ? std::string() : std::string("key number with a long name ")) + std::to_string((unsigned long long)k); }
    static u64 raw(const Key& k) { size_t p = k.rfind(' '); return strtoull(k.c_str() + (p == std::string::npos ? 0 : p), 0, 10); }
    static u64 norm(u64 k) { return k; }
  };
  template<class K, class V> struct Conf {
    typedef typename K::Key Key;
    typedef V Value;
    size_t hash(const Key& k) { mayYield(); return hashOf(K::raw(k)); }
    bool keysEqual(const Key& a, const Key& b) { mayYield(); ++perCase<Counts>().equals; return K::raw(a) == K::raw(b); }
  };
  struct BigValue { u64 v[5]; };
  inline void setV(int& v, u64 x) { v = (int)x; }
  inline bool isV(int v, u64 x) { return v == (int)x; }
  inline void setV(u64& v, u64 x) { v = x; }
  inline bool isV(u64 v, u64 x) { return v == x; }
  inline void setV(BigValue& v, u64 x) { for (int i = 0; i < 5; ++i) v.v[i] = x + i; }
  inline bool isV(const BigValue& v, u64 x) { for (int i = 0; i < 5; ++i) if (v.v[i] != x + i) return false; return true; }
  inline void setV(std::string& v, u64 x) { v = "value " + std::to_string((unsigned long long)x); }
  inline bool isV(const std::string& v, u64 x) { return v == "value " + std::to_string((unsigned long long)x); }

  template<class K, class V> void hashCase(Ctx& ctx) {
    typedef Conf<K, V> C;
    typedef mathic::HashTable<C> Table;
    typedef typename Table::Handle Handle;
    typedef typename K::Key Key;
    struct Rec { Handle* h; u64 v; };
    Rng& rng = ctx.rng;
    bool cost = ctx.mode == "C29";
    unsigned& hashKind = perCase<Counts>().hashKind;
    u64& equals = perCase<Counts>().equals;
    hashKind = cost ? (rng.chance(1, 4) ? 0 : 3) : (unsigned)rng.below(7);
    unsigned bits = rng.chance(1, 3) ? 10 : (unsigned)rng.below(cost ? 5 : 11);
    size_t ops = cost ? rng.range(200, ctx.tier ? 60000 : 20000)
      : hashKind == 1 || hashKind == 2 ? rng.range(10, 250) : rng.chance(1, 10) ? rng.range(800, 4000) : rng.range(10, 500);
    bool giant = mon::Large && !cost && hashKind != 1 && hashKind != 2 && std::is_same<Key, int>::value && rng.chance(1, 100);
    if (giant) { hashKind = 3; ops = 250000; }
    u64 universe = cost || giant ? ops * 4 : 1 + rng.skewed(rng.coin() ? 60 : 4000);
    u64 stride = cost ? 1 : rng.pick(std::vector<u64>{1, 1, 2, 1024, 4096, 0x10001, 0x100000001ull});
    ctx.arg(hashKind); ctx.arg(bits); ctx.arg(universe); ctx.arg(stride);
    ctx.endl();
#ifdef MON_MEMORY
    size_t liveBase = MemHook::live();
#endif
    std::unique_ptr<Table> t;
    {
      MON_SCOPE
      if (bits == 10 && rng.coin()) t.reset(new Table(C()));
      else t.reset(new Table(C(), bits));
    }
    std::unordered_map<u64, Rec> in;
    std::vector<u64> keys; // that were ever inserted
    equals = 0;
    u64 operations = 0, largest = 0;
    unsigned removes = rng.chance(1, 3) ? 0 : (unsigned)rng.range(1, 40);
    bool found = false;
    // With frequent removal the table does not shrink, as it need not.
    for (size_t i = 0; i < ops; ++i) {
      u64 k = K::norm(rng.below(universe) * stride);
      unsigned x = (unsigned)rng.below(100);
      if (x >= 50 && !keys.empty() && rng.coin()) k = rng.pick(keys);
      Key key = K::make(k);
      typename std::unordered_map<u64, Rec>::iterator it = in.find(k);
      ++operations;
      if (x < 50) {
        u64 v = rng.next() >> 33;
        V val; setV(val, v);
        ctx.op("insert"); ctx.arg(k); ctx.arg(v);
        MON_SCOPE
        std::pair<bool, Handle*> r = t->insert(key, val);
        MON_CHECK(ctx, "H", r.second != 0, "insert gave no handle");
        MON_CHECK(ctx, "H", r.first == (it == in.end()), "insert of " << k << " says " << r.first << " but the key is " << (it == in.end() ? "not " : "") << "in the table");
        if (it == in.end()) {
          MON_CHECK(ctx, "H", isV(r.second->value(), v), "the handle of the new key " << k << " has another value");
          Rec rec = {r.second, v};
          in[k] = rec;
          keys.push_back(k);
          ctx.count("keys inserted")++;
        } else {
          found = true;
          ctx.count("keys inserted again")++;
          MON_CHECK(ctx, "H", r.second == it->second.h, "inserting the existing key " << k << " gave another handle");
          MON_CHECK(ctx, "H", isV(r.second->value(), it->second.v), "inserting the existing key " << k << " changed its value");
        }
        MON_CHECK(ctx, "H", K::raw(r.second->key()) == k, "the handle of " << k << " has the key " << K::raw(r.second->key()));
      } else if (x < 100 - removes) {
        ctx.op("lookup"); ctx.arg(k);
        Handle* h = t->lookup(key);
        ctx.count("lookups")++;
        if (it == in.end()) MON_CHECK(ctx, "H", h == 0, "lookup of " << k << " gave a handle but the key is not in the table");
        else {
          found = true;
          MON_CHECK(ctx, "H", h != 0, "lookup did not find " << k);
          MON_CHECK(ctx, "H", h == it->second.h, "lookup of " << k << " gave another handle than its insertion");
          MON_CHECK(ctx, "H", K::raw(h->key()) == k && isV(h->value(), it->second.v), "the handle of " << k << " has another key or value");
          const Handle* ch = h;
          MON_CHECK(ctx, "H", K::raw(ch->key()) == k && isV(ch->value(), it->second.v), "the constant handle of " << k << " has another key or value");
          if (rng.coin()) {
            u64 v = rng.next() >> 33;
            setV(h->value(), v);
            it->second.v = v;
            ctx.count("values stored through handles")++;
          }
        }
      } else if (it != in.end()) {
        ctx.op("remove"); ctx.arg(k);
        Handle* h = it->second.h;
        t->remove(h);
        in.erase(it);
        ctx.count("keys removed")++;
        Handle* h2 = t->lookup(key);
        MON_CHECK(ctx, "H", h2 == 0, "lookup of " << k << " gave a handle after it was removed");
        if (rng.chance(1, 8)) { // a handle that is in no table can be given another key
          u64 a = K::norm(rng.below(universe) * stride), v = rng.next() >> 33;
          V val; setV(val, v);
          Key other = K::make(a);
          Handle own(key, val);
          own.setKeyButOnlyDoSoIfThisHandleIsNotInHashTable(other);
          MON_CHECK(ctx, "H", K::raw(own.key()) == a && isV(own.value(), v), "a handle given the key " << a << " has another key or value");
          ctx.count("handles given another key")++;
        }
      }
      if (in.size() > largest) largest = in.size();
      if (!cost && ((i % 64 == 63 && !giant) || i + 1 == ops)) {
        for (it = in.begin(); it != in.end(); ++it) {
          Handle* h = t->lookup(K::make(it->first));
          ctx.count("handles checked")++;
          MON_CHECK(ctx, "H", h == it->second.h, "lookup of " << it->first << (h == 0 ? " found nothing" : " gave another handle than its insertion"));
          MON_CHECK(ctx, "H", K::raw(h->key()) == it->first && isV(h->value(), it->second.v), "the handle of " << it->first << " has another key or value");
        }
        for (size_t j = 0; j < 20; ++j) {
          u64 a = K::norm((universe + rng.below(1000)) * stride + (rng.coin() ? 1 : 0));
          if (in.count(a) == 0) MON_CHECK(ctx, "H", t->lookup(K::make(a)) == 0, "lookup of " << a << " gave a handle but the key was never in the table");
        }
      }
      if (rng.chance(1, 400) && !cost && !giant) {
        // emptied completely, it can be reset and used again
        for (it = in.begin(); it != in.end(); ++it) { Handle* h = it->second.h; t->remove(h); }
        in.clear();
        if (rng.coin()) { t->reset(); ctx.count("resets")++; }
        ctx.op("emptied");
        MON_CHECK(ctx, "H", t->lookup(key) == 0, "an emptied table finds a key");
      }
#ifdef MON_MEMORY
      if (i % 16 == 0 || giant) {
        size_t m = t->memoryUse(), live = MemHook::live() - liveBase;
        ctx.count("memory reports")++;
        MON_CHECK(ctx, "M", m >= in.size() * (sizeof(Key) + sizeof(V)), "memoryUse() is " << m << " with " << in.size() << " entries of " << sizeof(Key) + sizeof(V) << " bytes");
        // What the keys and values point to does not count, and the pool does not report all of its blocks.
        if (!std::is_same<Key, std::string>::value && !std::is_same<V, std::string>::value)
          MON_CHECK(ctx, "M", live <= m + m + 8192, "memoryUse() is " << m << " but " << live << " bytes are allocated");
        if (!std::is_same<Key, std::string>::value)
          MON_CHECK(ctx, "M", m <= live + live / 2 + 1024, "memoryUse() is " << m << " with " << live << " bytes allocated");
      }
#endif
      if (cost && operations > 100)
        MON_COST(ctx, "N", equals <= operations * 4, equals << " key comparisons in " << operations << " operations");
    }
    if (!cost) MON_CHECK(ctx, "H", t->name() == "HashTable", "name() is " << t->name());
    ctx.count("key comparisons") += equals;
    if (largest >= 4 && found) ctx.nontrivial = true;
    if (largest > ctx.count("MAX keys in a table")) ctx.count("MAX keys in a table") = largest;
    if (largest > (u64(1) << bits) / 10) ctx.count("tables that grew")++;
  }
  Registrar r0("hash-int", "C21 C28 C35 C29 C30", &hashCase<IntKeys, int>);
  Registrar r1("hash-long", "C21 C28 C35 C29 C30", &hashCase<LongKeys, BigValue>);
  Registrar r2("hash-pair", "C21 C28 C35 C30", &hashCase<PairKeys, u64>);
  // keys that own memory are not freed by the table
  Registrar r3("hash-string", "C21 C29", &hashCase<StringKeys, u64>);
  Registrar r4("hash-string-string", "C21", &hashCase<StringKeys, std::string>);
}
