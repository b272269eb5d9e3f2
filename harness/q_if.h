// Priority queues: entries, configurations, and an interface without templates.
#ifndef Q_IF_H
#define Q_IF_H
#include "mon.h"
#include <memory>
#include <list>
#ifdef MON_MEMORY
#include "mem_hook.h"
#define MON_SCOPE mon::MemScope mon_scope;
#define MON_PAUSE mon::MemPause mon_pause;
#else
#define MON_SCOPE
#define MON_PAUSE
#endif

namespace qmon {
  using mon::Ctx; using mon::Rng; using mon::u64; using mon::mix;

  // What an element is to the monitor.
  struct E {
    int key;
    uint32_t id;   // 0 if the entry type of the queue has no room for it
    u64 pay;
    bool operator==(const E& e) const { return key == e.key && id == e.id && pay == e.pay; }
  };

  struct Rec { int key; u64 pay; };

  // State shared between the monitor and the callbacks of the queue.
  struct QShared {
    u64 comps = 0, dedups = 0;
    u64 uninit = 0;            // comparisons of entries that were never assigned
    bool hasId = true;
    uint32_t nextId = 1;
    std::unordered_map<uint32_t, Rec> inside;
    std::map<int, size_t> keys; // of the elements inside
    size_t count = 0;
    std::string dedupError;
    bool foundEqual = false;    // two elements were found to be equal and have to be combined next
    size_t ownedAlive = 0;      // objects of the owning entry type
    u64 limit = 0;              // comparisons allowed before it counts as endless

    void reset() { *this = QShared(); }
    void add(const E& e) {
      ++count; ++keys[e.key];
      if (hasId) { Rec r = {e.key, e.pay}; inside[e.id] = r; }
    }
    void removeKey(int key) {
      --count;
      std::map<int, size_t>::iterator it = keys.find(key);
      if (--it->second == 0) keys.erase(it);
    }
    void onCompare() {
      mon::mayYield();
      ++comps;
      notCombined();
      if (limit != 0 && comps > limit) throw mon::Violation("steps", "comparisons without end");
    }
    bool onEqual(bool equal) { if (equal) foundEqual = true; return equal; }
    void notCombined() {
      if (!foundEqual) return;
      foundEqual = false;
      if (dedupError.empty()) dedupError = "two elements were compared and found to be equal but were not combined";
    }
    E onDedup(const E& a, const E& b);
  };
  QShared& shared();

  // *** entry types
  struct P16 {
    int key; uint32_t id; u64 pay;
    static const bool HasId = true;
    static int keyMin() { return INT32_MIN; }
    static int keyMax() { return INT32_MAX; }
    static P16 make(const E& e) { P16 x; x.key = e.key; x.id = e.id; x.pay = e.pay; return x; }
    E get() const { E e = {key, id, pay}; return e; }
  };
  struct Odd24 {
    u64 pay; int key; uint32_t id; u64 check;
    static const bool HasId = true;
    static int keyMin() { return INT32_MIN; }
    static int keyMax() { return INT32_MAX; }
    static Odd24 make(const E& e) { Odd24 x; x.key = e.key; x.id = e.id; x.pay = e.pay; x.check = ~e.pay; return x; }
    E get() const { E e = {key, id, check == ~pay ? pay : 0}; return e; }
  };
  struct Odd12 { // not a power of two, no room for a payload of 8 bytes
    int key; uint32_t id; uint32_t pay;
    static const bool HasId = true;
    static int keyMin() { return INT32_MIN; }
    static int keyMax() { return INT32_MAX; }
    static Odd12 make(const E& e) { Odd12 x; x.key = e.key; x.id = e.id; x.pay = (uint32_t)e.pay; return x; }
    E get() const { E e = {key, id, pay}; return e; }
  };
  struct Int4 {
    int key;
    static const bool HasId = false;
    static int keyMin() { return INT32_MIN; }
    static int keyMax() { return INT32_MAX; }
    static Int4 make(const E& e) { Int4 x; x.key = e.key; return x; }
    E get() const { E e = {key, 0, 0}; return e; }
  };
  struct Byte1 {
    signed char key;
    static const bool HasId = false;
    static int keyMin() { return -128; }
    static int keyMax() { return 127; }
    static Byte1 make(const E& e) { Byte1 x; x.key = (signed char)e.key; return x; }
    E get() const { E e = {key, 0, 0}; return e; }
  };
  struct Big32 {
    u64 pad; int key; uint32_t id; u64 pay; u64 check;
    static const bool HasId = true;
    static int keyMin() { return INT32_MIN; }
    static int keyMax() { return INT32_MAX; }
    static Big32 make(const E& e) { Big32 x; x.key = e.key; x.id = e.id; x.pay = e.pay; x.pad = x.check = ~e.pay; return x; }
    E get() const { E e = {key, id, check == ~pay && pad == check ? pay : 0}; return e; }
  };
  // Owns memory, so that copies that are lost or made bitwise show.
  class Owned {
  public:
    static const bool HasId = true;
    static int keyMin() { return INT32_MIN; }
    static int keyMax() { return INT32_MAX; }
    Owned(): _p(0) { ++shared().ownedAlive; }
    Owned(const Owned& o): _p(dup(o._p)) { ++shared().ownedAlive; }
    Owned& operator=(const Owned& o) {
      E* p = dup(o._p);
      free(_p);
      _p = p;
      return *this;
    }
    ~Owned() { free(_p); _p = 0; --shared().ownedAlive; }
    static Owned make(const E& e) { Owned o; E x = e; o._p = dup(&x); return o; }
    E get() const {
      if (_p == 0) { ++shared().uninit; E e = {0, 0, 0}; return e; }
      return *_p;
    }
  private:
    static E* dup(const E* e) {
      if (e == 0) return 0;
      E* p = static_cast<E*>(malloc(sizeof(E)));
      *p = *e;
      return p;
    }
    E* _p;
  };
  
  inline std::ostream& operator<<(std::ostream& o, const P16& e) { return o << e.get().key; }
  inline std::ostream& operator<<(std::ostream& o, const Odd24& e) { return o << e.get().key; }
  inline std::ostream& operator<<(std::ostream& o, const Odd12& e) { return o << e.get().key; }
  inline std::ostream& operator<<(std::ostream& o, const Int4& e) { return o << e.get().key; }
  inline std::ostream& operator<<(std::ostream& o, const Byte1& e) { return o << e.get().key; }
  inline std::ostream& operator<<(std::ostream& o, const Big32& e) { return o << e.get().key; }
  inline std::ostream& operator<<(std::ostream& o, const Owned& e) { return o << e.get().key; }

  // *** configurations
  class Cmp3 { // three-way result that can only be copied
  public:
    explicit Cmp3(int v): _v(v) {}
    int v() const { return _v; }
  private:
    int _v;
  };
  // members are const, results are three-way
  template<class Ent, bool Dedup, bool Fast> struct ConfObj {
    typedef Ent Entry;
    typedef Cmp3 CompareResult;
    ConfObj(): s(&shared()) {}
    Cmp3 compare(const Ent& a, const Ent& b) const {
      s->onCompare();
      int x = a.get().key, y = b.get().key;
      return Cmp3(x < y ? -1 : x > y ? 1 : 0);
    }
    bool cmpLessThan(Cmp3 r) const { return r.v() < 0; }
    bool cmpEqual(Cmp3 r) const { return s->onEqual(r.v() == 0); }
    Ent deduplicate(const Ent& a, const Ent& b) const { return Ent::make(s->onDedup(a.get(), b.get())); }
    static const bool supportDeduplication = Dedup;
    static const bool fastIndex = Fast;
    QShared* s;
  };
  // members are static, the result is just less-than, entries by value
  template<class Ent, bool Dedup, bool Fast> struct ConfStatic {
    typedef Ent Entry;
    typedef int CompareResult;
    static int compare(Ent a, Ent b) {
      shared().onCompare();
      int x = a.get().key, y = b.get().key;
      return x < y ? 2 : x == y ? 1 : 0;
    }
    static bool cmpLessThan(int r) { return r == 2; }
    static bool cmpEqual(int r) { return shared().onEqual(r == 1); }
    static Ent deduplicate(Ent a, Ent b) { return Ent::make(shared().onDedup(a.get(), b.get())); }
    static const bool supportDeduplication = Dedup;
    static const bool fastIndex = Fast;
  };

  struct QKind {
    const char* type;    // heap, tour, geo, set
    bool dedup, hasId, hasSize, hasDecrease, hasForAll, hasClear, hasMove, sortedRange;
    size_t entrySize;
    int keyMin, keyMax;
    size_t insertFactor; // of a geobucket
  };

  class IQueue {
  public:
    virtual ~IQueue() {}
    virtual void push(const E& e) = 0;
    virtual void pushRange(const std::vector<E>& v, unsigned how) = 0;
    virtual E pop() = 0;
    virtual E top() = 0;
    virtual bool empty() = 0;
    virtual size_t size() = 0;
    virtual void decreaseTop(const E& e) = 0;
    // stops after as many elements
    virtual void forAll(std::vector<E>& out, size_t stop, bool& calledAfterStop, bool useConst) = 0;
    virtual void clear() = 0;
    virtual std::string print() = 0;
    virtual std::string name() = 0;
    virtual size_t memoryUse() = 0;
    virtual IQueue* moveOut() = 0; // to a new queue that is returned
  };

  template<class Ent> struct Collector {
    std::vector<E>& out;
    size_t stop;
    bool done, late;
    bool proceed(const Ent& e) {
      MON_PAUSE
      if (done) { late = true; return false; }
      out.push_back(e.get());
      if (out.size() >= stop) { done = true; return false; }
      if (out.size() > shared().count * 2 + 1000) throw mon::Violation("steps", "visit without end");
      return true;
    }
  };

  // the operations that only some queues have
  template<class Q, bool B> struct Opt {
    static size_t size(Q& q) { return q.size(); }
  };
  template<class Q> struct Opt<Q, false> {
    static size_t size(Q&) { return 0; }
  };
  template<class Q, bool B> struct OptMove {
    static Q* move(Q& q) { return new Q(std::move(q)); }
  };
  template<class Q> struct OptMove<Q, false> {
    static Q* move(Q&) { return 0; }
  };
  template<class Q, bool B> struct OptBulk {
    typedef typename Q::Entry Ent;
    static void decreaseTop(Q& q, const E& e) { q.decreaseTop(Ent::make(e)); }
    static void clear(Q& q) { q.clear(); }
    static void forAll(Q& q, Collector<Ent>& c, bool useConst) {
      if (useConst) const_cast<const Q&>(q).forAll(c);
      else q.forAll(c);
    }
    static void range(Q& q, const std::vector<Ent>& v, unsigned how) {
      // The library must cope with any kind of random access iterator.
      if (how == 0) q.push(v.begin(), v.end());
      else if (how == 1) {
        const Ent* p = v.empty() ? 0 : &v[0];
        q.push(p, p + v.size());
      } else {
        std::vector<Ent> copy(v);
        Ent* p = copy.data();
        q.push(p, p + copy.size());
      }
    }
  };
  template<class Q> struct OptBulk<Q, false> {
    typedef typename Q::Entry Ent;
    static void decreaseTop(Q&, const E&) {}
    static void clear(Q&) {}
    static void forAll(Q&, Collector<Ent>&, bool) {}
    static void range(Q& q, const std::vector<Ent>& v, unsigned) {
      const Ent* p = v.empty() ? 0 : &v[0];
      q.push(p, p + v.size());
    }
  };

  template<class Q, bool Size, bool Bulk, bool Move>
  class QAdapter : public IQueue {
  public:
    typedef typename Q::Entry Ent;
    explicit QAdapter(const typename Q::Configuration& conf) { MON_SCOPE q.reset(new Q(conf)); }
    explicit QAdapter(Q* p): q(p) {}
    ~QAdapter() { MON_SCOPE q.reset(); }
    void push(const E& e) { MON_SCOPE q->push(Ent::make(e)); }
    void pushRange(const std::vector<E>& v, unsigned how) {
      std::vector<Ent> w;
      w.reserve(v.size());
      for (size_t i = 0; i < v.size(); ++i) w.push_back(Ent::make(v[i]));
      MON_SCOPE
      OptBulk<Q, Bulk>::range(*q, w, how);
    }
    E pop() { MON_SCOPE return q->pop().get(); }
    E top() { MON_SCOPE return q->top().get(); }
    bool empty() { return q->empty(); }
    size_t size() { return Opt<Q, Size>::size(*q); }
    void decreaseTop(const E& e) { MON_SCOPE OptBulk<Q, Bulk>::decreaseTop(*q, e); }
    void forAll(std::vector<E>& out, size_t stop, bool& late, bool useConst) {
      Collector<Ent> c = {out, stop, false, false};
      OptBulk<Q, Bulk>::forAll(*q, c, useConst);
      late = c.late;
    }
    void clear() { MON_SCOPE OptBulk<Q, Bulk>::clear(*q); }
    std::string print() { std::ostringstream o; const Q& c = *q; c.print(o); return o.str(); }
    std::string name() { const Q& c = *q; return c.getName(); }
    size_t memoryUse() { return q->getMemoryUse(); }
    IQueue* moveOut() { 
      Q* m = 0;
      { MON_SCOPE m = OptMove<Q, Move>::move(*q); }
      return new QAdapter(m);
    }
  private:
    std::unique_ptr<Q> q;
  };

  // how large the parts of a geobucket are is up to the case
  struct GeoParams { size_t base = 2, min = 4; };
  GeoParams& geoParams();

  template<class Q> struct MakeQ; // per queue type, in the files that register

  typedef IQueue* (*Maker)();
  void runQueueCase(Ctx& ctx, const QKind& kind, Maker make);

  template<class Ent> QKind kindOf(const char* type, bool dedup) {
    QKind k = {type, dedup, Ent::HasId, true, true, true, true, false, false, sizeof(Ent), Ent::keyMin(), Ent::keyMax(), 0};
    return k;
  }
}
#endif
