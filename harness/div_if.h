// Interface between the divisor structures and the engine that drives them,
// so that the engine is compiled once per type of exponents only.
#ifndef DIV_IF_H
#define DIV_IF_H
#include "div_common.h"
#include <functional>

namespace divmon {
  template<class Exp> struct IDiv {
    typedef EntryT<Exp> Entry;
    typedef MonoT<Exp> Monomial;
    virtual ~IDiv() {}
    virtual void insert(const Entry& e) = 0;
    virtual void insert(std::vector<Entry>& v, unsigned how) = 0;
    virtual bool removeMultiples(const Monomial& m) = 0;
    virtual bool removeMultiples(const Monomial& m, Removed<Entry>& out) = 0;
    virtual bool removeElement(const Monomial& m) = 0;
    virtual Entry* findDivisor(const Monomial& m) = 0;
    virtual const Entry* findDivisorConst(const Monomial& m) = 0;
    virtual const Entry* findDivisorIterator(const Monomial& m) = 0;
    virtual void findAllDivisors(const Monomial& m, Visitor<Entry>& v, bool constant) = 0;
    virtual void findAllMultiples(const Monomial& m, Visitor<Entry>& v, bool constant) = 0;
    virtual void forAll(Visitor<Entry>& v, bool constant) = 0;
    virtual void iterate(unsigned how, std::vector<const Entry*>& out) = 0;
    virtual void moveToFront(size_t index) = 0;
    virtual void rebuild() = 0;
    virtual void clear() = 0;
    virtual size_t size() const = 0;
    virtual bool empty() const = 0;
    virtual size_t getMemoryUse() const = 0;
    virtual std::string getName() const = 0;
    virtual size_t varCount() = 0;
    virtual void options(bool cache, bool automatic) = 0; // sets them on the configuration inside
  };

  template<class Exp> struct Kind {
    bool isList, removals, masks;
    size_t cap; // how many identical entries it holds
    IDiv<Exp>* (*make)(const ConfBase<Exp>&);
  };

  // Runs a case; defined in div_engine.cpp.
  template<class Exp> void divCase(Ctx& ctx, const Kind<Exp>& kind);

  // removal is only instantiated where it is allowed
  template<class T, bool Removals> struct Remover {
    template<class M> static bool multiples(T& t, const M& m) { return t.removeMultiples(m); }
    template<class M, class O> static bool multiples(T& t, const M& m, O& o) { return t.removeMultiples(m, o); }
    template<class M> static bool element(T& t, const M& m) { return t.removeElement(m); }
  };
  template<class T> struct Remover<T, false> {
    template<class M> static bool multiples(T&, const M&) { return false; }
    template<class M, class O> static bool multiples(T&, const M&, O&) { return false; }
    template<class M> static bool element(T&, const M&) { return false; }
  };

  // What lists and trees have in common.
  template<class T, bool Removals> struct Adapter : IDiv<typename T::Exponent> {
    typedef typename T::Exponent Exp;
    typedef EntryT<Exp> Entry;
    typedef MonoT<Exp> Monomial;
    typedef Remover<T, Removals> Rem;
    T t;
    static typename T::Configuration full(const ConfBase<Exp>& base) {
      typename T::Configuration c;
      static_cast<ConfBase<Exp>&>(c) = base;
      return c;
    }
    explicit Adapter(const ConfBase<Exp>& c): t(full(c)) {}
    void insert(const Entry& e) { MON_SCOPE t.insert(e); }
    void insert(std::vector<Entry>& v, unsigned how) { MON_SCOPE
      if (v.empty() || how == 0) t.insert(v.begin(), v.end());
      else t.insert(&v[0], &v[0] + v.size());
    }
    bool removeMultiples(const Monomial& m) { MON_SCOPE return Rem::multiples(t, m); }
    bool removeMultiples(const Monomial& m, Removed<Entry>& out) { MON_SCOPE return Rem::multiples(t, m, out); }
    bool removeElement(const Monomial& m) { MON_SCOPE return Rem::element(t, m); }
    Entry* findDivisor(const Monomial& m) { MON_SCOPE return t.findDivisor(m); }
    const Entry* findDivisorConst(const Monomial& m) { MON_SCOPE const T& ct = t; return ct.findDivisor(m); }
    const Entry* findDivisorIterator(const Monomial& m) { MON_SCOPE return t.findDivisor(m); }
    void findAllDivisors(const Monomial& m, Visitor<Entry>& v, bool constant) { MON_SCOPE
      if (constant) { const T& ct = t; ct.findAllDivisors(m, v); } else t.findAllDivisors(m, v);
    }
    void findAllMultiples(const Monomial& m, Visitor<Entry>& v, bool constant) { MON_SCOPE
      if (constant) { const T& ct = t; ct.findAllMultiples(m, v); } else t.findAllMultiples(m, v);
    }
    void forAll(Visitor<Entry>& v, bool constant) { MON_SCOPE
      if (constant) { const T& ct = t; ct.forAll(v); } else t.forAll(v);
    }
    void rebuild() { MON_SCOPE t.rebuild(); }
    size_t size() const { return t.size(); }
    bool empty() const { return t.empty(); }
    size_t getMemoryUse() const { return t.getMemoryUse(); }
    std::string getName() const { return t.getName(); }
    size_t varCount() { const T& ct = t; return t.getConfiguration().varCount + ct.getConfiguration().varCount; }
    void options(bool cache, bool automatic) { t.getConfiguration().cache = cache; t.getConfiguration().automatic = automatic; }
  };

  template<class T> struct ListAdapter : Adapter<T, true> {
    typedef Adapter<T, true> Base;
    typedef typename Base::Entry Entry;
    typedef typename Base::Monomial Monomial;
    using Base::t;
    explicit ListAdapter(const ConfBase<typename Base::Exp>& c): Base(c) {}
    const Entry* findDivisorIterator(const Monomial& m) {
      MON_SCOPE
      typename T::iterator it = t.findDivisorIterator(m);
      return it == t.end() ? 0 : &*it;
    }
    // contents in order of iteration, through one of the iterator types
    void iterate(unsigned how, std::vector<const Entry*>& out) {
      size_t limit = t.size() + 10;
      if (how == 0) {
        for (typename T::iterator it = t.begin(); it != t.end() && out.size() < limit; ++it)
          out.push_back(&*it);
      } else if (how == 1) {
        const T& ct = t;
        typename T::const_iterator it = ct.begin();
        while (it != ct.end() && out.size() < limit) { const Entry* p = it.operator->(); out.push_back(p); it++; }
      } else if (how == 2) {
        typename T::iterator it = t.end();
        while (it != t.begin() && out.size() < limit) { --it; out.push_back(it.operator->()); }
        std::reverse(out.begin(), out.end());
      } else {
        const T& ct = t;
        typename T::const_iterator it = ct.end();
        while (it != ct.begin() && out.size() < limit) { it--; out.push_back(&*it); }
        std::reverse(out.begin(), out.end());
      }
    }
    void moveToFront(size_t index) {
      MON_SCOPE
      typename T::iterator it = t.begin();
      for (size_t i = 0; i < index; ++i) ++it;
      t.moveToFront(it);
    }
    void clear() {}
    static IDiv<typename Base::Exp>* make(const ConfBase<typename Base::Exp>& c) { MON_SCOPE return new ListAdapter(c); }
    static void run(Ctx& ctx) {
      Kind<typename Base::Exp> k = {true, true, T::Configuration::UseDivMask, ~(size_t)0, &make};
      divCase<typename Base::Exp>(ctx, k);
    }
  };

  template<class T> struct TreeAdapter : Adapter<T, T::Configuration::AllowRemovals> {
    typedef Adapter<T, T::Configuration::AllowRemovals> Base;
    typedef typename Base::Entry Entry;
    using Base::t;
    explicit TreeAdapter(const ConfBase<typename Base::Exp>& c): Base(c) {}
    void iterate(unsigned, std::vector<const Entry*>& out) {
      Visitor<Entry> v(0);
      t.forAll(v);
      out.assign(v.addresses.begin(), v.addresses.end());
    }
    void moveToFront(size_t) {}
    void clear() { MON_SCOPE t.clear(); }
    static IDiv<typename Base::Exp>* make(const ConfBase<typename Base::Exp>& c) { MON_SCOPE return new TreeAdapter(c); }
    static void run(Ctx& ctx) {
      Kind<typename Base::Exp> k = {false, T::Configuration::AllowRemovals, T::Configuration::UseDivMask, T::Configuration::LeafSize, &make};
      divCase<typename Base::Exp>(ctx, k);
    }
  };
}
#endif
