// The packed complete binary tree.
//
// Oracle T: an array of records.
#include <mathic/ComTree.h>
#include "q_if.h"
namespace {
  using namespace qmon;
  template<class Ent, bool FI> struct ComEngine {
    typedef mathic::ComTree<Ent, FI> Tree;
    typedef typename Tree::Node Node;
    struct Both { std::unique_ptr<Tree> tree; std::vector<E> model; };
    Ctx& ctx;
    std::vector<Both> trees;
    uint32_t nextId;

    explicit ComEngine(Ctx& c): ctx(c), nextId(1) {}

    E fresh(Rng& r) {
      E e = {(int)r.range(0, 200) - 100, Ent::HasId ? nextId++ : 0, 0};
      if (Ent::HasId) e.pay = (uint32_t)mix(e.id);
      return e;
    }
    static Node at(size_t i) { return Node().next(i - 1); }

    void check(const Both& b, Rng& r, bool full) {
      const Tree& t = *b.tree;
      const size_t n = b.model.size();
      MON_MUST(ctx, "T", t.size() == n, "size() is " << t.size() << " with " << n << " elements inside");
      MON_CHECK(ctx, "T", t.empty() == (n == 0), "empty() is " << t.empty() << " with " << n << " elements inside");
      MON_CHECK(ctx, "T", t.capacity() >= n, "capacity() is " << t.capacity() << " with " << n << " elements inside");
      MON_CHECK(ctx, "T", t.getMemoryUse() >= n * sizeof(Ent), "getMemoryUse() is " << t.getMemoryUse() << " with " << n << " elements of " << sizeof(Ent) << " bytes");
      size_t room = t.capacity() - n;
      for (size_t x = room < 2 ? 0 : room - 2; x < room + 3; ++x)
        MON_CHECK(ctx, "T", t.hasFreeCapacity(x) == (x <= room), "hasFreeCapacity(" << x << ") is " << t.hasFreeCapacity(x) << " with " << n << " of " << t.capacity());
      if (n == 0) return;
      MON_CHECK(ctx, "T", t.lastLeaf() == at(n), "lastLeaf() is not the node of the last of " << n << " elements");
      if (!full) { element(t, b.model, r.range(1, n)); element(t, b.model, n); return; }
      size_t i = 0;
      for (Node node; node <= t.lastLeaf(); ++node) {
        ++i;
        MON_MUST(ctx, "T", i <= n, "there are more than " << n << " nodes up to the last leaf");
        MON_CHECK(ctx, "T", t[node].get() == b.model[i - 1], "element " << i << " of " << n << " is not what was stored");
      }
      MON_CHECK(ctx, "T", i == n, "there are " << i << " nodes up to the last leaf with " << n << " elements");
      ctx.count("elements read") += n;
    }
    void element(const Tree& t, const std::vector<E>& m, size_t i) {
      MON_CHECK(ctx, "T", t[at(i)].get() == m[i - 1], "element " << i << " of " << m.size() << " is not what was stored");
      ctx.count("elements read")++;
    }

    // the nodes around the node of index i
    void navigate(size_t i) {
      ctx.count("nodes navigated")++;
      const Node x = at(i);
      MON_CHECK(ctx, "T", x.isRoot() == (i == 1), "isRoot() of node " << i << " is " << x.isRoot());
      MON_CHECK(ctx, "T", (x.isLeft() != 0) == (i % 2 == 0), "isLeft() of node " << i << " is " << x.isLeft());
      MON_CHECK(ctx, "T", (x.isRight() != 0) == (i % 2 == 1), "isRight() of node " << i << " is " << x.isRight());
      MON_CHECK(ctx, "T", x.left() == at(2 * i), "left() of node " << i);
      MON_CHECK(ctx, "T", x.right() == at(2 * i + 1), "right() of node " << i);
      MON_CHECK(ctx, "T", x.next() == at(i + 1), "next() of node " << i);
      MON_CHECK(ctx, "T", x.next(i) == at(2 * i), "next(" << i << ") of node " << i);
      Node y = x;
      MON_CHECK(ctx, "T", ++y == at(i + 1) && y == at(i + 1), "++ of node " << i);
      if (i > 1) {
        MON_CHECK(ctx, "T", x.prev() == at(i - 1), "prev() of node " << i);
        MON_CHECK(ctx, "T", x.parent() == at(i / 2), "parent() of node " << i);
        MON_CHECK(ctx, "T", x.sibling() == at(i ^ 1), "sibling() of node " << i);
        MON_CHECK(ctx, "T", x.leftSibling() == at(i & ~(size_t)1), "leftSibling() of node " << i);
      }
      for (int d = -1; d <= 1; ++d) {
        if (i == 1 && d < 0) continue;
        const Node z = at(i + d);
        MON_CHECK(ctx, "T", (x < z) == (d > 0) && (x <= z) == (d >= 0) && (x > z) == (d < 0) && (x >= z) == (d <= 0) &&
          (x == z) == (d == 0) && (x != z) == (d != 0), "nodes " << i << " and " << i + d << " are ordered wrongly");
      }
    }

    void print(const Both& b) {
      std::ostringstream out;
      if (ctx.rng.coin()) b.tree->print(out); else out << *b.tree;
      // the elements, apart from what ends with a colon
      std::istringstream in(out.str());
      std::vector<int> keys;
      std::string w;
      while (in >> w) {
        while (!w.empty() && (w[w.size() - 1] == '}' || w[0] == '{')) { if (w[0] == '{') w.erase(0, 1); else w.erase(w.size() - 1); }
        if (w.empty() || w[w.size() - 1] == ':') continue;
        keys.push_back(atoi(w.c_str()));
      }
      bool same = keys.size() == b.model.size();
      for (size_t i = 0; same && i < keys.size(); ++i) same = keys[i] == b.model[i].key;
      MON_CHECK(ctx, "T", same, "print() does not print the elements in order");
    }

    void run() {
      Rng& rng = ctx.rng;
      QShared& s = shared();
      s.reset();
      bool big = mon::Large && rng.chance(1, 100);
      const size_t n = rng.range(10, ctx.tier ? 400 : 200);
      const size_t most = big ? 100000 : rng.chance(1, 3) ? 40 : 1500;
      trees.resize(1);
      {
        size_t c = rng.coin() ? 0 : rng.skewed(most);
        if (rng.coin()) { c = 0; trees[0].tree.reset(new Tree()); }
        else trees[0].tree.reset(new Tree(c));
        ctx.op("new"); ctx.arg(c);
        MON_CHECK(ctx, "T", trees[0].tree->hasFreeCapacity(c), "there is no room for " << c << " elements in a tree made for that");
      }
      size_t largest = 0;
      for (size_t k = 0; k < n; ++k) {
        const u64 seed = rng.next();
        Rng r(seed);
        ctx.hash = mix(ctx.hash ^ seed);
        size_t w = r.below(trees.size());
        Both* b = &trees[w];
        Tree& t = *b->tree;
        ctx.arg(w);
        unsigned x = (unsigned)r.below(100);
        if (x < 45) {
          size_t m = r.chance(1, 4) ? r.skewed(most) : 1;
          ctx.op("push"); ctx.arg(m);
          for (size_t i = 0; i < m && b->model.size() < 2 * most + 50; ++i) {
            E e = fresh(r);
            // also elements of the tree itself
            if (!b->model.empty() && r.chance(1, 10)) {
              size_t from = r.range(1, b->model.size());
              E c = b->model[from - 1];
              b->model.push_back(c);
              Ent copy = t[at(from)];
              t.pushBack(copy);
            } else { b->model.push_back(e); t.pushBack(Ent::make(e)); }
          }
        } else if (x < 52) {
          size_t m = std::min<size_t>(t.capacity() - t.size(), r.skewed(100));
          if (!t.hasFreeCapacity(m)) m = 0;
          ctx.op("pushWithCapacity"); ctx.arg(m);
          for (size_t i = 0; i < m; ++i) { E e = fresh(r); b->model.push_back(e); t.pushBackWithCapacity(Ent::make(e)); }
        } else if (x < 68) {
          size_t m = r.chance(1, 4) ? r.skewed(b->model.size() + 1) : 1;
          ctx.op("pop"); ctx.arg(m);
          for (size_t i = 0; i < m && !b->model.empty(); ++i) { b->model.pop_back(); t.popBack(); }
        } else if (x < 76) {
          ctx.op("set");
          for (size_t i = 0; i < 3 && !b->model.empty(); ++i) {
            size_t p = r.range(1, b->model.size());
            E e = fresh(r);
            b->model[p - 1] = e;
            t[at(p)] = Ent::make(e);
          }
        } else if (x < 80) {
          ctx.op("grow");
          size_t c = t.capacity();
          if (c < 4 * most + 50) {
            t.increaseCapacity();
            MON_CHECK(ctx, "T", t.capacity() > c, "increaseCapacity() made the capacity go from " << c << " to " << t.capacity());
            ctx.count("growths asked for")++;
          }
        } else if (x < 82) {
          ctx.op("clear");
          b->model.clear();
          t.clear();
          ctx.count("trees cleared")++;
        } else if (x < 90 && trees.size() < 5) {
          size_t c = r.coin() ? 0 : r.skewed(2 * b->model.size() + 20);
          ctx.op("copy"); ctx.arg(c);
          Both d;
          d.model = b->model;
          const Tree& from = t;
          if (c == 0 && r.coin()) d.tree.reset(new Tree(from));
          else d.tree.reset(new Tree(from, c));
          MON_CHECK(ctx, "T", d.tree->capacity() >= c, "a copy that was to have a capacity of " << c << " has " << d.tree->capacity());
          trees.push_back(std::move(d));
          ctx.count("trees copied")++;
          if (!trees.back().model.empty()) ctx.count("elements copied") += trees.back().model.size();
        } else if (x < 94 && trees.size() < 5) {
          ctx.op("move");
          Both d;
          d.tree.reset(new Tree(std::move(t)));
          d.model.swap(b->model);
          trees.push_back(std::move(d));
          ctx.count("trees moved")++;
        } else if (x < 97 && trees.size() > 1) {
          size_t o = r.below(trees.size());
          ctx.op("swap"); ctx.arg(o);
          t.swap(*trees[o].tree);
          if (o != w) b->model.swap(trees[o].model);
          ctx.count("trees swapped")++;
        } else if (trees.size() > 1) {
          ctx.op("destroy");
          trees.erase(trees.begin() + w);
        }
        for (size_t i = 0; i < trees.size(); ++i) {
          check(trees[i], r, r.chance(1, trees[i].model.size() > 3000 ? 20 : 3) || k + 1 == n);
          if (trees[i].model.size() > largest) largest = trees[i].model.size();
        }
        if (r.chance(1, 20)) for (size_t i = 0; i < 10; ++i) navigate(1 + r.skewed(200000));
        if (k + 1 == n) { print(trees[0]); for (size_t i = 1; i < 40; ++i) navigate(i); }
        if (ctx.logging) ctx.log += k % 10 == 9 ? "\n" : "; ";
      }
      MON_CHECK(ctx, "T", s.uninit == 0, "an element that was never stored was handed out");
      if (largest >= 8) ctx.nontrivial = true;
      if (largest > ctx.count("MAX elements in a tree")) ctx.count("MAX elements in a tree") = largest;
      trees.clear();
      MON_CHECK(ctx, "T C28", s.ownedAlive == 0, s.ownedAlive << " elements are left after all trees were destroyed");
    }
  };
  template<class Ent, bool FI> void comCase(Ctx& ctx) {
    ComEngine<Ent, FI> e(ctx);
    e.run();
  }
  mon::Registrar c0("comtree-p16", "C33 C28 C35", &comCase<P16, false>);
  mon::Registrar c1("comtree-p16fi", "C33 C28 C35", &comCase<P16, true>);
  mon::Registrar c2("comtree-odd24", "C33 C28 C35", &comCase<Odd24, false>);
  mon::Registrar c3("comtree-odd12", "C33 C28 C35", &comCase<Odd12, false>);
  mon::Registrar c4("comtree-int4fi", "C33 C28 C35", &comCase<Int4, true>);
  mon::Registrar c5("comtree-byte1fi", "C33 C28 C35", &comCase<Byte1, true>);
  mon::Registrar c6("comtree-big32fi", "C33 C28 C35", &comCase<Big32, true>);
  mon::Registrar c7("comtree-owned", "C33 C28 C35", &comCase<Owned, false>, 2);
  mon::Registrar c8("comtree-ownedfi", "C33 C28 C35", &comCase<Owned, true>, 2);
}
