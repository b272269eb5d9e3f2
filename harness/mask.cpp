// C05: divisibility masks never rule out a true divisor.
#include <mathic/DivMask.h>
#include "div_common.h"
using namespace divmon;
using mathic::DivMask;
namespace {
  template<class Exp> struct MaskConf : ConfBase<Exp> {
    static const bool UseDivMask = true;
  };
  template<class Exp> struct PlainConfT : ConfBase<Exp> {
    static const bool UseDivMask = false;
  };
  template<class Exp> void maskCase(Ctx& ctx) {
    typedef MaskConf<Exp> Conf;
    typedef DivMask::Calculator<Conf> Calc;
    typedef EntryT<Exp> Entry;
    typedef MonoT<Exp> Mono;
    typedef DivMask::Extender<Entry, true> ExtE;
    typedef DivMask::Extender<const Mono&, true> ExtM;
    typedef DivMask::Extender<Entry, false> PlainE;
    typedef DivMask::Extender<const Mono&, false> PlainM;
    typedef std::vector<Exp> Vec;
    watch().reset();
    Rng& rng = ctx.rng;
    Gen<Exp> gen(ctx);
    Conf conf;
    conf.varCount = gen.vars;
    ctx.arg(gen.vars); ctx.arg(gen.bound); ctx.arg(gen.extreme);
    Calc calc(conf);
    size_t rounds = rng.range(1, 3);
    for (size_t round = 0; round < rounds; ++round) {
      // what the bits are chosen from
      size_t n = rng.chance(1, 6) ? 0 : rng.skewed(40);
      bool same = rng.chance(1, 8), defaults = rng.chance(1, 5) && round > 0;
      std::vector<Entry> base;
      for (size_t i = 0; i < n; ++i) base.push_back(Entry(i + 1, same && i > 0 ? base[0].exps() : gen.make()));
      ctx.op("round"); ctx.arg(n); ctx.arg(defaults);
      if (defaults) calc.rebuildDefault(conf);
      else if (round > 0 || rng.chance(4, 5)) {
        unsigned how = (unsigned)rng.below(3);
        if (how == 0 || base.empty()) calc.rebuild(base.begin(), base.end(), conf);
        else if (how == 1) calc.rebuild(&base[0], &base[0] + base.size(), conf);
        else {
          std::vector<Mono> monos;
          for (size_t i = 0; i < base.size(); ++i) monos.push_back(Mono(base[i].exps()));
          calc.rebuild(monos.begin(), monos.end(), conf);
        }
      }
      // monomials, many of them related to each other and to the base
      size_t m = rng.range(2, 30);
      std::vector<Vec> v;
      for (size_t i = 0; i < m; ++i) v.push_back(rng.coin() ? gen.make() : gen.query());
      for (size_t i = 0; i < base.size() && i < 10; ++i) v.push_back(base[i].exps());
      // multiples and divisors of what is there
      size_t k = v.size();
      for (size_t i = 0; i < k && i < 12; ++i) {
        Vec x = v[rng.below(k)];
        bool up = rng.coin();
        for (size_t j = 0; j < x.size(); ++j)
          if (rng.chance(1, 2)) x[j] = up ? gen.up(x[j]) : gen.down(x[j]);
        v.push_back(x);
      }
      for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < v[i].size(); ++j) ctx.hash = mix(ctx.hash ^ (u64)v[i][j]);
      std::vector<Mono> monos;
      for (size_t i = 0; i < v.size(); ++i) monos.push_back(Mono(v[i]));
      std::vector<DivMask> masks;
      std::vector<ExtE> ext;
      std::vector<PlainE> plain;
      for (size_t i = 0; i < v.size(); ++i) {
        Entry e(100 + i, v[i]);
        masks.push_back(rng.coin() ? DivMask(e, calc, conf) : DivMask(monos[i], calc, conf));
        if (rng.chance(1, 4)) { // a mask computed again is the same
          DivMask again;
          again.recalculate(monos[i], calc, conf);
          MON_CHECK(ctx, "X", again == masks.back() && !(again != masks.back()), "recalculated mask differs for " << show(v[i]));
        }
        ext.push_back(ExtE(e, calc, conf));
        plain.push_back(PlainE(e, DivMask::Calculator<PlainConfT<Exp> >(PlainConfT<Exp>()), PlainConfT<Exp>()));
        if (rng.chance(1, 4)) ext.back().recalculateDivMask(calc, conf);
      }
      for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < v.size(); ++j) {
          bool div = vdivides(v[i], v[j]);
          ctx.count("pairs")++;
          if (div && i != j) { ctx.count("pairs that divide")++; ctx.nontrivial = true; }
          if (!div && !masks[i].canDivide(masks[j])) ctx.count("pairs ruled out by mask")++;
          MON_CHECK(ctx, "X", !div || masks[i].canDivide(masks[j]), show(v[i]) << " divides " << show(v[j])
            << " but its mask cannot divide");
          ExtM ref(monos[j], calc, conf);
          MON_CHECK(ctx, "X", ext[i].divides(ref, conf) == div, "Extender::divides is wrong for " << show(v[i]) << ' ' << show(v[j]));
          MON_CHECK(ctx, "X", ref.divides(ext[i], conf) == vdivides(v[j], v[i]), "Extender::divides is wrong for " << show(v[j]) << ' ' << show(v[i]));
          MON_CHECK(ctx, "X", ext[i].divides(ext[j], conf) == div, "Extender::divides is wrong between entries " << show(v[i]) << ' ' << show(v[j]));
          MON_CHECK(ctx, "X", !div || ext[i].canDivide(ref), "an extended entry cannot divide a multiple");
          MON_CHECK(ctx, "X", plain[i].divides(plain[j], conf) == div, "Extender without mask is wrong");
          MON_CHECK(ctx, "X", &ref.get() == &monos[j], "Extender of a reference copied");
        }
      // bounds
      for (int r = 0; r < 6; ++r) {
        DivMask::HasDivMask<true> has;
        DivMask low = DivMask::getMaxMask();
        bool fromReset = rng.coin();
        if (fromReset) has.resetDivMask();
        std::vector<size_t> in;
        size_t count = rng.range(1, 8);
        for (size_t i = 0; i < count; ++i) {
          size_t x = rng.below(v.size());
          in.push_back(x);
          low.combineAnd(masks[x]);
          if (i % 2) has.updateToLowerBound(ext[x]);
          else { DivMask::HasDivMask<true> one; one.updateToLowerBound(ext[x]); has.updateToLowerBound(one); }
        }
        ctx.count("bounds")++;
        for (size_t i = 0; i < in.size(); ++i)
          for (size_t j = 0; j < v.size(); ++j)
            if (vdivides(v[in[i]], v[j])) {
              MON_CHECK(ctx, "X", low.canDivide(masks[j]), "a lowered mask cannot divide " << show(v[j]) << ", a multiple of " << show(v[in[i]]));
              MON_CHECK(ctx, "X", has.getDivMask().canDivide(masks[j]), "a lower bound cannot divide " << show(v[j]) << ", a multiple of " << show(v[in[i]]));
              MON_CHECK(ctx, "X", has.canDivide(ext[j]), "a lower bound cannot divide " << show(v[j]) << ", a multiple of " << show(v[in[i]]));
            }
      }
    }
    MON_CHECK(ctx, "X", watch().misuse.empty(), watch().misuse);
    MON_CHECK(ctx, "L", watch().error.empty(), watch().error);
  }
}
#define REG(E, name) static mon::Registrar r_##name("mask-" #name, "C05 C28 C35", &maskCase<E>);
#if MON_PART == 0
REG(int, int)
REG(unsigned char, byte)
#elif MON_PART == 1
REG(long long, long)
REG(unsigned, unsigned)
#else
REG(short, short)
REG(signed char, signedByte)
#endif
