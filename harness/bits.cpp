// C20: the bit triangle. Oracles: I bits and counts, M reported memory use.
#include <mathic/BitTriangle.h>
#include "mon.h"
#include <memory>
#ifdef MON_MEMORY
#include "mem_hook.h"
#define MON_SCOPE mon::MemScope mon_scope;
#else
#define MON_SCOPE
#endif
using namespace mon;
namespace {
  void bitCase(Ctx& ctx) {
    Rng& rng = ctx.rng;
#ifdef MON_MEMORY
    size_t liveBase = MemHook::live();
#endif
    std::unique_ptr<mathic::BitTriangle> t;
    { MON_SCOPE t.reset(new mathic::BitTriangle()); }
    std::vector<std::vector<char> > model;
    u64 bits = 0;
    size_t steps = rng.range(5, ctx.tier ? 300 : 120);
    size_t maxCols = rng.chance(1, 200) ? 2500 : rng.chance(1, 4) ? 700 : rng.range(2, 150);
    bool sawTrue = false;
    for (size_t s = 0; s < steps; ++s) {
      unsigned x = (unsigned)rng.below(10);
      if (x < 4 || model.empty()) {
        size_t n = maxCols > 2000 ? rng.range(0, 600) : rng.chance(1, 8) ? rng.range(0, 150) : rng.range(1, 3);
        for (size_t i = 0; i < n && model.size() < maxCols; ++i) {
          { MON_SCOPE t->addColumn(); }
          bits += model.size();
          model.push_back(std::vector<char>(model.size(), 0));
          ctx.op("add");
          MON_CHECK(ctx, "I", t->columnCount() == model.size(), "columnCount() is " << t->columnCount() << " after " << model.size() << " additions");
          for (size_t r = 0; r + 1 < model.size(); ++r) {
            MON_CHECK(ctx, "I", !t->bit(model.size() - 1, r), "bit (" << model.size() - 1 << ',' << r << ") of a new column is set");
            ctx.count("bits read")++;
          }
        }
      } else if (x < 8 && model.size() >= 2) {
        size_t n = rng.chance(1, 6) ? rng.range(1, 200) : rng.range(1, 5);
        bool mostly = rng.coin();
        for (size_t i = 0; i < n; ++i) {
          size_t c = rng.chance(1, 4) ? model.size() - 1 : rng.range(1, model.size() - 1), r = rng.chance(1, 6) ? c - 1 : rng.chance(1, 6) ? 0 : rng.below(c);
          bool v = rng.chance(3, 4) == mostly;
          unsigned how = (unsigned)rng.below(3);
          ctx.op(v ? "set" : "unset"); ctx.arg(c); ctx.arg(r); ctx.arg(how);
          if (how == 0) t->setBit(c, r, v);
          else if (how == 1) t->setBitUnordered(c, r, v);
          else t->setBitUnordered(r, c, v);
          model[c][r] = v;
          sawTrue = sawTrue || v;
          ctx.count("bits set")++;
          // bits that share words with it
          for (size_t rr = r > 3 ? r - 3 : 0; rr < c && rr < r + 4; ++rr)
            MON_CHECK(ctx, "I", t->bit(c, rr) == (model[c][rr] != 0), "bit (" << c << ',' << rr << ") reads " << t->bit(c, rr) << " after setting (" << c << ',' << r << ')');
        }
      }
      const mathic::BitTriangle& ct = *t;
      MON_CHECK(ctx, "I", ct.columnCount() == model.size() && ct.empty() == model.empty(), "columnCount() is " << ct.columnCount() << " and empty() " << ct.empty() << " with " << model.size() << " columns");
      if ((s % 8 == 7 && (model.size() < 120 || s % 48 == 47)) || s + 1 == steps)
        for (size_t c = 0; c < model.size(); ++c)
          for (size_t r = 0; r < c; ++r) {
            bool v = model[c][r] != 0;
            ctx.count("bits read") += 1;
            MON_CHECK(ctx, "I", ct.bit(c, r) == v, "bit (" << c << ',' << r << ") reads " << !v << " but was last " << (v ? "set" : "unset"));
            MON_CHECK(ctx, "I", ct.bitUnordered(c, r) == v && ct.bitUnordered(r, c) == v, "bitUnordered of " << c << " and " << r << " differs from the value set");
          }
#ifdef MON_MEMORY
      size_t m = ct.getMemoryUse(), live = MemHook::live() - liveBase;
      ctx.count("memory reports")++;
      MON_CHECK(ctx, "M", m * 8 >= bits, "getMemoryUse() is " << m << " bytes with " << bits << " bits");
      MON_CHECK(ctx, "M", live <= m + m / 4 + 2048, "getMemoryUse() is " << m << " but " << live << " bytes are allocated");
      MON_CHECK(ctx, "M", m <= live + live / 2 + 256, "getMemoryUse() is " << m << " with " << live << " bytes allocated");
#endif
    }
    if (sawTrue && model.size() > 3) ctx.nontrivial = true;
    if (model.size() > ctx.count("MAX columns")) ctx.count("MAX columns") = model.size();
  }
  mon::Registrar r("bits", "C20 C28 C35 C30", &bitCase);
}
