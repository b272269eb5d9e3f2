// The geobucket in all its configurations, with the engine of q_engine.cpp.
#include <mathic/Geobucket.h>
#include "q_if.h"
using namespace qmon;
namespace {
  // bits of F: 1 deduplication, 2 binary search, 4 track front, 8 premerge,
  // 16 cached maxima, then the storage times 32
  template<class Ent, unsigned F, size_t Factor>
  struct GeoConf : ConfObj<Ent, (F & 1) != 0, false> {
    GeoConf(): minBucketSize(geoParams().min), geoBase(geoParams().base) {}
    size_t minBucketSize, geoBase;
    static const size_t insertFactor = Factor;
    static const bool minBucketBinarySearch = (F & 2) != 0;
    static const bool trackFront = (F & 4) != 0;
    static const bool premerge = (F & 8) != 0;
    static const bool collectMax = (F & 16) != 0;
    static const mathic::GeobucketBucketStorage bucketStorage = static_cast<mathic::GeobucketBucketStorage>(F / 32);
  };
  template<class Conf> IQueue* makeGeo() {
    return new QAdapter<mathic::Geobucket<Conf>, true, true, false>(Conf());
  }
  template<class Conf> void geoCase(Ctx& ctx) {
    QKind k = kindOf<typename Conf::Entry>("geo", Conf::supportDeduplication);
    k.sortedRange = true;
    k.insertFactor = Conf::insertFactor;
    runQueueCase(ctx, k, &makeGeo<Conf>);
  }
  std::vector<std::string>& names() { static std::vector<std::string> v; return v; }
  const char* keep(const std::string& s) {
    static std::list<std::string> v;
    v.push_back(s);
    return v.back().c_str();
  }
  template<unsigned F> constexpr size_t factorOf() { return F % 5 == 0 ? 1 : F % 5 == 1 ? 2 : F % 5 == 2 ? 1 : F % 5 == 3 ? 3 : 8; }

  // F from Begin, every Step
  template<class Ent, unsigned F, unsigned Step> struct RegAll {
    static void go(const char* entName, const char* extra) {
      std::string name = std::string("geo-") + entName + (F & 1 ? "-dedup" : "") + (F & 2 ? "-mbin" : "") +
        (F & 4 ? "-tf" : "") + (F & 8 ? "-prem" : "") + (F & 16 ? "-col" : "") +
        (F / 32 == 1 ? "-db" : F / 32 == 2 ? "-ss" : "") + "-i" + std::to_string((unsigned long)factorOf<F>());
      std::string modes = std::string("C12 C15 C28 C35 C37 ") + extra + (F & 1 ? " C14" : "");
      mon::Registrar(keep(name), keep(modes), &geoCase<GeoConf<Ent, F, factorOf<F>()> >);
      RegAll<Ent, F + Step, Step>::go(entName, extra);
    }
  };
#define STOP(Ent, n, s) template<> struct RegAll<Ent, n, s> { static void go(const char*, const char*) {} };
#define PARTS 12
#if MON_PART < PARTS
  STOP(P16, 96 + MON_PART, PARTS)
  // every configuration takes part somewhere; owning entries in every third
  #define OWNED_BEGIN ((MON_PART * 7) % 31)
  template<class Ent, unsigned F> void one(const char* entName) {
    std::string name = std::string("geo-") + entName + "-" + std::to_string(F);
    std::string modes = std::string("C12 C15 C28 C35 C37") + (F & 1 ? " C14" : "");
    mon::Registrar(keep(name), keep(modes), &geoCase<GeoConf<Ent, F, 1 + F % 3> >);
  }
  struct Init {
    Init() {
      RegAll<P16, MON_PART, PARTS>::go("p16", "C29 C30");
      one<Owned, (MON_PART * 5 + 1) % 32>("owned");
      one<Owned, 32 + (MON_PART * 11 + 2) % 32>("owned");
      one<Owned, 64 + (MON_PART * 13 + 3) % 32>("owned");
      one<Odd24, (MON_PART * 8 + 5) % 96>("odd24");
    }
  } init;
#endif
}
