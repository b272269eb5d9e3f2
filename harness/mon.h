// Common part of all monitors: seeded cases, verdicts, counters, replay.
//
// A harness binary consists of this file's main (mon_main.cpp) and of files
// that register case functions. A case function drives the real code with a
// workload chosen by ctx.rng and watches it with oracles. A case is fully
// determined by (mode, seed, case number), so that it can be replayed.
#ifndef MON_H
#define MON_H
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <algorithm>

namespace mon {
  typedef uint64_t u64;

  // Whether workloads may be so large that only fast builds cope with them.
#ifdef MON_SMALL
  const bool Large = false;
#else
  const bool Large = true;
#endif

  inline u64 mix(u64 x) { // splitmix64 finaliser
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
  }

  // Cases that run together, see together.h, have a slot each. What belongs to
  // one case and can not be passed around is kept by slot.
  const unsigned MaxSlots = 9;
  extern __thread unsigned slot;
  template<class T> __attribute__((noinline)) T* perCaseMake() { static T all[MaxSlots]; return all; }
  // used very often: no objects on the stack, which AddressSanitizer would track
  template<class T> T& perCase() { static T* const all = perCaseMake<T>(); return all[slot]; }
  extern bool yielding;
  void afterThrow(); // after an exception of the code under test was caught
  void yieldNow(bool between);
  inline void mayYield() { if (yielding) yieldNow(false); } // in a call of a configuration
  inline void mayYieldBetween() { if (yielding) yieldNow(true); } // between operations

  class Rng {
  public:
    explicit Rng(u64 s = 1): s_(mix(s) | 1) {}
    u64 next() { s_ += 0x9E3779B97F4A7C15ull; return mix(s_); }
    u64 below(u64 n) { return n == 0 ? 0 : next() % n; } // [0,n)
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); } // [a,b]
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    bool coin() { return next() & 1; }
    // small numbers most of the time, large ones sometimes
    u64 skewed(u64 max) {
      if (max == 0) return 0;
      unsigned bits = 0;
      while (bits < 63 && (max >> bits) != 0) ++bits;
      u64 m = u64(1) << range(0, bits);
      if (m > max) m = max;
      return below(m + 1);
    }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template<class T> void shuffle(std::vector<T>& v) {
      for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
  private:
    u64 s_;
  };

  // The property is broken in the running case.
  struct Violation : std::exception {
    std::string tag, msg;
    Violation(const std::string& t, const std::string& m): tag(t), msg(m) {}
    const char* what() const noexcept override { return msg.c_str(); }
  };
  // Something went wrong that is the business of another property.
  struct Foreign : std::exception {
    std::string tag, msg;
    Foreign(const std::string& t, const std::string& m): tag(t), msg(m) {}
    const char* what() const noexcept override { return msg.c_str(); }
  };

  struct Ctx {
    std::string mode;      // the property being checked
    u64 seed = 1, index = 0;
    int tier = 0;          // 0 quick, 1 thorough
    Rng rng;
    bool logging = false;  // keep the trace of the case
    std::string log;
    u64 hash = 0;          // of the configuration and operations of the case
    bool nontrivial = false;
    std::string config;
    std::map<std::string, u64> counts; // what the monitors saw, over all cases
    std::set<std::string> tags; // oracles that decide the property

    void op(const char* name) {
      mayYieldBetween();
      for (const char* c = name; *c; ++c) hash = mix(hash ^ (unsigned char)*c);
      if (logging) { log += name; log += ' '; }
    }
    void arg(u64 v) {
      hash = mix(hash ^ v);
      if (logging) log += std::to_string((long long)v) + ' ';
    }
    void argS(const std::string& s) {
      for (size_t i = 0; i < s.size(); ++i) hash = mix(hash ^ (unsigned char)s[i]);
      if (logging) {
        log += '"';
        for (size_t i = 0; i < s.size() && i < 400; ++i) {
          unsigned char c = s[i];
          if (c == '\n') log += "\\n";
          else if (c < 32 || c == '"' || c == '\\' || c > 126) {
            char b[8]; snprintf(b, sizeof b, "\\x%02x", c); log += b;
          } else log += (char)c;
        }
        log += "\" ";
      }
    }
    void endl() { if (logging) log += '\n'; }
    void setConfig(const std::string& c) {
      config = c;
      for (size_t i = 0; i < c.size(); ++i) hash = mix(hash ^ (unsigned char)c[i]);
      if (logging) log += "config: " + c + '\n';
    }
    u64& count(const char* what) { return counts[what]; }
    // tag is one or more names of oracles separated by spaces
    bool active(const char* tag) const {
      std::istringstream in(tag);
      std::string t;
      while (in >> t)
        if (tags.count(t) != 0)
          return true;
      return false;
    }
    // Soft: the case goes on after a failure that is the business of another
    // property, as what is expected afterwards follows from the history alone.
    bool soft = false;
    std::string softTag, softMsg; // the first such failure
    void fail(const char* tag, const std::string& msg, bool must = false) {
      if (active(tag)) throw Violation(tag, msg);
      if (!soft || must) throw Foreign(tag, msg);
      if (softTag.empty()) { softTag = tag; softMsg = msg; }
    }
  };

  typedef void (*CaseFn)(Ctx&);
  struct Registered {
    const char* name;
    const char* modes; // space-separated property ids
    CaseFn fn;
    unsigned weight;
  };
  inline std::vector<Registered>& registry() {
    static std::vector<Registered> r;
    return r;
  }
  struct Registrar {
    Registrar(const char* name, const char* modes, CaseFn fn, unsigned weight = 1) {
      Registered r = {name, modes, fn, weight};
      registry().push_back(r);
    }
  };

  // Bounds the work of callbacks, so that endless loops end in a verdict.
  struct StepLimit {
    struct Left { u64 n = 0; };
    static u64& left() { return perCase<Left>().n; }
    static void set(u64 n) { left() = n; }
    static void step();
  };

  template<class T> std::string str(const T& t) { std::ostringstream o; o << t; return o.str(); }
  inline std::string shown(const std::string& s) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
      unsigned char c = s[i];
      if (c == '\n') r += "\\n";
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
      else r += (char)c;
    }
    return r + '"';
  }
}

#define MON_FAIL_IF(ctx, tag, cond, msg, must) \
  do { \
    if (cond) { \
      std::ostringstream mon_out; \
      mon_out << msg; \
      (ctx).fail(tag, mon_out.str(), must); \
    } \
  } while (false)
#define MON_CHECK(ctx, tag, cond, msg) MON_FAIL_IF(ctx, tag, !(cond), msg, false)
// The case can not go on without this.
#define MON_MUST(ctx, tag, cond, msg) MON_FAIL_IF(ctx, tag, !(cond), msg, true)
// The assertions of the library call the configuration, too.
#ifdef MATHIC_DEBUG
#define MON_COST(ctx, tag, cond, msg) do {} while (false)
#else
#define MON_COST MON_CHECK
#endif
#endif
