// main of every harness binary. See mon.h.
#include "mon.h"
#include "together.h"
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <time.h>
#include <functional>

#ifdef __SANITIZE_ADDRESS__
extern "C" void __asan_handle_no_return();
#endif
namespace mon {
  // AddressSanitizer keeps frames that exceptions left, and grows slow by it;
  // this makes it look for them.
  void afterThrow() {
#ifdef __SANITIZE_ADDRESS__
    if (slot == 0) __asan_handle_no_return();
#endif
  }
  __thread unsigned slot = 0;
  bool yielding = false;
  void yieldNow(bool between) { if (Fibers::active()) Fibers::active()->yield(between); }
  void StepLimit::step() {
    mayYield();
    if (left() == 0) return;
    if (--left() == 0) {
      left() = 0;
      throw Violation("steps", "the operation did not end within the step limit");
    }
  }
}

using namespace mon;

static std::string jsonStr(const std::string& s) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + '"';
}

static Result guarded(const std::function<void(Ctx&)>& f, Ctx& ctx) {
  Result res = {false, false, "", ""};
  try {
    f(ctx);
    if (!ctx.softTag.empty()) { res.foreign = true; res.tag = ctx.softTag; res.msg = ctx.softMsg; }
  } catch (const Violation& v) {
    res.violation = true; res.tag = v.tag; res.msg = v.msg;
  } catch (const Foreign& v) {
    res.foreign = true; res.tag = v.tag; res.msg = v.msg;
  } catch (const std::exception& e) {
    res.violation = true; res.tag = "exception";
    res.msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    res.violation = true; res.tag = "exception"; res.msg = "unexpected exception of unknown type";
  }
  return res;
}
Result mon::runCase(const Registered& r, Ctx& ctx) {
  StepLimit::set(0);
  return guarded(r.fn, ctx);
}

// What a process started by the harness itself does, see process.h.
__attribute__((weak)) int monChild(int, char**);

static double seconds() {
  struct rusage u;
  getrusage(RUSAGE_SELF, &u);
  return u.ru_utime.tv_sec + u.ru_stime.tv_sec + 1e-6 * (u.ru_utime.tv_usec + u.ru_stime.tv_usec);
}

int main(int argc, char** argv) {
  if (argc > 1 && strcmp(argv[1], "--child") == 0 && monChild) return monChild(argc - 2, argv + 2);
  std::string mode, out, state, hashes, only, tags;
  u64 seed = 1, from = 0, to = 0, step = 1;
  int tier = 0;
  bool log = false, list = false, together = false;
  int apart = -1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    std::string v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--mode") { mode = v; ++i; }
    else if (a == "--seed") { seed = strtoull(v.c_str(), 0, 10); ++i; }
    else if (a == "--from") { from = strtoull(v.c_str(), 0, 10); ++i; }
    else if (a == "--to") { to = strtoull(v.c_str(), 0, 10); ++i; }
    else if (a == "--step") { step = strtoull(v.c_str(), 0, 10); ++i; }
    else if (a == "--tier") { tier = atoi(v.c_str()); ++i; }
    else if (a == "--out") { out = v; ++i; }
    else if (a == "--state") { state = v; ++i; }
    else if (a == "--hashes") { hashes = v; ++i; }
    else if (a == "--only") { only = v; ++i; }
    else if (a == "--tags") { tags = v; ++i; }
    else if (a == "--log") log = true;
    else if (a == "--list") list = true;
    else if (a == "--together") together = true;
    else if (a == "--apart") { together = true; apart = atoi(v.c_str()); ++i; }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  // A stable order, whatever the order of static initialisation.
  std::vector<Registered> fns;
  {
    std::vector<Registered> all = registry();
    std::sort(all.begin(), all.end(), [](const Registered& a, const Registered& b) {
      return strcmp(a.name, b.name) < 0;
    });
    for (size_t i = 0; i < all.size(); ++i) {
      std::istringstream in(all[i].modes);
      std::string m;
      while (in >> m)
#ifndef __SANITIZE_THREAD__
        if (m == mode || m == mode + "f") // these can not run in threads
#else
        if (m == mode)
#endif
          for (unsigned w = 0; w < all[i].weight; ++w) fns.push_back(all[i]);
    }
  }
  if (list) {
    for (size_t i = 0; i < fns.size(); ++i) puts(fns[i].name);
    return 0;
  }
  if (fns.empty()) { fprintf(stderr, "no case function for mode %s\n", mode.c_str()); return 3; }
  {
    // spread repeated functions
    Rng r(12345);
    r.shuffle(fns);
  }
  std::set<std::string> tagSet;
  {
    std::istringstream in(tags);
    std::string t;
    while (in >> t) tagSet.insert(t);
  }
  if (!only.empty()) { from = strtoull(only.c_str(), 0, 10); to = from + 1; step = 1; }
  int stateFd = state.empty() ? -1 : open(state.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  std::map<std::string, u64> totals;
  std::unordered_set<u64> seen;
  std::set<std::string> configs;
  u64 cases = 0, nontrivial = 0, foreign = 0;
  std::string samples, violations, foreignMsg;
  unsigned sampleCount = 0, violationCount = 0, doubtful = 0;
  u64 slowest = 0, slowestCase = 0;
  for (u64 i = from; i < to && violationCount < 3; i += step) {
    if (stateFd >= 0) {
      char buf[32];
      int n = snprintf(buf, sizeof buf, "%-20llu\n", (unsigned long long)i);
      if (pwrite(stateFd, buf, n, 0) != n) return 3;
    }
    const Registered& r = fns[i % fns.size()];
    Ctx ctx;
    ctx.mode = mode; ctx.seed = seed; ctx.index = i; ctx.tier = tier;
    ctx.tags = tagSet;
    ctx.logging = log || sampleCount < 2;
    u64 h = mix(seed) ^ mix(i * 2 + 1);
    ctx.rng = Rng(h);
    ctx.counts.swap(totals);
    ctx.setConfig(together ? "together" : r.name);
    if (log) ctx.config.clear();
    Result res;
    afterThrow();
    const double started = seconds();
    if (together) {
      std::function<void(Ctx&)> f = [&](Ctx& c) { togetherCase(fns, c, apart); };
      res = guarded(f, ctx);
    } else res = runCase(r, ctx);
    totals.swap(ctx.counts);
    const u64 took = (u64)((seconds() - started) * 1000);
    if (took > slowest) { slowest = took; slowestCase = i; }
    ++cases;
    configs.insert(together ? "together" : r.name);
    if (ctx.nontrivial) {
      ++nontrivial;
      seen.insert(ctx.hash);
    }
    if (log) fprintf(stderr, "%s\n", ctx.log.c_str());
    if (res.foreign) { ++foreign; if (foreignMsg.empty()) foreignMsg = res.tag + ": " + res.msg; }
    if (res.foreign && apart >= 0) return 4;
    if (res.violation && res.tag == "doubtful" && ++doubtful > 3) { ++foreign; continue; }
    if (res.violation) {
      if (res.tag != "doubtful") ++violationCount;
      if (!violations.empty()) violations += ",";
      violations += "{\"case\":" + std::to_string(i) + ",\"fn\":" + jsonStr(r.name) +
        ",\"tag\":" + jsonStr(res.tag) + ",\"msg\":" + jsonStr(res.msg.substr(0, 2000)) + "}";
      if (log) fprintf(stderr, "VIOLATED [%s]: %s\n", res.tag.c_str(), res.msg.c_str());
    } else if (ctx.nontrivial && sampleCount < 2 && !res.foreign) {
      if (sampleCount++) samples += ",";
      samples += "{\"case\":" + std::to_string(i) + ",\"trace\":" + jsonStr(ctx.log.substr(0, 1500)) + "}";
    }
  }
  if (!hashes.empty()) {
    FILE* f = fopen(hashes.c_str(), "wb");
    if (!f) return 3;
    for (std::unordered_set<u64>::const_iterator it = seen.begin(); it != seen.end(); ++it) {
      u64 v = *it;
      if (fwrite(&v, sizeof v, 1, f) != 1) return 3;
    }
    fclose(f);
  }
  std::string js = "{\"cases\":" + std::to_string(cases) + ",\"nontrivial\":" + std::to_string(nontrivial) +
    ",\"foreign\":" + std::to_string(foreign) + ",\"foreign_example\":" + jsonStr(foreignMsg) + ",\"functions\":[";
  bool first = true;
  for (std::set<std::string>::const_iterator it = configs.begin(); it != configs.end(); ++it) {
    js += (first ? "" : ",") + jsonStr(*it); first = false;
  }
  js += "],\"counts\":{";
  first = true;
  for (std::map<std::string, u64>::const_iterator it = totals.begin(); it != totals.end(); ++it) {
    js += (first ? "" : ",") + jsonStr(it->first) + ":" + std::to_string(it->second); first = false;
  }
  struct rusage use;
  getrusage(RUSAGE_SELF, &use);
  js += "},\"peak\":" + std::to_string(use.ru_maxrss / 1024);
  js += ",\"slowest\":[" + std::to_string(slowest) + "," + std::to_string(slowestCase) + "],\"samples\":[" + samples + "],\"violations\":[" + violations + "]}\n";
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 3;
    fputs(js.c_str(), f);
    fclose(f);
  } else fputs(js.c_str(), stdout);
  return 0; // the verdict is in the output; any other ending is a crash
}
