// Runs several cases together: in threads of their own when built with
// ThreadSanitizer, and else in one thread, going from one to another at random
// between and within their operations. A case that goes wrong together with
// others, but not alone, is the sign of something that is shared.
#ifndef TOGETHER_H
#define TOGETHER_H
#include "mon.h"
#include <atomic>
#include <memory>
#include <thread>
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/common_interface_defs.h>
#endif
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace mon {
  struct Result { bool violation, foreign; std::string tag, msg; };
  Result runCase(const Registered& r, Ctx& ctx);

  struct Task {
    const Registered* r;
    Ctx ctx;
    Result res;
  };

  class Fibers {
  public:
    Fibers(std::vector<Task>& t, Rng& r, unsigned o): tasks_(t), rng_(r), odds_(o), now_(0), left_(t.size()), switches(0) {
      active() = this;
      all_.resize(t.size() + 1);
      for (size_t i = 1; i < all_.size(); ++i) {
        Fiber& f = all_[i];
        f.stack = mmap(0, StackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (f.stack == MAP_FAILED || getcontext(&f.context) != 0) { fputs("no stack\n", stderr); _exit(3); }
        f.context.uc_stack.ss_sp = f.stack;
        f.context.uc_stack.ss_size = StackSize;
        f.context.uc_link = 0;
        makecontext(&f.context, &entry, 0);
      }
    }
    ~Fibers() {
      for (size_t i = 1; i < all_.size(); ++i) munmap(all_[i].stack, StackSize);
      active() = 0;
    }
    void run() {
      yielding = true;
      go(1 + rng_.below(tasks_.size()));
      yielding = false;
    }
    void yield(bool between) {
      if (!rng_.chance(1, between ? odds_ : odds_ * 30)) return;
      if (between) {
        if (inside_.empty()) { size_t to = another(); if (to != 0) go(to); }
        else back();
      } else {
        // another one does something inside a call that this one is in
        size_t to = another();
        if (to == 0) return;
        ++nested;
        inside_.push_back(now_);
        all_[now_].parked = false;
        size_t me = now_;
        go(to);
        all_[me].parked = true;
      }
    }
    static Fibers*& active() { static Fibers* f = 0; return f; }
  private:
    static const size_t StackSize = 8u << 20;
    struct Fiber {
      ucontext_t context;
      void* stack = 0;
      void* fake = 0;
      bool done = false, parked = true;
      void* exceptions[4] = {0, 0, 0, 0};
    };
    // one that is between operations, or none
    size_t another() {
      size_t can[MaxSlots], n = 0;
      for (size_t i = 1; i < all_.size(); ++i) if (i != now_ && all_[i].parked && !all_[i].done) can[n++] = i;
      return n == 0 ? 0 : can[rng_.below(n)];
    }
    void back() {
      size_t to = inside_.back();
      inside_.pop_back();
      go(to);
    }
    void go(size_t to) {
      size_t from = now_;
      ++switches;
      Fiber& a = all_[from];
      Fiber& b = all_[to];
      const size_t EhSize = 2 * sizeof(void*); // caught exceptions, number of uncaught ones
      memcpy(a.exceptions, __cxxabiv1::__cxa_get_globals(), EhSize);
      memcpy(__cxxabiv1::__cxa_get_globals(), b.exceptions, EhSize);
      now_ = to;
      slot = (unsigned)to;
#ifdef __SANITIZE_ADDRESS__
      const void* bottom = to == 0 ? mainBottom_ : b.stack;
      size_t size = to == 0 ? mainSize_ : StackSize;
      __sanitizer_start_switch_fiber(a.done ? 0 : &a.fake, bottom, size);
#endif
      swapcontext(&a.context, &b.context);
      arrived(from);
    }
    // this runs on the stack of the one that was switched to
    void arrived(size_t self) {
#ifdef __SANITIZE_ADDRESS__
      const void* bottom; size_t size;
      __sanitizer_finish_switch_fiber(self == (size_t)-1 ? 0 : all_[self].fake, &bottom, &size);
      if (first_) { first_ = false; mainBottom_ = bottom; mainSize_ = size; }
#endif
    }
    static void entry() {
      Fibers& s = *active();
      s.arrived((size_t)-1);
      size_t me = s.now_;
      Task& t = s.tasks_[me - 1];
      t.res = runCase(*t.r, t.ctx);
      s.all_[me].done = true;
      --s.left_;
      if (!s.inside_.empty()) s.back();
      s.go(s.another()); // main when there is none
      abort();
    }
    std::vector<Task>& tasks_;
    Rng& rng_;
    unsigned odds_;
    size_t now_, left_;
    std::vector<Fiber> all_;
    std::vector<size_t> inside_; // those in whose calls others run now
    const void* mainBottom_ = 0;
    size_t mainSize_ = 0;
    bool first_ = true;
  public:
    u64 switches, nested = 0;
  };

  inline void runThreads(std::vector<Task>& tasks) {
    std::atomic<unsigned> ready(0);
    const unsigned n = (unsigned)tasks.size();
    std::vector<std::thread> threads;
    for (unsigned i = 0; i < n; ++i)
      threads.emplace_back([&, i] {
        slot = i + 1;
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
        tasks[i].res = runCase(*tasks[i].r, tasks[i].ctx);
      });
    for (unsigned i = 0; i < n; ++i) threads[i].join();
  }

  // apart: which one to run alone, or -1
  inline void togetherCase(const std::vector<Registered>& fns, Ctx& ctx, int apart) {
    Rng& rng = ctx.rng;
    size_t n = rng.range(2, 4);
    std::vector<Task> tasks(n);
    bool same = rng.chance(2, 3), twins = same && rng.chance(1, 3);
    u64 seed = rng.next();
    size_t which = rng.below(fns.size());
    for (size_t i = 0; i < n; ++i) {
      Task& t = tasks[i];
      t.r = &fns[same ? which : rng.below(fns.size())];
      t.ctx.mode = ctx.mode; t.ctx.seed = ctx.seed; t.ctx.index = ctx.index; t.ctx.tier = 0;
      t.ctx.tags = ctx.tags;
      t.ctx.logging = ctx.logging;
      t.ctx.rng = Rng(twins ? seed : seed + i);
      t.ctx.setConfig(t.r->name);
    }
    static const unsigned oddsOf[] = {1, 2, 4, 10, 50, 400};
    unsigned odds = oddsOf[rng.below(6)];
    u64 switches = 0;
    if (apart >= 0) {
      if ((size_t)apart >= n) return;
      Task& t = tasks[apart];
      slot = (unsigned)apart + 1;
      t.res = runCase(*t.r, t.ctx);
      slot = 0;
      if (t.res.violation || t.res.foreign) throw Foreign(t.res.tag, t.res.msg);
      return;
    }
    {
#ifdef __SANITIZE_THREAD__
      (void)odds;
      runThreads(tasks);
      ctx.count("threads run") += n;
#else
      Fibers f(tasks, rng, odds);
      f.run();
      switches = f.switches;
      ctx.count("changes from one case to another") += switches;
      ctx.count("uses inside a call of another's configuration") += f.nested;
#endif
    }
    size_t busy = 0;
    for (size_t i = 0; i < n; ++i) {
      Ctx& c = tasks[i].ctx;
      if (c.nontrivial) ++busy;
      ctx.hash = mix(ctx.hash ^ c.hash);
      if (ctx.logging) ctx.log += "--- together " + str(i) + "\n" + c.log + "\n";
      for (auto it = c.counts.begin(); it != c.counts.end(); ++it)
        if (it->first.compare(0, 4, "MAX ") == 0) ctx.counts[it->first] = std::max(ctx.counts[it->first], it->second);
        else ctx.counts[it->first] += it->second;
    }
    ctx.hash = mix(ctx.hash ^ switches);
    ctx.nontrivial = busy >= 2;
    ctx.count("cases run together") += n;
    if (same) ctx.count("cases run with others of the same types") += n;
    for (size_t i = 0; i < n; ++i) {
      Result& res = tasks[i].res;
      if (!res.violation && !res.foreign) continue;
      Ctx again;
      again.mode = ctx.mode; again.seed = ctx.seed; again.index = ctx.index; again.tier = 0;
      again.tags = ctx.tags;
      again.rng = Rng(twins ? seed : seed + i);
      again.setConfig(tasks[i].r->name);
      Result alone = runCase(*tasks[i].r, again);
      // A second run can go wrong because of what the first left behind, so
      // whether it was alone is up to processes of their own.
      throw Violation(alone.violation || alone.foreign ? "doubtful" : "shared", std::string(tasks[i].r->name) + " goes wrong when others run at the same time but not alone: [" + res.tag + "] " + res.msg);
    }
  }
}
#endif
