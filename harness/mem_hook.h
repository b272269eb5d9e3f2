// Counts the bytes that the monitored code has allocated: replaces the global
// operator new and delete. Allocations made while a MemScope is in force are
// counted until they are freed, whenever that is.
#ifndef MEM_HOOK_H
#define MEM_HOOK_H
#include <cstddef>
#include <cstdint>
namespace mon {
  struct MemHook {
    static bool& on() { static thread_local bool b = false; return b; }
    static size_t& live() { static size_t n = 0; return n; }
    // the allocation (of those counted) that fails, counted down; 0 for none
    static long& failAt() { static long n = 0; return n; }
    static size_t& failed() { static size_t n = 0; return n; }
    static size_t& total() { static size_t n = 0; return n; } // allocations ever
  };
  struct MemScope {
    bool old;
    MemScope(): old(MemHook::on()) { MemHook::on() = true; }
    ~MemScope() { MemHook::on() = old; }
  };
  struct MemPause {
    bool old;
    MemPause(): old(MemHook::on()) { MemHook::on() = false; }
    ~MemPause() { MemHook::on() = old; }
  };
}
#endif
