#include "mem_hook.h"
#include <cstdlib>
#include <new>
using mon::MemHook;
namespace {
  const size_t Head = 16;
  void* get(size_t n) {
    if (MemHook::on() && MemHook::failAt() != 0 && --MemHook::failAt() == 0) {
      ++MemHook::failed();
      throw std::bad_alloc();
    }
    char* p = static_cast<char*>(malloc(n + Head));
    if (p == 0) throw std::bad_alloc();
    size_t counted = MemHook::on() ? n : 0;
    reinterpret_cast<size_t*>(p)[0] = counted;
    MemHook::live() += counted;
    if (counted) ++MemHook::total();
    return p + Head;
  }
  void put(void* q) {
    if (q == 0) return;
    char* p = static_cast<char*>(q) - Head;
    MemHook::live() -= reinterpret_cast<size_t*>(p)[0];
    free(p);
  }
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch (...) { return 0; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch (...) { return 0; } }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
