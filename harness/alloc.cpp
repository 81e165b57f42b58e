// Replacement of the global allocation functions: a cap on single allocations, deterministic fill of
// fresh memory, counting and failure injection.
#include "engine.hpp"
#include <cstdlib>
#include <malloc.h>
#include <new>

namespace memctl {
size_t limit = size_t(256) << 20;
int fill = -1;
thread_local bool counting = false;
thread_local long live = 0, live_bytes = 0, peak_bytes = 0, n_allocs = 0, fail_at = 0;
void reset() { live = live_bytes = peak_bytes = n_allocs = fail_at = 0; }
} // namespace memctl

static void *get(size_t n, size_t al) {
  if (n > memctl::limit)
    throw std::bad_alloc();
  if (memctl::counting) {
    ++memctl::n_allocs;
    if (memctl::fail_at > 0 && memctl::n_allocs == memctl::fail_at)
      throw std::bad_alloc();
  }
  void *p = al > alignof(std::max_align_t) ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  if (memctl::counting) {
    ++memctl::live;
    memctl::live_bytes += static_cast<long>(malloc_usable_size(p));
    if (memctl::live_bytes > memctl::peak_bytes)
      memctl::peak_bytes = memctl::live_bytes;
  }
  if (memctl::fill >= 0)
    memset(p, memctl::fill, n);
  return p;
}
static void *get_nothrow(size_t n, size_t al) noexcept {
  try {
    return get(n, al);
  } catch (...) {
    return nullptr;
  }
}
static void put(void *p) noexcept {
  if (p && memctl::counting) {
    --memctl::live;
    memctl::live_bytes -= static_cast<long>(malloc_usable_size(p));
  }
  free(p);
}
constexpr size_t D = 1;
void *operator new(size_t n) { return get(n, D); }
void *operator new[](size_t n) { return get(n, D); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get_nothrow(n, D); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get_nothrow(n, D); }
void *operator new(size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return get_nothrow(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return get_nothrow(n, size_t(a)); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
