// Run-time drivers that count the memory blocks the code under test holds:
// include before everything else.  The driver's own containers use malloc.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <memory>
#include <new>
template <class T> struct MAlloc {
  using value_type = T;
  MAlloc() = default;
  template <class U> MAlloc(const MAlloc<U>&) {}
  T* allocate(std::size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T) + !n)); }
  void deallocate(T* p, std::size_t) { std::free(p); }
  friend bool operator==(MAlloc, MAlloc) { return true; }
};
#define DRIVER_ALLOC MAlloc
namespace heap {
inline bool on = false;
inline long live = 0;
inline long countdown = 0;     // > 0: the allocation that takes it to 0 fails
inline bool failed = false;
struct Spared {                // what the driver allocates itself does not fail
  long was = countdown;
  Spared() { countdown = 0; }
  ~Spared() { countdown = was; }
};
}
void* operator new(std::size_t n) {
  if (heap::on && heap::countdown > 0 && --heap::countdown == 0) { heap::failed = true; throw std::bad_alloc(); }
  if (heap::on) ++heap::live; void* p = std::malloc(n + !n); if (!p) std::abort(); return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p && heap::on) --heap::live; std::free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
#define HEAP_COUNT 1
