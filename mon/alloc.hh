// Counts the live allocations made through operator new. Include in one file of a driver.
#pragma once
#include <atomic>
#include <cstdlib>
#include <new>
namespace alloc {
inline std::atomic<long> &live() { static std::atomic<long> n{0}; return n; }
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
#define ALLOC_COUNTED 1
static inline void *alloc_get(std::size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++alloc::live(); return p; }
static inline void alloc_put(void *p) { if (p) { --alloc::live(); std::free(p); } }
void *operator new(std::size_t n) { return alloc_get(n); }
void *operator new[](std::size_t n) { return alloc_get(n); }
void operator delete(void *p) noexcept { alloc_put(p); }
void operator delete[](void *p) noexcept { alloc_put(p); }
void operator delete(void *p, std::size_t) noexcept { alloc_put(p); }
void operator delete[](void *p, std::size_t) noexcept { alloc_put(p); }
void *operator new(std::size_t n, std::align_val_t a) { void *p = std::aligned_alloc(std::size_t(a), (n + std::size_t(a) - 1) / std::size_t(a) * std::size_t(a)); if (!p) throw std::bad_alloc(); ++alloc::live(); return p; }
void *operator new[](std::size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p, std::align_val_t) noexcept { alloc_put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { alloc_put(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { alloc_put(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { alloc_put(p); }
#else
#define ALLOC_COUNTED 0
#endif
