// Replaces operator new so that absurd requests fail with std::bad_alloc (as they would on a real machine) instead of
// ending the process in ASan, and so that the harness can see the largest request.  Include in ONE source of a check.
#pragma once
#include <stdlib.h>
#include <string.h>
#include <atomic>
#include <new>

namespace alloc {
inline std::atomic<size_t> limit{size_t(1) << 30};
inline std::atomic<size_t> largest{0};
inline std::atomic<size_t> total{0};
inline std::atomic<int> fill{-1};  // contents of fresh memory (first 64 kB), -1: unspecified
inline void reset() { largest = 0; total = 0; }
inline void* get(size_t n) {
    size_t l = largest;
    while (n > l && !largest.compare_exchange_weak(l, n)) {}
    total += n;
    if (n > limit)
        return nullptr;
    void* p = malloc(n ? n : 1);
    if (fill >= 0 && p)
        memset(p, fill, n < 65536 ? n : 65536);
    return p;
}
}  // namespace alloc

void* operator new(size_t n) {
    void* p = alloc::get(n);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc::get(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
