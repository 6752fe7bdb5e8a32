// Allocation failures on demand: the at-th operator new from now on throws (and, if `on`, every later one).
#pragma once
#include <cstdint>
#include <cstdlib>
#include <new>
namespace OOM
{
#ifndef H_TLS
#define H_TLS
#endif
inline H_TLS int64_t left = -1; // allocations to go before failing; -1: never fail
inline H_TLS bool on = false;
inline H_TLS uint64_t made = 0, failed = 0;
inline bool fails()
{
    made++;
    if (left < 0)
        return false;
    if (left > 0)
    {
        left--;
        return false;
    }
    if (!on)
        left = -1;
    failed++;
    return true;
}
struct Arm
{
    Arm(int64_t n, bool from) { on = from, left = n; }
    ~Arm() { left = -1; }
};
} // namespace OOM
#ifndef OOM_OFF // TSan brings its own
void *operator new(size_t n)
{
    if (OOM::fails())
        throw std::bad_alloc();
    void *p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return OOM::fails() ? nullptr : malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return OOM::fails() ? nullptr : malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
