// Object registry, allocation counter and fault points.
#pragma once
#include "mc.hpp"
#include <new>

namespace trk {
// ---- fault injection: every throw point asks; the k-th one (1-based) throws ----
struct injected {};
inline long points = 0;        // throw points passed since arm()
inline long fire[2] = {0, 0};  // throw at these points (0 = never)
inline int fired = 0;
inline bool armed = false;     // faults enabled (inside an operation of the exploration)
inline void arm(long a, long b = 0) { points = 0; fire[0] = a; fire[1] = b; fired = 0; armed = true; }
inline void disarm() { armed = false; }
inline bool hit() {
    if (!armed) return false;
    ++points;
    if (points == fire[0] || points == fire[1]) { ++fired; return true; }
    return false;
}
inline void may_throw() { if (hit()) MC_THROW(injected{}); }

// ---- allocations ----
inline long live_allocs = 0;
inline bool alloc_faults = false;
inline void* alloc(std::size_t n, std::size_t al) {
    if (alloc_faults && hit()) MC_THROW(std::bad_alloc{});
    void* p = al ? std::aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1);
    if (!p) MC_THROW(std::bad_alloc{});
    ++live_allocs;
    return p;
}
inline void release(void* p) noexcept { if (p) { --live_allocs; std::free(p); } }

// ---- live tracked objects ----
inline const void* live[4096];
inline int n_live = 0;
inline int find(const void* p) { for (int i = n_live - 1; i >= 0; --i) if (live[i] == p) return i; return -1; }
inline void born(const void* p) {
    if (find(p) >= 0) { mc::fail("object constructed on top of a live object", ""); return; }
    if (n_live < 4096) live[n_live++] = p;
}
inline void died(const void* p) {
    int i = find(p);
    if (i < 0) { mc::fail("destructor run where no object lives", ""); return; }
    live[i] = live[--n_live];
}
inline void used(const void* p, const char* what) { if (find(p) < 0) mc::fail(what, ""); }
inline int count_in(const void* lo, std::size_t n) {
    int c = 0;
    for (int i = 0; i < n_live; ++i) { const char* x = static_cast<const char*>(live[i]); if (x >= static_cast<const char*>(lo) && x < static_cast<const char*>(lo) + n) ++c; }
    return c;
}
inline bool is_live(const void* p) { return find(p) >= 0; }

// Tracked payload. THROWING = its copy/move/value operations are throw points.
template<bool THROWING>
struct core {
    int v;
    static void p() { if constexpr (THROWING) may_throw(); }
    core(int i) noexcept(!THROWING) : v(i) { p(); born(this); }
    core(const core& o) noexcept(!THROWING) : v(o.v) { used(&o, "copy constructed from a dead object"); p(); born(this); }
    core(core&& o) noexcept(!THROWING) : v(o.v) { used(&o, "move constructed from a dead object"); p(); o.v = 9; born(this); }
    core& operator=(const core& o) noexcept(!THROWING) { used(this, "assignment to a dead object"); used(&o, "assignment from a dead object"); p(); v = o.v; return *this; }
    core& operator=(core&& o) noexcept(!THROWING) { used(this, "assignment to a dead object"); used(&o, "assignment from a dead object"); p(); v = o.v; if (this != &o) o.v = 9; return *this; }
    ~core() { died(this); }
    bool operator==(const core& o) const { used(this, "comparison of a dead object"); used(&o, "comparison of a dead object"); return v == o.v; }
};
}
#ifndef MC_NO_ALLOC_COUNT
void* operator new(std::size_t n) { return trk::alloc(n, 0); }
void* operator new[](std::size_t n) { return trk::alloc(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return trk::alloc(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return trk::alloc(n, std::size_t(a)); }
void operator delete(void* p) noexcept { trk::release(p); }
void operator delete[](void* p) noexcept { trk::release(p); }
void operator delete(void* p, std::size_t) noexcept { trk::release(p); }
void operator delete[](void* p, std::size_t) noexcept { trk::release(p); }
void operator delete(void* p, std::align_val_t) noexcept { trk::release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { trk::release(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { trk::release(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { trk::release(p); }
#endif
