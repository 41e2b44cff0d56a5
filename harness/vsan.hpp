// Run-time half of the data race detector: the code is compiled with clang's -fsanitize=thread, but
// linked with these functions instead of libtsan.  Plain accesses made while the running fiber is
// inside the code under test (Fiber::watch) are checked against the vector clocks of vsched.hpp.
// This file and vsched.hpp themselves are not instrumented (ignorelist.txt).
#pragma once
#ifdef VS_TSAN
#include "vsched.hpp"

namespace vsan {
struct Cell {
    std::uintptr_t key{};
    std::uint32_t gen{};
    std::uint8_t wf[8]{};
    std::uint32_t wc[8]{};
    std::uint32_t rd[8][VS_THREADS]{};
};
constexpr std::size_t size = 1 << 14;
inline Cell* table;
inline std::uint32_t gen{1};
inline std::size_t used;
inline bool full;
inline Cell* cell(std::uintptr_t key, bool make)
{
    if (!table) table = (Cell*)mmap(nullptr, sizeof(Cell) * size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::size_t i = (key * 0x9e3779b97f4a7c15ULL) >> 50;
    for (std::size_t k = 0; k < 64; k++, i = (i + 1) & (size - 1)) {
        auto& c = table[i];
        if (c.gen == gen && c.key == key) return &c;
        if (c.gen != gen) {
            if (!make) return nullptr;
            memset(&c, 0, sizeof c);
            c.gen = gen; c.key = key;
            return &c;
        }
    }
    full = true;
    return nullptr;
}
inline void bytes(std::uintptr_t a, std::size_t n, auto f)
{
    while (n) {
        auto* c = cell(a >> 3, true);
        unsigned o = a & 7;
        for (; o < 8 && n; o++, n--, a++) if (c) f(*c, o);
    }
}
inline bool watching() { return vs::S.active && vs::S.cur && vs::S.cur->watch; }
inline void access(void const* p, std::size_t n, bool write)
{
    if (!watching()) return;
    auto* me = vs::S.cur;
    bool bad = false;
    bytes((std::uintptr_t)p, n, [&](Cell& c, unsigned o) {
        if (c.wc[o] > me->vc[c.wf[o]]) bad = true;
        if (write) {
            for (int i = 0; i < VS_THREADS; i++) if (c.rd[o][i] > me->vc[i]) bad = true;
            memset(c.rd[o], 0, sizeof c.rd[o]);
            c.wf[o] = me->id; c.wc[o] = me->vc[me->id];
        } else c.rd[o][me->id] = me->vc[me->id];
    });
    if (bad) {
        me->watch = false;
        vs::race("memory");
        me->watch = true;
    }
}
// memory that is allocated anew has no history
inline void forget(void const* p, std::size_t n)
{
    if (!vs::S.active || !table) return;
    auto a = (std::uintptr_t)p;
    for (std::size_t i = 0; i < n; i++, a++)
        if (auto* c = cell(a >> 3, false)) { c->wc[a & 7] = 0; memset(c->rd[a & 7], 0, sizeof c->rd[0]); }
}
struct Setup { Setup() { vs::run_hook = [] { gen++; }; } };
inline Setup setup;

// happens-before through atomic operations on real atomics (those vsched_on.hpp did not replace)
struct Sync { vs::VC rel{}; };
inline std::map<std::uintptr_t, Sync>* syncs;
inline std::uint32_t syncs_gen;
struct Off {
    vs::Fiber* f; bool w;
    Off() : f{vs::S.cur}, w{f && f->watch} { if (f) f->watch = false; }
    ~Off() { if (f) f->watch = w; }
};
template <class T, class F, class Q = bool (*)(T)> T atomic(void volatile* a, bool writes, F f, Q again = [](T) { return false; })
{
    if (!watching()) return f((T volatile*)a);
    Off off;
    vs::point();
    if (!syncs) syncs = new std::map<std::uintptr_t, Sync>;
    if (syncs_gen != gen) { syncs->clear(); syncs_gen = gen; }
    auto& s = (*syncs)[(std::uintptr_t)a];
    auto* me = vs::S.cur;
    vs::join(me->vc, s.rel);
    T r = f((T volatile*)a);
    if (again(r)) vs::yield();    // it will be tried again
    else if (writes) { vs::join(s.rel, me->vc); me->vc[me->id]++; vs::wrote(); }
    return r;
}
}    // namespace vsan

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define VS_RW(N) \
    void __tsan_read##N(void* p) { vsan::access(p, N, false); } \
    void __tsan_write##N(void* p) { vsan::access(p, N, true); } \
    void __tsan_unaligned_read##N(void* p) { vsan::access(p, N, false); } \
    void __tsan_unaligned_write##N(void* p) { vsan::access(p, N, true); } \
    void __tsan_read_write##N(void* p) { vsan::access(p, N, true); } \
    void __tsan_unaligned_read_write##N(void* p) { vsan::access(p, N, true); } \
    void __tsan_volatile_read##N(void* p) { vsan::access(p, N, false); } \
    void __tsan_volatile_write##N(void* p) { vsan::access(p, N, true); } \
    void __tsan_unaligned_volatile_read##N(void* p) { vsan::access(p, N, false); } \
    void __tsan_unaligned_volatile_write##N(void* p) { vsan::access(p, N, true); }
VS_RW(1) VS_RW(2) VS_RW(4) VS_RW(8) VS_RW(16)
#undef VS_RW
void __tsan_read_range(void* p, std::size_t n) { vsan::access(p, n, false); }
void __tsan_write_range(void* p, std::size_t n) { vsan::access(p, n, true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) vsan::access(p, 8, true); }
void __tsan_vptr_read(void** p) { vsan::access(p, 8, false); }
void* __tsan_memcpy(void* d, void const* s, std::size_t n) { vsan::access(s, n, false); vsan::access(d, n, true); return __builtin_memcpy(d, s, n); }
void* __tsan_memmove(void* d, void const* s, std::size_t n) { vsan::access(s, n, false); vsan::access(d, n, true); return __builtin_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, std::size_t n) { vsan::access(d, n, true); return __builtin_memset(d, c, n); }
#define VS_AT(B, T) \
    T __tsan_atomic##B##_load(T const volatile* a, int) { return vsan::atomic<T>((void volatile*)a, false, [](T volatile* p) { return *p; }); } \
    void __tsan_atomic##B##_store(T volatile* a, T v, int) { vsan::atomic<T>(a, true, [v](T volatile* p) { *p = v; return v; }); } \
    T __tsan_atomic##B##_exchange(T volatile* a, T v, int) { return vsan::atomic<T>(a, true, [v](T volatile* p) { T o = *p; *p = v; return o; }); } \
    T __tsan_atomic##B##_fetch_add(T volatile* a, T v, int) { return vsan::atomic<T>(a, true, [v](T volatile* p) { T o = *p; *p = o + v; return o; }); } \
    T __tsan_atomic##B##_fetch_sub(T volatile* a, T v, int) { return vsan::atomic<T>(a, true, [v](T volatile* p) { T o = *p; *p = o - v; return o; }); } \
    T __tsan_atomic##B##_fetch_and(T volatile* a, T v, int) { return vsan::atomic<T>(a, true, [v](T volatile* p) { T o = *p; *p = o & v; return o; }); } \
    T __tsan_atomic##B##_fetch_or(T volatile* a, T v, int) { return vsan::atomic<T>(a, true, [v](T volatile* p) { T o = *p; *p = o | v; return o; }); } \
    T __tsan_atomic##B##_fetch_xor(T volatile* a, T v, int) { return vsan::atomic<T>(a, true, [v](T volatile* p) { T o = *p; *p = o ^ v; return o; }); } \
    T __tsan_atomic##B##_fetch_nand(T volatile* a, T v, int) { return vsan::atomic<T>(a, true, [v](T volatile* p) { T o = *p; *p = ~(o & v); return o; }); } \
    int __tsan_atomic##B##_compare_exchange_strong(T volatile* a, T* c, T v, int, int) { T e = *c; T o = vsan::atomic<T>(a, true, [v, e](T volatile* p) { T o = *p; if (o == e) *p = v; return o; }, [e](T o) { return o != e; }); *c = o; return o == e; } \
    int __tsan_atomic##B##_compare_exchange_weak(T volatile* a, T* c, T v, int m, int n) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, m, n); } \
    T __tsan_atomic##B##_compare_exchange_val(T volatile* a, T c, T v, int, int) { return vsan::atomic<T>(a, true, [v, c](T volatile* p) { T o = *p; if (o == c) *p = v; return o; }); }
VS_AT(8, std::uint8_t) VS_AT(16, std::uint16_t) VS_AT(32, std::uint32_t) VS_AT(64, std::uint64_t)
#undef VS_AT
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

void* operator new(std::size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc{};
    vsan::forget(p, n);
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, std::align_val_t a)
{
    void* p = aligned_alloc((std::size_t)a, (n + (std::size_t)a - 1) / (std::size_t)a * (std::size_t)a);
    if (!p) throw std::bad_alloc{};
    vsan::forget(p, n);
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t n) noexcept { if (p) vsan::access(p, n, true); free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { free(p); }
#endif
