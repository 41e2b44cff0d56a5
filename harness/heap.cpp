// static_heap driver.  Script:  S <Size>  then one operation per line:
//  a <req>   allocate     c <n> <sz>  zeroing allocate     f <k>  free k-th live block (mod count)
//  o <off>   free the live block whose address is arena+off (skipped if none)
//  d  free the most recently freed pointer again, only directly after its free
//  n  free null   r  reset minimum   t  statistics   h <0|1>  failure handler off/on
//  h 2 <k>  the handler frees the k-th live block    h 3 <req>  it allocates    h 4  it throws
//  k  copy the heap if it is copyable and allocate from the copy
//  y <n> <req>  allocate and free n times
//  x  free every live block in pseudo-random order
#include "common.hpp"
#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>
using namespace vh;
using xitren::allocators::static_heap;

template <class> struct stats_arg;
template <class C, class R, class A> struct stats_arg<R (C::*)(A*)> { using type = A; };

struct Blk { std::uint8_t* p; std::size_t req; unsigned tag; };

static long long clip(unsigned long long v) { return v > 0x7fffffffULL ? 0x7fffffffLL : (long long)v; }

template <std::size_t Size> void run(Lines const& ls)
{
    using H = static_heap<Size>;
#ifndef NO_STATS
    using Stats = typename stats_arg<decltype(&H::v_port_get_heap_stats)>::type;
#endif
    // canaries on both sides of the heap object
    struct Box { std::uint8_t pre[256]; H h; std::uint8_t post[256]; };
    std::uint8_t* probe_off;
    {
        auto ph = std::make_unique<H>();
        auto* p1 = (std::uint8_t*)ph->allocate(1);    // null if the heap has no room at all
        probe_off = (std::uint8_t*)(p1 ? p1 - (std::uint8_t*)ph.get() : 16);
    }
    auto box = std::make_unique<Box>();
    std::memset(box->pre, 0x5a, sizeof box->pre);
    std::memset(box->post, 0xa5, sizeof box->post);
    H& h = box->h;
    std::uint8_t* const arena = (std::uint8_t*)&h + (std::ptrdiff_t)probe_off - 16;
    std::vector<Blk> live;
    unsigned tagc = 0;
    int cb = 0;
    bool handler = false, inner = false, nested = false;
    int kind = 0;
    std::size_t hook_arg = 0, asked = 0;
    struct handler_threw {};
    void* last_freed = nullptr;
    unsigned long long rnd = 88172645463325252ULL;

    auto byte_of = [](unsigned tag, std::size_t i) { return (std::uint8_t)(tag * 131 + i * 7 + (i >> 5) + 1); };
    auto intact = [&] {
        for (auto& b : live)
            for (std::size_t i = 0; i < b.req; i++)
                if (b.p[i] != byte_of(b.tag, i)) return false;
        for (auto c : box->pre) if (c != 0x5a) return false;
        for (auto c : box->post) if (c != 0xa5) return false;
        return true;
    };
    auto inside = [&](std::uint8_t* p, std::size_t n) {
        return p >= (std::uint8_t*)&h && n <= sizeof(H) && p + n <= (std::uint8_t*)&h + sizeof(H);
    };
    auto tail = [&](Ev& e) {
        e.num("free", clip(h.free_heap_size())).num("min", clip(h.minimum_ever_free_heap_size())).num("cb", cb)
            .boolean("intact", intact());
        cb = 0;
        e.put();
    };
    Ev("init").num("size", Size).num("free", clip(h.free_heap_size())).num("min", clip(h.minimum_ever_free_heap_size())).put();

    auto got = [&](Ev& e, void* pv, std::size_t req) {
        auto* p = (std::uint8_t*)pv;
        e.num("off", p ? (long long)(p - arena) : -1).num("mis", p ? (long long)((std::uintptr_t)p % 8) : 0);
        if (p && inside(p, req)) {
            live.push_back({p, req, ++tagc});
            for (std::size_t i = 0; i < req; i++) p[i] = byte_of(tagc, i);
        }
    };
    auto do_free = [&](std::size_t k) {
        Blk b = live[k];
        Ev e("free");
        e.num("off", b.p - arena);
        bool ok = true;    // contents still the owner's until the very moment of the free
        for (std::size_t i = 0; i < b.req; i++) ok = ok && b.p[i] == byte_of(b.tag, i);
        live.erase(live.begin() + k);
        h.deallocate(b.p);
        last_freed = b.p;
        e.boolean("own", ok);
        tail(e);
    };
    for (std::size_t li = 1; li < ls.size(); li++) {
        auto w = words(ls[li]);
        char c = w[0][0];
        if (c != 'd') { if (c != 'f' && c != 'o') last_freed = nullptr; }
        switch (c) {
        case 'a': {
            std::size_t req = std::stoull(w[1]);
            asked = req;
            void* pv = nullptr;
            try { pv = h.allocate(req); } catch (handler_threw) {}
            Ev e("alloc");
            e.num("req", clip(req)).boolean("nested", std::exchange(nested, false));
            got(e, pv, req);
            tail(e);
            break;
        }
        case 'c': {
            std::size_t n = std::stoull(w[1]), sz = std::stoull(w[2]);
            bool over = n && sz > SIZE_MAX / n;
            asked = over ? 0x7fffffff : n * sz;
            void* pv = nullptr;
            try { pv = h.callocate(n, sz); } catch (handler_threw) {}
            Ev e("calloc");
            e.num("req", over ? 0x7fffffffLL : clip(n * sz)).boolean("over", over).boolean("nested", std::exchange(nested, false));
            bool zero = true;
            if (pv && !over && inside((std::uint8_t*)pv, n * sz))
                for (std::size_t i = 0; i < n * sz; i++) zero = zero && ((std::uint8_t*)pv)[i] == 0;
            e.boolean("zero", zero);
            got(e, pv, over ? 0 : n * sz);
            tail(e);
            break;
        }
        case 'f':
            if (!live.empty()) do_free(std::stoull(w[1]) % live.size());
            break;
        case 'o': {
            auto off = std::stoll(w[1]);
            for (std::size_t k = 0; k < live.size(); k++)
                if (live[k].p - arena == off) { do_free(k); break; }
            break;
        }
        case 'x':
            while (!live.empty()) {
                rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
                do_free(rnd % live.size());
            }
            break;
        case 'y': {
            std::size_t n = std::stoull(w[1]), req = std::stoull(w[2]), failed = 0;
            std::ptrdiff_t off = -1;
            bool same = true;
            for (std::size_t i = 0; i < n; i++) {
                auto* p = (std::uint8_t*)h.allocate(req);
                std::ptrdiff_t const o = p ? p - arena : -1;
                if (i && o != off) same = false;
                off = o;
                if (!p) failed++;
                else {
                    if (inside(p, req)) std::memset(p, 0xee, req);
                    h.deallocate(p);
                }
            }
            Ev e("churn");
            e.num("n", n).num("req", clip(req)).num("off", off).num("failed", failed).boolean("same", same);
            tail(e);
            break;
        }
        case 'd':
            if (last_freed) {
                h.deallocate(last_freed);
                Ev e("refree");
                tail(e);
            }
            break;
        case 'n': {
            h.deallocate(nullptr);
            Ev e("refree");
            tail(e);
            break;
        }
        case 'r': {
            h.reset_minimum_ever_free_heap_size();
            Ev e("reset");
            tail(e);
            break;
        }
        case 'h': {
            handler = w[1] == "1";
            if (w[1] > "1") {
                handler = true;
                kind = std::stoi(w[1]);
                hook_arg = w.size() > 2 ? std::stoull(w[2]) : 0;
                h.on_fail([&] {
                    cb++;
                    if (inner) return;
                    inner = true;
                    Ev("failing").num("req", clip(asked)).put();
                    int const seen = std::exchange(cb, 0);
                    if (kind == 2 && !live.empty()) do_free(hook_arg % live.size());
                    if (kind == 3) {
                        void* pv = h.allocate(hook_arg);
                        Ev e("alloc");
                        e.num("req", clip(hook_arg)).boolean("nested", false);
                        got(e, pv, hook_arg);
                        tail(e);
                    }
                    cb = seen;
                    nested = true;
                    inner = false;
                    if (kind == 4) throw handler_threw{};
                });
            } else if (handler) h.on_fail([&] { cb++; });
            else h.on_fail(nullptr);
            Ev("handler").boolean("on", handler).put();
            break;
        }
        case 't': {
#ifdef NO_STATS
            Ev("absent").str("what", "statistics query does not compile").put();
#else
            Stats s{};
            h.v_port_get_heap_stats(&s);
            Ev("stats").num("avail", clip(s.x_available_heap_space_in_bytes)).num("largest", clip(s.x_size_of_largest_free_block_in_bytes))
                .num("smallest", clip(s.x_size_of_smallest_free_block_in_bytes)).num("count", clip(s.x_number_of_free_blocks))
                .num("min", clip(s.x_minimum_ever_free_bytes_remaining)).num("na", clip(s.x_number_of_successful_allocations))
                .num("nf", clip(s.x_number_of_successful_frees)).put();
#endif
            break;
        }
        case 'k': {    // a heap that can be copied must hand out its own storage
            if constexpr (std::is_copy_constructible_v<H>) {
                auto c = std::make_unique<H>(h);
                auto* p = (std::uint8_t*)c->allocate(1);
                Ev("copied").boolean("inside", !p || (p >= (std::uint8_t*)c.get() && p < (std::uint8_t*)c.get() + sizeof(H))).put();
            }
            break;
        }
        }
    }
    if (std::getenv("VH_LEAK")) (void)box.release();
}

int main()
{
    return main_loop([](Lines const& ls) {
        auto w = words(ls[0]);
        switch (std::stoi(w[1])) {
#define X(n) case n: run<n>(ls); break;
            X(3) X(8) X(16) X(24) X(32) X(40) X(48) X(64) X(72) X(100) X(128) X(144) X(160) X(161) X(176) X(192) X(200) X(208) X(240) X(256) X(263) X(320) X(511) X(512)
            X(1000) X(1024) X(4096) X(4099) X(65536) X(300000)
        default: _exit(78);
        }
    });
}
