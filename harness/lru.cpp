// LRU cache, sequential.  Script:  S <type> <cap> <exc> <exp_s> <exp_ns>  then
//   p k v put    g k get    e configured period    t s ns  time passes    w s  the wall clock is adjusted
// exp_s may be max (the longest duration)
// types: i int->int, s string->string, v string->vector<string>, b colliding keys -> a class without default constructor
#include "common.hpp"
#define VCLOCK_LOCAL thread_local
#include "vclock.hpp"
#ifndef NO_LRU
#include <xitren/cache/lru.hpp>
#endif
using namespace vh;

template <class T> T mk(int x);
template <> int mk<int>(int x) { return x; }
template <> std::string mk<std::string>(int x) { return "a rather long string, on the heap, number " + std::to_string(x); }
template <> std::vector<std::string> mk<std::vector<std::string>>(int x) { return std::vector<std::string>(1 + x % 5, mk<std::string>(x)); }
static long long unmk(int x) { return x; }
static long long unmk(std::string const& s)
{
    auto p = s.rfind(' ');
    if (p == std::string::npos) return -1;
    int x = atoi(s.c_str() + p + 1);
    return s == mk<std::string>(x) ? x : -1;
}
static long long unmk(std::vector<std::string> const& v)
{
    if (v.empty()) return -1;
    int x = (int)unmk(v[0]);
    return x >= 0 && v == mk<std::vector<std::string>>(x) ? x : -1;
}

struct BadKey {
    explicit BadKey(int x) : x{x} {}
    int x;
    bool operator==(BadKey const& o) const { return x == o.x; }
};
template <> struct std::hash<BadKey> { std::size_t operator()(BadKey const& k) const noexcept { return k.x & 1; } };
struct Plain {
    explicit Plain(int x) : s{std::make_shared<int>(x)} {}
    std::shared_ptr<int> s;    // empty once moved from
    bool operator==(Plain const& o) const { return s && o.s ? *s == *o.s : s == o.s; }
};
template <> BadKey mk<BadKey>(int x) { return BadKey{x}; }
template <> Plain mk<Plain>(int x) { return Plain{x}; }
static long long unmk(Plain const& p) { return p.s ? *p.s : -1; }

#ifndef NO_LRU
template <class K, class V, std::size_t N, bool E> void run(Lines const& ls, std::vector<std::string> const& h)
{
    bool const never = h[4] == "max";
    long long es = never ? -1 : std::stoll(h[4]), en = std::stoll(h[5]);
    vclock::mono = 5'000'000'000LL;
    vclock::wall_offset = 1'700'000'000LL * 1'000'000'000LL;
    Ev("init").num("cap", N).boolean("exc", E).num("xs", es).num("xn", en).put();
    xitren::cache::lru<K, V, N, E> c{never ? std::chrono::nanoseconds::max() : std::chrono::nanoseconds{es * 1'000'000'000LL + en}};
    for (std::size_t i = 1; i < ls.size(); i++) {
        auto w = words(ls[i]);
        if (w[0] == "e") {
            std::chrono::nanoseconds x = c.expired_after();
            bool m = x == std::chrono::nanoseconds::max();
            Ev("period").num("s", m ? -1 : x.count() / 1'000'000'000LL).num("n", m ? 0 : x.count() % 1'000'000'000LL).put();
            continue;
        }
        int a = std::stoi(w[1]);
        if (w[0] == "p") {
            int v = std::stoi(w[2]);
            std::string r = "ok";
            try { c.put(mk<K>(a), mk<V>(v)); } catch (std::exception const& e) { r = e.what(); }
            Ev("put").num("k", a).num("v", v).str("res", r).put();
        } else if (w[0] == "g") {
            std::string r;
            long long v = 0;
            try {
                auto o = c.get(mk<K>(a));
                r = o ? "val" : "absent";
                if (o) v = unmk(*o);
            }
            catch (xitren::cache::cache_timeout const&) { r = "timeout"; }
            catch (xitren::cache::cache_missed const&) { r = E ? "absent" : "missed"; }
            catch (std::exception const& e) { r = e.what(); }
            Ev("get").num("k", a).str("res", r).num("v", v).put();
        } else if (w[0] == "t") {
            long long n = std::stoll(w[2]);
            vclock::mono += a * 1'000'000'000LL + n;
            Ev("adv").num("s", a).num("n", n).put();
        } else if (w[0] == "w") vclock::wall_offset += a * 1'000'000'000LL;
    }
}
template <class K, class V, std::size_t N> void run_e(Lines const& ls, std::vector<std::string> const& h)
{
    h[3] == "1" ? run<K, V, N, true>(ls, h) : run<K, V, N, false>(ls, h);
}
template <class K, class V> void run_n(Lines const& ls, std::vector<std::string> const& h)
{
    switch (std::stoi(h[2])) {
    case 1: return run_e<K, V, 1>(ls, h);
    case 2: return run_e<K, V, 2>(ls, h);
    case 3: return run_e<K, V, 3>(ls, h);
    case 5: return run_e<K, V, 5>(ls, h);
    case 8: return run_e<K, V, 8>(ls, h);
    case 300: return run_e<K, V, 300>(ls, h);
    default: return run_e<K, V, 32>(ls, h);
    }
}
#endif

int main()
{
    return main_loop([](Lines const& ls) {
        auto h = words(ls[0]);
#ifdef NO_LRU
        Ev("init").num("cap", 1).boolean("exc", true).num("xs", 0).num("xn", 0).put();
        Ev("unusable").put();
#else
        if (h[1] == "i") run_n<int, int>(ls, h);
        else if (h[1] == "s") run_n<std::string, std::string>(ls, h);
        else if (h[1] == "b") run_n<BadKey, Plain>(ls, h);
        else run_n<std::string, std::vector<std::string>>(ls, h);
#endif
    });
}
