// Standard containers over static_heap_allocator.  Script:  S <size> <roomy: everything fits>  then
//  n <c>  create container c     z <c>  destroy it
//  o <op> <c> <a> <b>            container operation (skipped when its precondition does not hold)
//  A <slot> <ty> <n>             direct allocator request    F <slot>  give it back
//  q                             compare allocators          Z  destroy everything
// containers: 0,1 vector<int>  2,3 list<int>  4 map<int,int>  5 unordered_map<int,int>  6 deque<int>
//             7 string  8 set<int>  9 vector<Wide>;  10 vector<int>, 11 list<int> on a second heap
#include "common.hpp"
#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>
using namespace vh;
using namespace xitren::allocators;

struct Wide { int v; long pad[4]; Wide(int x = 0) : v{x}, pad{x, ~(long)x, x, x} {} operator int() const { return pad[1] == ~(long)v && pad[3] == v ? v : -999999; } };

template <std::size_t Size> void run(Lines const& ls)
{
    using H = static_heap<Size>;
    auto h1 = std::make_unique<H>(), h2 = std::make_unique<H>();
    using AI = static_heap_allocator<int, Size>;
    using AP = static_heap_allocator<std::pair<int const, int>, Size>;
    using AC = static_heap_allocator<char, Size>;
    using AW = static_heap_allocator<Wide, Size>;
    using V = std::vector<int, AI>;
    using L = std::list<int, AI>;
    using M = std::map<int, int, std::less<int>, AP>;
    using U = std::unordered_map<int, int, std::hash<int>, std::equal_to<int>, AP>;
    using D = std::deque<int, AI>;
    using T = std::basic_string<char, std::char_traits<char>, AC>;
    using SS = std::set<int, std::less<int>, AI>;
    using VW = std::vector<Wide, AW>;
    std::optional<V> v[2], v2;
    std::optional<L> l[2], l2;
    std::optional<M> m;
    std::optional<U> u;
    std::optional<D> d;
    std::optional<T> t;
    std::optional<SS> s;
    std::optional<VW> w;
    struct Slot { void* p{}; int ty{}; };
    std::map<int, Slot> slots;
    std::size_t const free1 = h1->free_heap_size(), free2 = h2->free_heap_size();

    auto state = [&] {
        std::string r{"["};
        auto add = [&](int id, std::vector<long long> const& x) {
            if (r.size() > 1) r += ',';
            r += '[' + std::to_string(id) + ",[";
            for (std::size_t i = 0; i < x.size(); i++) r += (i ? "," : "") + std::to_string(x[i]);
            r += "]]";
        };
        auto seq = [&](int id, auto& c) { if (c) { std::vector<long long> x; for (auto const& e : *c) { x.push_back((long long)(int)e); if (x.size() > 5000) break; } if (x.size() != c->size()) x.push_back(-777777); add(id, x); } };
        auto kv = [&](int id, auto& c) { if (c) { std::map<long long, long long> o; std::size_t n = 0; for (auto const& e : *c) { o[e.first] = e.second; n++; } std::vector<long long> x; for (auto& e : o) { x.push_back(e.first); x.push_back(e.second); auto f = c->find((int)e.first); if (f == c->end()) x.push_back(-888888); } if (n != c->size() || n != o.size()) x.push_back(-777777); add(id, x); } };
        seq(0, v[0]); seq(1, v[1]); seq(2, l[0]); seq(3, l[1]); kv(4, m); kv(5, u); seq(6, d); seq(7, t); seq(8, s); seq(9, w); seq(10, v2); seq(11, l2);
        return r + "]";
    };
    Ev("init").num("size", Size).boolean("roomy", words(ls[0]).size() > 2 && words(ls[0])[2] == "1").put();

    auto has = [&](int c) -> bool {
        switch (c) { case 0: return v[0].has_value(); case 1: return v[1].has_value(); case 2: return l[0].has_value(); case 3: return l[1].has_value(); case 4: return m.has_value(); case 5: return u.has_value();
        case 6: return d.has_value(); case 7: return t.has_value(); case 8: return s.has_value(); case 9: return w.has_value(); case 10: return v2.has_value(); case 11: return l2.has_value(); }
        return false;
    };
    auto create = [&](int c) {
        H& a = *h1; H& b = *h2;
        switch (c) { case 0: case 1: v[c].emplace(AI{a}); break; case 2: case 3: l[c - 2].emplace(AI{a}); break; case 4: m.emplace(AP{a}); break; case 5: u.emplace(AP{a}); break; case 6: d.emplace(AI{a}); break;
        case 7: t.emplace(AC{a}); break; case 8: s.emplace(AI{a}); break; case 9: w.emplace(AW{a}); break; case 10: v2.emplace(AI{b}); break; case 11: l2.emplace(AI{b}); break; }
    };
    auto destroy = [&](int c) {
        switch (c) { case 0: case 1: v[c].reset(); break; case 2: case 3: l[c - 2].reset(); break; case 4: m.reset(); break; case 5: u.reset(); break; case 6: d.reset(); break;
        case 7: t.reset(); break; case 8: s.reset(); break; case 9: w.reset(); break; case 10: v2.reset(); break; case 11: l2.reset(); break; }
    };
    auto with = [&](int c, auto f) { switch (c) { case 0: case 1: f(*v[c]); break; case 2: case 3: f(*l[c - 2]); break; case 4: f(*m); break; case 5: f(*u); break; case 6: f(*d); break; case 7: f(*t); break; case 8: f(*s); break; case 9: f(*w); break; case 10: f(*v2); break; case 11: f(*l2); break; } };
    // performs the operation; false: precondition not met, nothing done
    auto apply = [&](std::string const& op, int c, long long a, long long b) -> bool {
        bool done = false;
        with(c, [&](auto& x) {
            using X = std::decay_t<decltype(x)>;
            constexpr bool is_map = std::is_same_v<X, M> || std::is_same_v<X, U>;
            constexpr bool is_set = std::is_same_v<X, SS>;
            constexpr bool is_vec = std::is_same_v<X, V> || std::is_same_v<X, VW>;
            constexpr bool is_list = std::is_same_v<X, L>;
            auto go = [&] { done = true; };
            if (op == "clr") { x.clear(); go(); return; }
            if (op == "swp" || op == "mov" || op == "cpy") {
                X* y{};
                if (b >= 0 && has((int)b) && b != c) with((int)b, [&](auto& z) { if constexpr (std::is_same_v<std::decay_t<decltype(z)>, X>) y = &z; });
                if (!y) return;
                if (op == "swp") { if ((c >= 10) == (b >= 10)) { x.swap(*y); go(); } }
                else if (op == "mov") { if (!is_list || (c >= 10) == (b >= 10)) { x = std::move(*y); go(); } }
                else if constexpr (is_vec) { x = *y; go(); }
                return;
            }
            if constexpr (is_map) {
                if (op == "put") { x.insert_or_assign((int)a, (int)b); go(); }
                else if (op == "ins") { x.insert({(int)a, (int)b}); go(); }
                else if (op == "del") { x.erase((int)a); go(); }
                return;
            } else if constexpr (is_set) {
                if (op == "add") { x.insert((int)a); go(); }
                else if (op == "del") { x.erase((int)a); go(); }
                return;
            } else {
                using E = typename X::value_type;
                if (op == "pb") { x.push_back(E(a)); go(); }
                else if (op == "ppb") { if (!x.empty()) { x.pop_back(); go(); } }
                else if (op == "inn") { if ((std::size_t)a <= x.size()) { x.insert(std::next(x.begin(), a), E(b)); go(); } }
                else if (op == "era") { if ((std::size_t)a < x.size()) { x.erase(std::next(x.begin(), a)); go(); } }
                else if (op == "rsz") { x.resize((std::size_t)a); go(); }
                if constexpr (!is_list && !std::is_same_v<X, D>) { if (op == "rsv") { x.reserve((std::size_t)a); go(); } }
                if constexpr (!is_list) { if (op == "shr") { x.shrink_to_fit(); go(); } }
                if constexpr (is_list || std::is_same_v<X, D>) {
                    if (op == "pf") { x.push_front((int)a); go(); }
                    else if (op == "ppf") { if (!x.empty()) { x.pop_front(); go(); } }
                }
                if constexpr (is_list) {
                    if (op == "spl" && b != c && has((int)b) && (c >= 10) == (b >= 10)) with((int)b, [&](auto& z) { if constexpr (std::is_same_v<std::decay_t<decltype(z)>, L>) { x.splice(x.end(), z); go(); } });
                    else if (op == "srt") { x.sort(); go(); }
                    else if (op == "rev") { x.reverse(); go(); }
                }
            }
        });
        return done;
    };
    auto fin = [&](Ev& e) { e.raw("all", state()); e.num("f1", h1->free_heap_size()).num("f2", h2->free_heap_size()); e.put(); };
    auto guarded = [](auto f) -> std::string {
        try { f(); return "ok"; }
        catch (std::bad_alloc const&) { return "oom"; }
        catch (std::length_error const&) { return "len"; }
    };
    auto largest = [&] { // what the heap could serve, found by the heap's own statistics
        std::size_t lo = 0, hi = Size;
        while (lo < hi) { std::size_t mid = (lo + hi + 1) / 2; void* p = h1->allocate(mid); if (p) { h1->deallocate(p); lo = mid; } else hi = mid - 1; }
        return lo;
    };
    // every third block goes back without its size, which deallocate lets the caller leave out
    auto give_back = [&](int sl, auto a, auto* p) {
        if constexpr (requires { a.deallocate(p); }) {
            if (sl % 3 == 1) { a.deallocate(p); return; }
        }
        a.deallocate(p, 1);
    };
    for (std::size_t li = 1; li < ls.size(); li++) {
        auto k = words(ls[li]);
        if (k[0] == "n") {
            int c = std::stoi(k[1]);
            if (has(c)) continue;
            auto r = guarded([&] { create(c); });
            Ev e("new"); e.num("c", c).str("res", r); fin(e);
        } else if (k[0] == "z") {
            int c = std::stoi(k[1]);
            if (!has(c)) continue;
            destroy(c);
            Ev e("del"); e.num("c", c); fin(e);
        } else if (k[0] == "o") {
            int c = std::stoi(k[2]);
            long long a = std::stoll(k[3]), b = std::stoll(k[4]);
            if (!has(c)) continue;
            bool done = true;
            auto r = guarded([&] { done = apply(k[1], c, a, b); });
            if (!done) continue;
            Ev e("op"); e.num("c", c).str("k", k[1]).num("a", std::min(a, 2000000000LL)).num("b", std::min(b, 2000000000LL)).str("res", r); fin(e);
        } else if (k[0] == "A") {
            int sl = std::stoi(k[1]), ty = std::stoi(k[2]);
            std::size_t n = std::stoull(k[3]);
            if (slots.contains(sl)) continue;
            void* p{};
            std::size_t sz{};
            std::size_t lg = largest();
            auto r = guarded([&] {
                if (ty == 0) { sz = 1; p = AC{*h1}.allocate(n); }
                else if (ty == 1) { sz = 4; p = AI{*h1}.allocate(n); }
                else { sz = sizeof(Wide); p = AW{*h1}.allocate(n); }
            });
            if (ty == 0) sz = 1; else if (ty == 1) sz = 4; else sz = sizeof(Wide);
            if (r == "ok") slots[sl] = {p, ty};
            bool over = n > SIZE_MAX / sz;
            long long bytes = over || n * sz > 0x7fffffff ? 0x7fffffff : (long long)(n * sz);
            Ev e("alloc"); e.num("bytes", bytes).boolean("over", over).num("largest", lg).str("res", r).num("null", r == "ok" && !p); fin(e);
        } else if (k[0] == "F") {
            int sl = std::stoi(k[1]);
            auto it = slots.find(sl);
            if (it == slots.end()) continue;
            if (it->second.ty == 0) give_back(sl, AC{*h1}, (char*)it->second.p);
            else if (it->second.ty == 1) give_back(sl, AI{*h1}, (int*)it->second.p);
            else give_back(sl, AW{*h1}, (Wide*)it->second.p);
            slots.erase(it);
            Ev e("dealloc"); fin(e);
        } else if (k[0] == "q") {
            AI a{*h1}, b{*h1}, c{*h2};
            AC x{*h1}, y{*h2};
            AI z{x}, z2{y};
#ifdef NO_XEQ
            bool ok = false;    // allocators of different value types cannot be compared
#else
            bool ok = (a == b) && (a == a) && !(a == c) && (a == x) && !(a == y) && (z == a) && (z2 == c) && !(z2 == a)
                      && !(a != b) && (a != c) && (a != y) && !(x != a);
#endif
            Ev("eq").boolean("ok", ok).put();
        } else if (k[0] == "Z") {
            for (int c = 0; c < 12; c++) destroy(c);
            for (auto& [sl, p] : slots) { if (p.ty == 0) give_back(sl, AC{*h1}, (char*)p.p); else if (p.ty == 1) give_back(sl, AI{*h1}, (int*)p.p); else give_back(sl, AW{*h1}, (Wide*)p.p); }
            slots.clear();
            Ev e("end"); e.boolean("back", h1->free_heap_size() == free1 && h2->free_heap_size() == free2); fin(e);
        }
    }
    for (int c = 0; c < 12; c++) destroy(c);
    (void)h1.release(); (void)h2.release();
}

int main()
{
    return main_loop([](Lines const& ls) {
        switch (std::stoi(words(ls[0])[1])) {
#define X(n) case n: run<n>(ls); break;
            X(256) X(400) X(1024) X(4096) X(32768)
        default: _exit(78);
        }
    });
}
