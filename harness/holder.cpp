// fast_pimpl.   S <kind b|c|m> <layout 0..4>   then
//   make i v how(l|r|c)   copy i j how(c|l)   move i j how   cassign i j   massign i j   swap i j   set i v how   drop i   vector n seed
#include "common.hpp"
#include <xitren/func/fast_pimpl.hpp>
using namespace vh;

struct Log { char const* what; void const* at; void const* from; };
static thread_local std::vector<Log> events;
static thread_local long live, born, died;
static thread_local std::string how;    // what kind of argument the constructor saw
constexpr int Bomb = 13;

struct Arg { int v; };
// what the objects hold is the address of themselves too, so that bytes copied around behind their back show
template <char Kind, std::size_t Align, std::size_t Fill, bool Quiet> struct alignas(Align) Obj {
    std::uint8_t fill[Fill];
    int v;
    Obj const* self;
    void begin(int x) { v = x; self = this; live++; born++; memset(fill, x & 255, Fill); }
    static constexpr bool noex = Quiet;
    Obj(Arg& a, Arg const& b) noexcept(Quiet) { args(a.v + b.v, "l"); }
    Obj(Arg&& a, Arg const& b) noexcept(Quiet) { args(a.v + b.v, "r"); a.v = 0; }
    Obj(Arg const& a, Arg const& b) noexcept(Quiet) { args(a.v + b.v, "c"); }
    Obj(std::initializer_list<Arg>) noexcept { events.push_back({"list", this, nullptr}); begin(0); }
    explicit Obj(int x) noexcept(Quiet) { args(x, "i"); }
    void args(int x, char const* h)
    {
        how = h;
        if constexpr (!Quiet) if (x == Bomb) { events.push_back({"throw", this, nullptr}); throw x; }
        events.push_back({"args", this, nullptr});
        begin(x);
    }
    int take(Obj const& o, char const* what)
    {
        if constexpr (!Quiet) if (o.v == Bomb) { events.push_back({"throw", this, &o}); throw 1; }
        events.push_back({what, this, &o});
        return o.v;
    }
    Obj(Obj const& o) noexcept(Quiet) requires(Kind != 'm') { begin(take(o, "copy")); }
    Obj(Obj&& o) noexcept requires(Kind != 'c') { events.push_back({"move", this, &o}); int x = o.v; o.v = 0; begin(x); }
    Obj& operator=(Obj const& o) noexcept(Quiet) requires(Kind != 'm') { v = take(o, "cassign"); return *this; }
    Obj& operator=(Obj&& o) noexcept requires(Kind != 'c') { events.push_back({"massign", this, &o}); int x = o.v; o.v = 0; v = x; return *this; }
    ~Obj() { events.push_back({"dtor", this, nullptr}); live--; died++; v = -7; self = nullptr; }
    bool sound() const { return self == this && (std::uintptr_t)this % Align == 0; }
};

template <class O, std::size_t Size, std::size_t Al, bool Strict, char Kind> static void run(Lines const& ls)
{
    using H = xitren::func::fast_pimpl<O, Size, Al, Strict>;
    constexpr int N = 4;
    constexpr bool copies = Kind != 'm';
    constexpr bool can_throw = !O::noex;
    events.clear();
    live = born = died = 0;
    struct Place { unsigned char* mem; H* h; bool up; } pl[N + 1];
    std::size_t room = sizeof(H) + 2 * Al;
    for (int i = 1; i <= N; i++) {
        // odd multiples of the alignment, so that nothing is aligned better than it has to be
        pl[i].mem = static_cast<unsigned char*>(::operator new(room + 2 * Al, std::align_val_t(2 * Al)));
        memset(pl[i].mem, 0x6b, room + 2 * Al);
        pl[i].h = reinterpret_cast<H*>(pl[i].mem + Al);
        pl[i].up = false;
    }
    auto where = [&](void const* p) {
        for (int i = 1; i <= N; i++)
            if (p >= (void*)pl[i].h && p < (void*)(pl[i].h + 1)) return i;
        return 0;
    };
    auto tell = [&](Ev& e, bool raised) {
        std::string s = "[";
        for (auto& x : events) {
            if (s.size() > 1) s += ",";
            s += "[\"" + std::string(x.what) + "\"," + std::to_string(where(x.at)) + "," + std::to_string(where(x.from)) + "]";
        }
        events.clear();
        std::vector<int> vals;
        bool in = true, ok = true;
        for (int i = 1; i <= N; i++) {
            if (!pl[i].up) { vals.push_back(-1); }
            else {
                H const& c = *pl[i].h;
                H& m = *pl[i].h;
                vals.push_back(c->v);
                static_assert(std::is_same_v<decltype(*c), O const&> && std::is_same_v<decltype(c.operator->()), O const*>);
                static_assert(std::is_same_v<decltype(*m), O&> && std::is_same_v<decltype(m.operator->()), O*>);
                in = in && &*c == c.operator->() && &*m == m.operator->() && &*c == &*m && c->sound() && where(&*c) == i;
                in = in && where(reinterpret_cast<unsigned char const*>(&*c) + sizeof(O) - 1) == i;
            }
            for (std::size_t k = 0; k < room + 2 * Al; k++)
                if (k < Al || k >= Al + sizeof(H)) ok = ok && pl[i].mem[k] == 0x6b;
        }
        e.raw("log", s + "]").arr("vals", vals).num("live", live).boolean("inplace", in).boolean("intact", ok).boolean("raised", raised).put();
    };
    {
        bool t = alignof(H) % alignof(O) == 0 && sizeof(H) >= sizeof(O);
        t = t && std::is_nothrow_destructible_v<H>;
        t = t && (!std::is_nothrow_move_constructible_v<H> || std::is_nothrow_move_constructible_v<O>);
        t = t && (!std::is_nothrow_move_assignable_v<H> || std::is_nothrow_move_assignable_v<O>);
        t = t && (!can_throw || !std::is_nothrow_constructible_v<H, Arg&, Arg const&>);
        if constexpr (copies) t = t && (!can_throw || (!std::is_nothrow_copy_constructible_v<H> && !std::is_nothrow_copy_assignable_v<H>));
        Ev("init").str("kind", Kind == 'b' ? "both" : Kind == 'c' ? "copy" : "move").num("n", N).boolean("traits", t).put();
    }
    for (std::size_t q = 1; q < ls.size(); q++) {
        auto c = words(ls[q]);
        int i = c.size() > 1 ? std::stoi(c[1]) : 0, j = c.size() > 2 ? std::stoi(c[2]) : 0;
        char w = c.size() > 3 ? c[3][0] : 'c';
        bool raised = false, self = true;
        Ev e(c[0].c_str());
        e.num("i", i);
        auto made = [&] { pl[i].up = true; };
        if (c[0] == "vector") {
            std::mt19937 g((unsigned)j);
            long before = live, b0 = born, d0 = died;
            std::vector<int> want, got;
            bool in = true;
            {
                std::vector<H> v;
                for (int k = 0; k < i; k++) {
                    auto x = g() % 6;
                    int val = 20 + (int)(g() % 100);
                    if (x < 3 || want.empty()) { v.emplace_back(val); want.push_back(val); }
                    else if (x == 3) { auto at = g() % want.size(); v.erase(v.begin() + at); want.erase(want.begin() + at); }
                    else if (x == 4) { auto at = g() % want.size(); v.emplace(v.begin() + at, val); want.insert(want.begin() + at, val); }
                    else { auto at = g() % want.size(); *v[at] = O(val); want[at] = val; }
                }
                for (auto& h : v) { got.push_back(h->v); in = in && h->sound(); }
                Ev("vector").arr("want", want).arr("vals", got).num("live", live - before).num("want_live", (long)want.size()).num("born", born - b0).num("died", died - d0).boolean("inplace", in).put();
            }
            events.clear();
            Ev("vector").arr("want", Lines{}).arr("vals", Lines{}).num("live", live - before).num("want_live", 0).num("born", born - b0).num("died", died - d0).boolean("inplace", true).put();
            continue;
        }
        if (c[0] == "make") {
            Arg a{j - 3};
            Arg const b{3}, ca{j - 3};
            how.clear();
            std::string given(1, w);
            try {
                if (w == 'l') new (pl[i].h) H(a, b);
                else if (w == 'r') new (pl[i].h) H(std::move(a), b);
                else if (w == 'c') new (pl[i].h) H(ca, b);
                else new (pl[i].h) H(j);
                made();
            } catch (int) { raised = true; }
            e.num("v", j).str("how", how).str("given", given);
        } else if (c[0] == "copy") {
            e.num("j", j);
            if constexpr (copies) try {
                if (w == 'l') new (pl[i].h) H(*pl[j].h);
                else if (w == 'b') new (pl[i].h) H{*pl[j].h};
                else new (pl[i].h) H(std::as_const(*pl[j].h));
                made();
            } catch (int) { raised = true; }
        } else if (c[0] == "move") {
            e.num("j", j);
            try { new (pl[i].h) H(std::move(*pl[j].h)); made(); } catch (int) { raised = true; }
        } else if (c[0] == "cassign") {
            e.num("j", j);
            if constexpr (copies) try {
                if (w == 'l') self = &(*pl[i].h = *pl[j].h) == pl[i].h;
                else self = &(*pl[i].h = std::as_const(*pl[j].h)) == pl[i].h;
            } catch (int) { raised = true; }
            e.boolean("self", self);
        } else if (c[0] == "massign") {
            e.num("j", j);
            try { self = &(*pl[i].h = std::move(*pl[j].h)) == pl[i].h; } catch (int) { raised = true; }
            e.boolean("self", self);
        } else if (c[0] == "swap") {
            e.num("j", j);
            std::swap(*pl[i].h, *pl[j].h);
        } else if (c[0] == "set") {
            e.num("v", j);
            if (w == 'a') (*pl[i].h)->v = j;
            else (**pl[i].h).v = j;
        } else if (c[0] == "drop") {
            pl[i].h->~H();
            pl[i].up = false;
        }
        tell(e, raised);
    }
    for (int i = 1; i <= N; i++) {
        if (pl[i].up) {
            pl[i].h->~H();
            pl[i].up = false;
            Ev e("drop");
            tell(e.num("i", i), false);
        }
    }
    for (int i = 1; i <= N; i++) {
        ::operator delete(pl[i].mem, std::align_val_t(2 * Al));
    }
    Ev("done").num("live", live).put();
}

template <char K> static void layout(int l, Lines const& ls)
{
    if (l == 0) { using O = Obj<K, 8, 1, false>; run<O, sizeof(O), alignof(O), true, K>(ls); }
    if (l == 1) { using O = Obj<K, 8, 9, false>; run<O, sizeof(O) + 40, 16, false, K>(ls); }
    if (l == 2) { using O = Obj<K, 64, 70, false>; run<O, sizeof(O), 64, true, K>(ls); }
    if (l == 3) { using O = Obj<K, 16, 3, true>; run<O, sizeof(O) + 1, 32, false, K>(ls); }
    if (l == 4) { using O = Obj<K, 32, 200, true>; run<O, 512, 128, false, K>(ls); }
}
int main()
{
    return main_loop([](Lines const& ls) {
        auto h = words(ls[0]);
        int l = std::stoi(h[2]);
        if (h[1] == "b") layout<'b'>(l, ls);
        if (h[1] == "c") layout<'c'>(l, ls);
#ifdef NO_MOVE_ONLY
        if (h[1] == "m") Ev("init").str("kind", "move").num("n", 4).boolean("traits", true).put(), Ev("absent").str("what", "holding an object that moves but cannot be copied").put();
#else
        if (h[1] == "m") layout<'m'>(l, ls);
#endif
    });
}
