// Mediator.  Script:  S <cap> <modules>  then  m i k  make module i of kind k    k i  destroy it
//   s i v  module i sends    g t v  the manager sends a message of type t    .  return from a callback
//   w i v n  module i sends n bytes as they are
//   c i k n  make and destroy module i n times
// kinds (sends; receives):  0 (1;2) 1 (2;1,3) 2 (3;1,2) 3 (1;1) 4 (4;) 5 (2;2,4,1) 6 (4;1,2,3,4) 7 (3;4) 8 (5;1,5) 9 (1;5,2) 10 (4; none at all)
#include "common.hpp"
#include <xitren/comm/mediator.hpp>
using namespace vh;
namespace xc = xitren::comm;

struct T1 { int a; bool operator==(T1 const&) const = default; };
struct T2 { int a, b; bool operator==(T2 const&) const = default; };
struct T3 { int a, b; bool operator==(T3 const&) const = default; };
struct T4 { std::uint8_t c[13]; bool operator==(T4 const&) const = default; };
struct T5 { std::uint8_t c[70001]; bool operator==(T5 const&) const = default; };
template <class T> T make(int v)
{
    T t{};
    auto* p = (std::uint8_t*)&t;
    for (std::size_t i = 0; i < sizeof(T); i++) p[i] = (std::uint8_t)(v * 37 + i * 11 + (v >> 3) + sizeof(T));
    return t;
}
static std::vector<std::uint8_t> loose(int v, std::size_t n)
{
    std::vector<std::uint8_t> b;
    for (std::size_t i = 0; i < n; i++) b.push_back((std::uint8_t)(v * 37 + i * 11));
    b.reserve(n + 1);
    return b;
}
static std::vector<int> bytes(void const* p, std::size_t n)    // long ones as length and digest
{
    auto* b = (std::uint8_t const*)p;
    if (n <= 64) return {b, b + n};
    std::uint32_t h = 2166136261u;
    for (std::size_t i = 0; i < n; i++) h = (h ^ b[i]) * 16777619u;
    return {(int)n, (int)(h & 0xffff), (int)(h >> 16)};
}
static thread_local std::vector<std::size_t> ids;    // the type identities seen, in the order they were seen
static int number(std::size_t id)
{
    for (std::size_t i = 0; i < ids.size(); i++) if (ids[i] == id) return (int)i + 1;
    ids.push_back(id);
    return (int)ids.size();
}

static thread_local std::function<void()> callback;
struct Any { virtual ~Any() = default; virtual void go(int v) = 0; virtual void raw(int v, std::size_t n) = 0; };
template <class S> constexpr int tnum = std::is_same_v<S, T1> ? 1 : std::is_same_v<S, T2> ? 2 : std::is_same_v<S, T3> ? 3 : std::is_same_v<S, T4> ? 4 : 5;

#define GOT(T) void data(T const& x) override { Ev("recv").num("m", this->i).num("t", tnum<T>).arr("b", bytes(&x, sizeof x)).put(); callback(); }
#define MOD(NAME, S, BODY, ...)                                                                          \
    struct NAME : Any, xc::module<S __VA_OPT__(,) __VA_ARGS__> {                                         \
        int i;                                                                                           \
        NAME(xc::base::manager& m, int i) : xc::module<S __VA_OPT__(,) __VA_ARGS__>(m), i{i} {}           \
        BODY                                                                                             \
        void raw(int v, std::size_t n) override                                                          \
        {                                                                                                \
            auto b = loose(v, n);                                                                        \
            Ev("raw").num("m", i).num("t", tnum<S>).num("n", n).num("size", sizeof(S)).arr("b", bytes(b.data(), n)).put(); \
            xc::module<S __VA_OPT__(,) __VA_ARGS__>::send(b.data(), n);                                   \
            Ev("end").put();                                                                             \
        }                                                                                                \
        void go(int v) override                                                                          \
        {                                                                                                \
            S x = make<S>(v);                                                                            \
            Ev("send").num("m", i).num("t", tnum<S>).arr("b", bytes(&x, sizeof x)).put();                 \
            xc::module<S __VA_OPT__(,) __VA_ARGS__>::send(x);                                             \
            Ev("end").put();                                                                             \
        }                                                                                                \
    };
MOD(M0, T1, GOT(T2), T2)
MOD(M1, T2, GOT(T1) GOT(T3), T1, T3)
MOD(M2, T3, GOT(T1) GOT(T2), T1, T2)
MOD(M3, T1, GOT(T1), T1)
MOD(M5, T2, GOT(T2) GOT(T4) GOT(T1), T2, T4, T1)
MOD(M6, T4, GOT(T1) GOT(T2) GOT(T3) GOT(T4), T1, T2, T3, T4)
MOD(M7, T3, GOT(T4), T4)
MOD(M8, T5, GOT(T1) GOT(T5), T1, T5)
MOD(M9, T1, GOT(T5) GOT(T2), T5, T2)
#ifdef NO_MUTE
MOD(M10, T4, void data(T5 const&) override {}, T5)
#else
MOD(M10, T4, )    // receives nothing
#endif
struct M4 : Any, xc::module<T4, struct Nothing> {    // receives no message anyone sends
    int i;
    M4(xc::base::manager& m, int i) : xc::module<T4, Nothing>(m), i{i} {}
    void data(Nothing const&) override {}
    void raw(int v, std::size_t n) override
    {
        auto b = loose(v, n);
        Ev("raw").num("m", i).num("t", 4).num("n", n).num("size", sizeof(T4)).arr("b", bytes(b.data(), n)).put();
        xc::module<T4, Nothing>::send(b.data(), n);
        Ev("end").put();
    }
    void go(int v) override
    {
        T4 x = make<T4>(v);
        Ev("send").num("m", i).num("t", 4).arr("b", bytes(&x, sizeof x)).put();
        xc::module<T4, Nothing>::send(x);
        Ev("end").put();
    }
};
struct Nothing { char c[3]; };

template <std::size_t N> struct Mgr : xc::manager<N> {
    void data(std::size_t id, std::uint8_t* p, std::size_t n) override
    {
        std::vector<int> conv;    // to each of the types: 0 refused, 1 the same bytes, 2 others
        auto to = [&]<class T>(T*) {
#ifdef NO_CONV
            conv.push_back(-1);
#else
            try {
                T x = this->template convert_field<T>(p, n);
                conv.push_back(bytes(&x, sizeof x) == bytes(p, n) ? 1 : 2);
            } catch (std::exception const&) { conv.push_back(0); }
#endif
        };
        to((T1*)0), to((T2*)0), to((T3*)0), to((T4*)0), to((T5*)0);
        Ev("hook").num("id", number(id)).num("n", n).arr("b", bytes(p, n)).arr("conv", conv).put();
        callback();
    }
};

template <std::size_t N> void run(Lines const& ls)
{
    // storage around the manager shows writes outside it
    auto mgr = std::make_unique<Mgr<N>>();
    std::vector<std::unique_ptr<Any>> mod(std::stoul(words(ls[0])[2]));
    std::size_t at = 1;
    ids.clear();
    int depth = 0;
    std::function<void(std::vector<std::string> const&)> exec;
    callback = [&] {
        depth++;
        while (at < ls.size() && depth <= 4) {
            auto w = words(ls[at++]);
            if (w[0] == ".") break;
            exec(w);
        }
        depth--;
        Ev("ret").put();
    };
    Ev("init").num("cap", N).put();
    exec = [&](std::vector<std::string> const& w) {
        if (w[0] == ".") return;
        int i = std::stoi(w[1]), v = w.size() > 2 ? std::stoi(w[2]) : 0;
        auto create = [&](int k) {
            std::string r = "ok";
            try {
                switch (k) {
#define X(n) case n: mod[i] = std::make_unique<M##n>(*mgr, i); break;
                    X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10)
                }
            } catch (std::exception const&) { r = "refused"; }
            return r;
        };
        if (w[0] == "m" && !mod[i]) {
            auto r = create(v);
            Ev("make").num("m", i).num("k", v).str("res", r).put();
        } else if (w[0] == "c" && !mod[i]) {
            int ok = 0, n = std::stoi(w[3]);
            for (int k = 0; k < n; k++) {
                ok += create(v) == "ok";
                mod[i].reset();
            }
            Ev("churn").num("m", i).num("k", v).num("n", n).num("ok", ok).put();
        } else if (w[0] == "k" && mod[i]) {
            mod[i].reset();
            Ev("kill").num("m", i).put();
        } else if (w[0] == "s" && mod[i]) mod[i]->go(v);
        else if (w[0] == "w" && mod[i]) mod[i]->raw(v, std::stoul(w[3]));
        else if (w[0] == "g") {
            auto send = [&](auto x) { Ev("msend").num("t", i).arr("b", bytes(&x, sizeof x)).put(); mgr->send(x); Ev("end").put(); };
            if (i == 1) send(make<T1>(v)); else if (i == 2) send(make<T2>(v)); else if (i == 3) send(make<T3>(v)); else if (i == 4) send(make<T4>(v)); else send(make<T5>(v));
        }
    };
    while (at < ls.size()) exec(words(ls[at++]));
    for (auto& m : mod) m.reset();
}

int main()
{
    return main_loop([](Lines const& ls) {
#ifdef NO_MUTE
        Ev("init").num("cap", 1).put();
        Ev("absent").str("what", "modules that receive nothing").put();
        return;
#endif
        switch (std::stoi(words(ls[0])[1])) {
        case 1: return run<1>(ls);
        case 2: return run<2>(ls);
        case 3: return run<3>(ls);
        case 300: return run<300>(ls);
        default: return run<8>(ls);
        }
    });
}
