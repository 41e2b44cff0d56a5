// Publishers and observable values.  Script:  S <kind> <cap> <pubs> <obs> <type> <nested calls allowed: letters of amnc>
// then one command per line, consumed by whoever runs: the main program, or the callback in progress
//  a p o  add     m p o  remove     n p d  notify     c p  clear     d p  destroy     x p  create again
//  k p o n  add and remove one observer n times
//  f p o k  give observed value o its update function number k (0: none)
//  u p op v  update a value (set preinc postinc predec postdec add sub; v as unsigned 64-bit)     .  return from the callback
#include "common.hpp"
#include <xitren/comm/observer.hpp>
#include <xitren/comm/values/observable.hpp>
using namespace vh;
namespace xc = xitren::comm;

struct Stream {
    Lines const& ls;
    std::size_t at{1};
    std::function<void(std::vector<std::string> const&)> exec;
    std::string nested;
    int depth{0};
    void callback()    // run the user's code of a callback: commands up to "."
    {
        depth++;
        while (!nested.empty() && at < ls.size() && depth <= 4) {    // no user code if nothing is allowed there
            auto w = words(ls[at++]);
            if (w[0] == ".") break;
            if (nested.find(w[0][0]) != std::string::npos) exec(w);
        }
        depth--;
        Ev("ret").put();
    }
    void main()
    {
        while (at < ls.size()) {
            auto w = words(ls[at++]);
            if (w[0] != ".") exec(w);
        }
    }
};

static char const* name(xc::observer_errors e)
{
    switch (e) {
    case xc::observer_errors::ok: return "ok";
    case xc::observer_errors::list_is_full: return "full";
    case xc::observer_errors::already_contains: return "dup";
    case xc::observer_errors::not_found: return "none";
    case xc::observer_errors::internal_data_broken: return "broken";
    case xc::observer_errors::notify_recursion_detected: return "recursion";
    }
    return "?";
}

template <class P> void run_pub(Lines const& ls, char const* kind, int cap)
{
    auto h = words(ls[0]);
    int const np = std::stoi(h[3]), no = std::stoi(h[4]);
    std::array<std::unique_ptr<P>, 4> pub;
    std::array<int, 4> busy{};
    Stream st{ls};
    st.nested = h.size() > 6 ? h[6] : "";
    auto which = [&](void const* s) { for (int i = 0; i < 4; i++) if (pub[i] && s == static_cast<void const*>(pub[i].get())) return i; return -1; };
    struct Obs : xc::observer<int> {
        int id{};
        Stream* st{};
        std::function<int(void const*)> which;
        void data(void const* s, int const& d) override
        {
            Ev("got").num("p", which(s)).num("s", which(s)).num("o", id).num("d", d).put();
            st->callback();
        }
        void disconnect(void const* s) override
        {
            Ev("disc").num("p", which(s)).num("s", which(s)).num("o", id).put();
            st->callback();
        }
    };
    std::deque<Obs> obs(no);
    for (int i = 0; i < no; i++) { obs[i].id = i; obs[i].st = &st; obs[i].which = which; }
    auto attempt = [](auto f) -> std::string {
        if constexpr (std::is_void_v<decltype(f())>) {
            try { f(); return "ok"; }
            catch (typename P::exception const& e) { return name(e.error); }
        } else return name(f());
    };
    Ev("init").str("kind", kind).num("cap", cap).num("obs", no).num("width", 32).put();
    for (int i = 0; i < np; i++) pub[i] = std::make_unique<P>();
    auto destroy = [&](int p) {
        if (!pub[p] || busy[p]) return;
        busy[p]++;
        Ev("dbeg").num("p", p).put();
        P* raw = pub[p].get();
        std::destroy_at(raw);
        Ev("dend").num("p", p).put();
        pub[p].release();
        ::operator delete((void*)raw);
        busy[p]--;
    };
    st.exec = [&](std::vector<std::string> const& w) {
        int p = std::stoi(w[1]);
        if (p >= np) return;
        if (w[0] == "x") { if (!pub[p]) { pub[p] = std::make_unique<P>(); Ev("new").num("p", p).put(); } return; }
        if (!pub[p]) return;
        int a = w.size() > 2 ? std::stoi(w[2]) : 0;
        switch (w[0][0]) {
        case 'a': { if (a >= no) return; auto r = attempt([&] { return pub[p]->add_observer(obs[a]); }); Ev("add").num("p", p).num("o", a).str("res", r).put(); break; }
        case 'm': { if (a >= no) return; auto r = attempt([&] { return pub[p]->remove_observer(obs[a]); }); Ev("rem").num("p", p).num("o", a).str("res", r).put(); break; }
        case 'k': {
            if (a >= no) return;
            int ok = 0, n = std::stoi(w[3]);
            for (int i = 0; i < n; i++) {
                ok += attempt([&] { return pub[p]->add_observer(obs[a]); }) == "ok";
                ok += attempt([&] { return pub[p]->remove_observer(obs[a]); }) == "ok";
            }
            Ev("churn").num("p", p).num("o", a).num("n", n).num("ok", ok).put();
            break;
        }
        case 'n': { busy[p]++; Ev("nbeg").num("p", p).num("d", a).put(); auto r = attempt([&] { return pub[p]->notify_observers(a); }); Ev("nend").num("p", p).str("res", r).put(); busy[p]--; break; }
        case 'c': { busy[p]++; Ev("cbeg").num("p", p).put(); pub[p]->clear_observers(); Ev("cend").num("p", p).put(); busy[p]--; break; }
        case 'd': destroy(p); break;
        }
    };
    st.main();
    for (int p = 0; p < np; p++) destroy(p);
}

struct pair32 {    // a type without arithmetic
    std::uint32_t lo, hi;
    bool operator==(pair32 const&) const = default;
};
// numbers as bit patterns; fractions in quarters, as 64-bit two's complement
template <class T> T number(std::uint64_t u)
{
    if constexpr (std::is_floating_point_v<T>) return (T)(std::int64_t)u / 4;
    else if constexpr (std::is_same_v<T, pair32>) return {(std::uint32_t)u, (std::uint32_t)(u >> 32)};
    else return (T)u;
}
template <class T> std::uint64_t pattern(T v)
{
    if constexpr (std::is_floating_point_v<T>) return (std::uint64_t)(std::int64_t)(v * 4);
    else if constexpr (std::is_same_v<T, pair32>) return v.lo | (std::uint64_t)v.hi << 32;
    else return (std::uint64_t)(std::make_unsigned_t<T>)v;
}
template <class T> std::string limbs(T v)
{
    auto u = pattern(v);
    return "[" + std::to_string(u & 0xffff) + "," + std::to_string(u >> 16 & 0xffff) + "," + std::to_string(u >> 32 & 0xffff) + "," + std::to_string(u >> 48) + "]";
}

template <class T, class P> void run_val(Lines const& ls, char const* kind, int cap)
{
    auto h = words(ls[0]);
    int const np = std::stoi(h[3]), no = std::stoi(h[4]);
    std::array<std::unique_ptr<P>, 4> pub;
    std::array<int, 4> busy{};
    std::vector<int> current;    // publishers with an update in progress, innermost last
    Stream st{ls};
    st.nested = h.size() > 6 ? h[6] : "";
    auto which = [&](void const* s) { for (int i = 0; i < 4; i++) if (pub[i] && s == static_cast<void const*>(pub[i].get())) return i; return -1; };
    struct Obs : xc::values::observed<T> {
        using xc::values::observed<T>::observed;
        int id{};
        Stream* st{};
        std::function<int(void const*)> which;
        void disconnect(void const* s) override
        {
            Ev("disc").num("p", which(s)).num("s", which(s)).num("o", id).put();
            st->callback();
        }
    };
    std::deque<Obs> obs;
    auto fn = [&](int i, int k) -> std::function<void(T const)> {
        return [&, i, k](T const v) {
            Ev("gotv").num("p", current.empty() ? -1 : current.back()).num("o", i).num("f", k).raw("v", limbs(v)).put();
            st.callback();
        };
    };
    auto give = [&](int i, int k) { if (k) obs[i].on_update(fn(i, k)); else obs[i].on_update(nullptr); };
    for (int i = 0; i < no; i++) {
        if (i % 2) obs.emplace_back(fn(i, 1));
        else { obs.emplace_back(); give(i, 1); }
        obs[i].id = i; obs[i].st = &st; obs[i].which = which;
    }
    Ev("init").str("kind", kind).num("cap", cap).num("obs", no).num("width", std::is_floating_point_v<T> ? 64 : 8 * sizeof(T)).num("unit", std::is_floating_point_v<T> ? 4 : 1).put();
    for (int i = 0; i < np; i++) pub[i] = std::make_unique<P>();
    auto destroy = [&](int p) {
        if (!pub[p] || busy[p]) return;
        busy[p]++;
        Ev("dbeg").num("p", p).put();
        P* raw = pub[p].get();
        std::destroy_at(raw);
        Ev("dend").num("p", p).put();
        pub[p].release();
        ::operator delete((void*)raw);
        busy[p]--;
    };
    st.exec = [&](std::vector<std::string> const& w) {
        int p = std::stoi(w[1]);
        if (p >= np) return;
        if (w[0] == "x") { if (!pub[p]) { pub[p] = std::make_unique<P>(); Ev("new").num("p", p).put(); } return; }
        if (!pub[p]) return;
        P& P_ = *pub[p];
        switch (w[0][0]) {
        case 'a': { int a = std::stoi(w[2]); if (a >= no) return; auto r = name(P_.add_observer(obs[a])); Ev("add").num("p", p).num("o", a).str("res", r).put(); break; }
        case 'm': { int a = std::stoi(w[2]); if (a >= no) return; auto r = name(P_.remove_observer(obs[a])); Ev("rem").num("p", p).num("o", a).str("res", r).put(); break; }
        case 'k': {
            int a = std::stoi(w[2]), ok = 0, n = std::stoi(w[3]);
            if (a >= no) return;
            for (int i = 0; i < n; i++) {
                ok += name(P_.add_observer(obs[a])) == std::string_view("ok");
                ok += name(P_.remove_observer(obs[a])) == std::string_view("ok");
            }
            Ev("churn").num("p", p).num("o", a).num("n", n).num("ok", ok).put();
            break;
        }
        case 'f': { int a = std::stoi(w[2]), k = std::stoi(w[3]); if (a >= no) return; give(a, k); Ev("fn").num("o", a).num("f", k).put(); break; }
        case 'c': { busy[p]++; Ev("cbeg").num("p", p).put(); P_.clear_observers(); Ev("cend").num("p", p).put(); busy[p]--; break; }
        case 'd': destroy(p); break;
        case 'u': {
            if (std::find(current.begin(), current.end(), p) != current.end()) return;    // no update of a value from its own delivery
            T const a = number<T>(std::stoull(w[3]));
            std::string k = w[2];
            if constexpr (std::is_same_v<T, pair32>) k = "set";
            busy[p]++;
            current.push_back(p);
            Ev("ubeg").num("p", p).str("k", k).raw("a", limbs(a)).put();
            T r{};
            if (k == "set") r = (P_ = a);
            else if constexpr (std::is_same_v<T, pair32>) {}
            else if (k == "preinc") r = ++P_;
            else if (k == "predec") r = --P_;
            else if (k == "postinc") r = P_++;
            else if (k == "postdec") r = P_--;
            else if (k == "add") r = (P_ += a);
            else if (k == "sub") r = (P_ -= a);
            std::string seen{"["};
            for (int i = 0; i < no; i++) seen += (i ? ",[" : "[") + std::to_string(i) + "," + limbs(obs[i].value()) + "]";
            Ev("uend").num("p", p).str("k", k).raw("res", limbs(r)).raw("val", limbs(P_.value())).raw("seen", seen + "]").put();
            current.pop_back();
            busy[p]--;
            break;
        }
        }
    };
    st.main();
    for (int p = 0; p < np; p++) destroy(p);
}

template <class T> void values(Lines const& ls, std::string const& kind, int cap)
{
    namespace v = xc::values;
    if (kind == "vd") return run_val<T, v::observable<T, 0>>(ls, "vd", 0);
#ifdef ALL_TYPES
    return run_val<T, v::observable<T, 3>>(ls, "vs", 3);
#endif
    switch (cap) {
    case 1: return run_val<T, v::observable<T, 1>>(ls, "vs", 1);
    case 3: return run_val<T, v::observable<T, 3>>(ls, "vs", 3);
#ifdef LARGE
    case 300: return run_val<T, v::observable<T, 300>>(ls, "vs", 300);
#endif
    default: return run_val<T, v::observable<T, 8>>(ls, "vs", 8);
    }
}

int main()
{
    return main_loop([](Lines const& ls) {
        auto h = words(ls[0]);
        int cap = std::stoi(h[2]);
#ifdef WITH_PUB
        if (h[1] == "od") return run_pub<xc::observable<int, false, 0>>(ls, "od", 0);
        if (h[1] == "os") {
            switch (cap) {
            case 1: return run_pub<xc::observable<int, true, 1>>(ls, "os", 1);
            case 2: return run_pub<xc::observable<int, true, 2>>(ls, "os", 2);
            case 3: return run_pub<xc::observable<int, true, 3>>(ls, "os", 3);
            case 300: return run_pub<xc::observable<int, true, 300>>(ls, "os", 300);
            default: return run_pub<xc::observable<int>>(ls, "os", 8);
            }
        }
#endif
#ifdef WITH_VAL
        std::string const& t = h[5];
#ifdef ALL_TYPES
        if (t == "i8") values<std::int8_t>(ls, h[1], cap);
        else if (t == "u8") values<std::uint8_t>(ls, h[1], cap);
        else if (t == "i16") values<std::int16_t>(ls, h[1], cap);
        else if (t == "u16") values<std::uint16_t>(ls, h[1], cap);
        else if (t == "u32") values<std::uint32_t>(ls, h[1], cap);
        else if (t == "i64") values<std::int64_t>(ls, h[1], cap);
        else if (t == "u64") values<std::uint64_t>(ls, h[1], cap);
        else if (t == "f32") values<float>(ls, h[1], cap);
        else if (t == "f64") values<double>(ls, h[1], cap);
#ifndef NO_PAIR
        else if (t == "pair") values<pair32>(ls, h[1], cap);
#else
        else if (t == "pair") values<std::uint64_t>(ls, h[1], cap);
#endif
        else
#endif
            values<std::int32_t>(ls, h[1], cap);
#endif
    });
}
