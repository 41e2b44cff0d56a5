// Tens of thousands of members.  Script:  S <kind> <ids>  then
//   a x y  add members x..y    r x y k  remove every k-th of x..y    n  tell all    c  clear
//   p x y  store keys x..y     g x y k  look up every k-th of x..y
// kinds: os od vs vd (publishers and values), m (mediator), l (cache); capacity CAP where there is one
#include "common.hpp"
using namespace vh;
constexpr std::size_t CAP = 65600;
static std::vector<int> got;
static int wrong;

struct Kind {
    virtual ~Kind() = default;
    virtual bool add(int) { return false; }
    virtual bool rem(int) { return false; }
    virtual void tell(int) {}
    virtual void clear() {}
    virtual void put(int, int) {}
    virtual int get(int, int) { return 0; }    // 1 there, 0 not, -1 something else
};

#if defined MANY_os || defined MANY_od
#include <xitren/comm/observer.hpp>
namespace xc = xitren::comm;
template <class P> struct Pub : Kind {
    struct Obs : xc::observer<int> {
        Pub* k{};
        int id{};
        void data(void const* s, int const& d) override { got.push_back(id); wrong += s != (void const*)k->p.get() || d != k->told; }
        void disconnect(void const* s) override { got.push_back(id); wrong += s != (void const*)k->p.get(); }
    };
    int told{};
    std::vector<Obs> o;
    std::unique_ptr<P> p = std::make_unique<P>();
    explicit Pub(int n) : o(n) { for (int i = 0; i < n; i++) { o[i].k = this; o[i].id = i; } }
    bool attempt(auto f)
    {
        if constexpr (std::is_void_v<decltype(f())>) {
            try { f(); return true; }
            catch (typename P::exception const&) { return false; }
        } else return f() == xc::observer_errors::ok;
    }
    bool add(int i) override { return attempt([&] { return p->add_observer(o[i]); }); }
    bool rem(int i) override { return attempt([&] { return p->remove_observer(o[i]); }); }
    void tell(int d) override { told = d; if (!attempt([&] { return p->notify_observers(d); })) wrong++; }
    void clear() override { p->clear_observers(); }
};
#endif
#if defined MANY_vs || defined MANY_vd
#include <xitren/comm/values/observable.hpp>
namespace xc = xitren::comm;
template <class P> struct Val : Kind {
    struct Obs : xc::values::observed<int> {
        Val* k{};
        int id{};
        void disconnect(void const* s) override { got.push_back(id); wrong += s != (void const*)k->p.get(); }
    };
    int told{};
    std::vector<Obs> o;
    std::unique_ptr<P> p = std::make_unique<P>();
    explicit Val(int n) : o(n)
    {
        for (int i = 0; i < n; i++) {
            o[i].k = this; o[i].id = i;
            o[i].on_update([this, i](int v) { got.push_back(i); wrong += v != told; });
        }
    }
    bool add(int i) override { return p->add_observer(o[i]) == xc::observer_errors::ok; }
    bool rem(int i) override { return p->remove_observer(o[i]) == xc::observer_errors::ok; }
    void tell(int d) override
    {
        told = d;
        *p = d;
        for (int i : got) wrong += o[i].value() != d;
    }
    void clear() override { p->clear_observers(); }
};
#endif
#ifdef MANY_m
#include <xitren/comm/mediator.hpp>
namespace xc = xitren::comm;
struct Message { int a; bool operator==(Message const&) const = default; };
struct Other { int a, b; bool operator==(Other const&) const = default; };
struct Many : Kind {
    struct Mgr : xc::manager<CAP> { void data(std::size_t, std::uint8_t*, std::size_t) override {} };
    struct Mod : xc::module<Other, Message> {
        Many* k;
        int id;
        Mod(xc::base::manager& m, Many* k, int id) : xc::module<Other, Message>(m), k{k}, id{id} {}
        void data(Message const& x) override { got.push_back(id); wrong += x.a != k->told; }
    };
    int told{};
    std::unique_ptr<Mgr> p = std::make_unique<Mgr>();
    std::vector<std::unique_ptr<Mod>> o;
    explicit Many(int n) : o(n) {}
    ~Many() { for (std::size_t i = o.size(); i--;) o[i].reset(); }
    bool add(int i) override
    {
        if (o[i]) return false;
        try { o[i] = std::make_unique<Mod>(*p, this, i); return true; }
        catch (std::exception const&) { return false; }
    }
    bool rem(int i) override { bool r = !!o[i]; o[i].reset(); return r; }
    void tell(int d) override { told = d; p->send(Message{d}); }
};
#endif
#ifdef MANY_l
#include <xitren/cache/lru.hpp>
struct Cache : Kind {
    xitren::cache::lru<int, int, CAP> c{std::chrono::hours{1000}};
    explicit Cache(int) {}
    void put(int i, int v) override { c.put(i, v); }
    int get(int i, int v) override { auto x = c.get(i); return !x ? 0 : *x == v ? 1 : -1; }
};
#endif

static std::unique_ptr<Kind> make(std::string const& k, int n)
{
#ifdef MANY_os
    if (k == "os") return std::make_unique<Pub<xc::observable<int, true, CAP>>>(n);
#endif
#ifdef MANY_od
    if (k == "od") return std::make_unique<Pub<xc::observable<int, false, 0>>>(n);
#endif
#ifdef MANY_vs
    if (k == "vs") return std::make_unique<Val<xc::values::observable<int, CAP>>>(n);
#endif
#ifdef MANY_vd
    if (k == "vd") return std::make_unique<Val<xc::values::observable<int, 0>>>(n);
#endif
#ifdef MANY_m
    if (k == "m") return std::make_unique<Many>(n);
#endif
#ifdef MANY_l
    if (k == "l") return std::make_unique<Cache>(n);
#endif
    abort();
}

int main()
{
    cpu_limit = 400, wall_limit = 500;
    return main_loop([](Lines const& ls) {
        auto h = words(ls[0]);
        auto k = make(h[1], std::stoi(h[2]));
        int round = 0;
        std::map<int, int> stored;
        Ev("init").str("kind", h[1] == "l" ? "lru" : "reg").num("cap", h[1][1] == 'd' ? 0 : (int)CAP).put();
        for (std::size_t at = 1; at < ls.size(); at++) {
            auto w = words(ls[at]);
            int x = w.size() > 1 ? std::stoi(w[1]) : 0, y = w.size() > 2 ? std::stoi(w[2]) : 0, s = w.size() > 3 ? std::stoi(w[3]) : 1;
            std::vector<int> ok;
            got.clear();
            wrong = 0;
            round++;
            switch (w[0][0]) {
            case 'a': for (int i = x; i <= y; i++) if (k->add(i)) ok.push_back(i); Ev("add").num("a", x).num("b", y).arr("ok", ok).put(); break;
            case 'r': for (int i = x; i <= y; i += s) if (k->rem(i)) ok.push_back(i); Ev("rem").num("a", x).num("b", y).num("step", s).arr("ok", ok).put(); break;
            case 'n': k->tell(round); Ev("notify").arr("got", got).num("wrong", wrong).put(); break;
            case 'c': k->clear(); Ev("clear").arr("got", got).num("wrong", wrong).put(); break;
            case 'p': for (int i = x; i <= y; i++) k->put(i, stored[i] = i + 7 * round); Ev("put").num("a", x).num("b", y).put(); break;
            case 'g':
                for (int i = x; i <= y; i += s) {
                    int g = k->get(i, stored[i]);
                    if (g == 1) ok.push_back(i);
                    wrong += g == -1;
                }
                Ev("get").num("a", x).num("b", y).num("step", s).arr("ok", ok).num("wrong", wrong).put();
                break;
            }
        }
    });
}
