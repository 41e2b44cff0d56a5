// Threads sharing one object, under the deterministic scheduler.
//   S pub <dfs runs> <bound> <random> <pct> <seed>
//   S val <kind> <n subscribers> <dfs runs> <bound> <random> <pct> <seed>      kind: i static int, d dynamic int, b static byte, l dynamic long long
//   S lru <capacity> <exceptions> <expiry ms or -1> <dfs runs> <bound> <random> <pct> <seed>
// every further line is one thread's calls; the first is what the main thread does beforehand:
//   pub  a3 r3 n7 c (add, remove, notify, clear)      val  +3 -2 ++ -- p+ p- =7 g
//   lru  p1:5 g1      any  s4 (sleep ms)
#include "vsched.hpp"
#include "vsan.hpp"
#include "vsched_on.hpp"
#ifdef FAM_PUB
#include <xitren/comm/observer.hpp>
#endif
#ifdef FAM_VAL
#include <xitren/comm/values/observable.hpp>
#endif
#if defined(FAM_LRU) && !defined(NO_LRU)
#include <xitren/cache/lru.hpp>
#endif
using namespace vh;

struct Any {
    virtual ~Any() = default;
    virtual void op(int t, std::string const& s) = 0;
};
static void sleeping(std::string const& s) { std::this_thread::sleep_for(std::chrono::milliseconds(std::stoi(s.substr(1)))); }

#ifdef FAM_PUB
namespace xc = xitren::comm;
using Dyn = xc::observable_dynamic<int>;
static int cur_thread_of(int) { return vs::self(); }
struct Pub : Any {
    struct Obs : xc::observer<int> {
        Pub* p{}; int id{};
        void data(void const* src, int const& n) override { p->del(src, id, n); }
        void disconnect(void const* src) override { p->del(src, id, 0); }
    };
    std::array<Obs, 6> obs;
    Dyn d;
    bool over{};
    ~Pub() override { over = true; }
    std::array<int, 16> who{};    // fiber -> thread number of the scenario
    Pub() { for (int i = 0; i < 6; i++) { obs[i].p = this; obs[i].id = i; } }
    void del(void const* src, int o, int n)
    {
        vs::Out out;
        if (over) return;
        Ev("del").num("t", who[vs::self()]).num("o", o).num("a", n).num("src", src == static_cast<void const*>(&d)).put();
        vs::point();
    }
    void op(int t, std::string const& s) override
    {
        who[vs::self()] = t;
        int a = s.size() > 1 ? std::stoi(s.substr(1)) : 0;
        Ev("call").num("t", t).str("f", s[0] == 'a' ? "add" : s[0] == 'r' ? "rem" : s[0] == 'n' ? "not" : "clr").num("a", a).put();
        vs::point();
        char const* r = "ok";
        try {
            vs::In in;
            switch (s[0]) {
            case 'a': d.add_observer(obs[a]); break;
            case 'r': d.remove_observer(obs[a]); break;
            case 'n': d.notify_observers(a); break;
            default: d.clear_observers();
            }
        } catch (Dyn::exception& e) {
            r = e.error == xc::observer_errors::already_contains ? "dup" : e.error == xc::observer_errors::not_found ? "missing" : "other";
        } catch (std::exception&) { r = "exception"; }
        vs::point();
        Ev("ret").num("t", t).str("r", r).put();
    }
};
#endif
#ifdef FAM_VAL
namespace xv = xitren::comm::values;
template <class T, class O> struct Val : Any {
    std::vector<std::unique_ptr<xv::observed<T>>> subs;
    O v{};
    std::array<int, 16> who{};
    Val(int n)
    {
        for (int i = 1; i <= n; i++) {
            subs.push_back(std::make_unique<xv::observed<T>>([this, i](T const x) {
                vs::Out out;
                Ev("del").num("t", who[vs::self()]).num("o", i).num("a", (long long)x).put();
                vs::point();
            }));
            v.add_observer(*subs.back());
        }
    }
    void op(int t, std::string const& s) override
    {
        who[vs::self()] = t;
        char const* f = s == "++" ? "inc" : s == "--" ? "dec" : s == "p+" ? "pinc" : s == "p-" ? "pdec" : s[0] == '+' ? "add" : s[0] == '-' ? "sub" : s[0] == '=' ? "set" : "get";
        std::string_view fv = f;
        T a = fv == "add" || fv == "sub" || fv == "set" ? (T)std::stoi(s.substr(1)) : T{};
        Ev("call").num("t", t).str("f", f).num("a", (long long)a).put();
        vs::point();
        T r{};
        {
        vs::In in;
        if (fv == "inc") r = ++v;
        else if (fv == "dec") r = --v;
        else if (fv == "pinc") r = v++;
        else if (fv == "pdec") r = v--;
        else if (fv == "add") r = v += a;
        else if (fv == "sub") r = v -= a;
        else if (fv == "set") r = v = a;
        else r = v.value();
        }
        vs::point();
        Ev("ret").num("t", t).num("r", (long long)r).put();
    }
    ~Val() override { v.clear_observers(); }
};
#endif
#ifdef FAM_LRU
#ifdef NO_LRU
struct Cache : Any {
    Cache(int, int, int) {}
    void op(int, std::string const&) override { Ev("unusable").put(); }
};
#else
struct Base { virtual ~Base() = default; virtual void put(int, int) = 0; virtual std::optional<int> get(int) = 0; };
template <int N, bool X> struct Impl : Base {
    xitren::cache::lru<int, int, N, X> c;
    Impl(long long ms) : c{ms < 0 ? std::chrono::hours(100000) : std::chrono::milliseconds(ms)} {}
    void put(int k, int v) override { c.put(k, v); }
    std::optional<int> get(int k) override { return c.get(k); }
};
struct Cache : Any {
    std::unique_ptr<Base> c;
    Cache(int cap, int exc, int ms)
    {
#define MK(N) if (cap == N) { if (exc) c = std::make_unique<Impl<N, true>>(ms); else c = std::make_unique<Impl<N, false>>(ms); }
        MK(1) MK(2) MK(3) MK(4)
    }
    void op(int t, std::string const& s) override
    {
        int k = std::stoi(s.substr(1)), v = 0;
        if (s[0] == 'p') v = std::stoi(s.substr(s.find(':') + 1));
        Ev("call").num("t", t).str("f", s[0] == 'p' ? "put" : "get").num("a", k).num("v", v).put();
        vs::point();
        std::string r = "ok";
        if (s[0] == 'p') { vs::In in; c->put(k, v); }
        else
            try {
                vs::In in;
                auto x = c->get(k);
                r = x ? "val" : "absent";
                v = x ? *x : 0;
            } catch (xitren::cache::cache_timeout&) { r = "timeout"; }
            catch (std::exception&) { r = "exception"; }
        vs::point();
        Ev("ret").num("t", t).str("r", r).num("v", v).put();
    }
};
#endif
#endif

int main()
{
    vs::init();
    cpu_limit = 100;
    wall_limit = 400;
    vs::log_limit = 100'000;
    return main_loop([](Lines const& ls) {
        auto h = words(ls[0]);
        long long t0 = 0, last = 0;
        vs::clock_hook = [&] {
            auto now = (vclock::mono - t0) / 1'000'000;
            if (now != last && h[1] == "lru") Ev("time").num("now", last = now).put();
        };
        auto body = [&](std::unique_ptr<Any> o) {
            auto go = [&](int t, std::vector<std::string> const& w) {
                for (auto const& s : w) if (s[0] == 's') sleeping(s); else o->op(t, s);
            };
            if (ls.size() > 1) go(0, words(ls[1]));
            {
                std::vector<std::thread> th;
                for (std::size_t i = 2; i < ls.size(); i++) th.emplace_back([&go, &ls, i] { go((int)i - 1, words(ls[i])); });
                for (auto& t : th) t.join();
            }
            // what is left is seen by the main thread
            if (h[1] == "pub") go(0, {"n99"});
            if (h[1] == "val") go(0, {"g"});
            if (h[1] == "lru") go(0, {"g1", "g2", "g3"});
        };
        std::size_t at = h[1] == "pub" ? 2 : h[1] == "val" ? 4 : 5;
        vs::explore(
            [&] {
                auto e = Ev("init");
                if (h[1] == "val") e.num("n", std::stoi(h[3])).num("mod", h[2] == "b" ? 256 : 0);
                if (h[1] == "lru") e.num("cap", std::stoi(h[2])).boolean("exc", h[3] == "1").num("exp", std::stoi(h[4]));
                e.put();
            },
            [&] {
                t0 = vclock::mono;
                last = 0;
#ifdef FAM_PUB
                body(std::make_unique<Pub>());
#endif
#ifdef FAM_VAL
                int n = std::stoi(h[3]);
                if (h[2] == "i") body(std::make_unique<Val<int, xv::observable<int, 4>>>(n));
                if (h[2] == "d") body(std::make_unique<Val<int, xv::observable_dynamic<int>>>(n));
                if (h[2] == "b") body(std::make_unique<Val<unsigned char, xv::observable<unsigned char, 4>>>(n));
                if (h[2] == "l") body(std::make_unique<Val<long long, xv::observable_dynamic<long long>>>(n));
#endif
#ifdef FAM_LRU
                body(std::make_unique<Cache>(std::stoi(h[2]), std::stoi(h[3]), std::stoi(h[4])));
#endif
            },
            vs::plan(h, at));
    });
}
