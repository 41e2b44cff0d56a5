// interval_event under the deterministic scheduler.
//   S <period ms, -1: defaults> <check ms> <dfs runs> <bound> <random> <pct> <seed> [s]     s: the log is in seconds
//   m cmd..   what the main thread does        t cmd..  a helper thread        f <k|*> cmd..  inside the k-th call
//   n <period ms> <check ms> <0|1>  a second event beside the first, destroyed before / after it (events carry ob)
//   F <k|*> cmd..  inside its k-th call             @cmd: a command for it
//   q k n     n calls from the k-th on are logged together (function empty)
//   d         end: helpers are joined, then the object is destroyed
// commands: s<ms> S<us> sleep   x stop   p<ms> c<ms> set   P C query   j<s> the wall clock jumps
#include "vsched.hpp"
#include "vsan.hpp"
#include "vsched_on.hpp"
#include <xitren/func/interval_event.hpp>
using namespace vh;
using xitren::func::interval_event;

static long long t0;
static long long unit{1};    // of the logged times, in us
static long long us() { return (vclock::mono - t0) / 1000; }
// an interval of so many ms as it is logged: ms, or seconds
static long long logged(long long ms) { return unit == 1 ? ms : ms % 1000 ? -1 : ms / 1000; }
struct World;
static std::array<World*, 2> W;
static bool both;
static std::array<bool, 16> mine;    // threads of the scenario
struct Tag { int was{vs::S.cur->tag}; explicit Tag(int t) { vs::S.cur->tag = t; } ~Tag() { vs::S.cur->tag = was; } };

struct World {
    int ob;
    explicit World(int n) : ob{n} { W[n] = this; }
    ~World() { W[ob] = nullptr; }
    interval_event* raw{};
    std::atomic<bool> built{};      // another event's thread uses it from then on
    bool in_call{};                 // the event's thread is inside the function
    int calls{};
    int waits{};                    // waits begun by it
    long long until{};              // the end of its last wait
    bool woken_early{};
    int qfrom{}, qn{};              // calls logged together
    long long qmin{}, qmax{}, qfirst{}, qlast{};
    bool quiet() const { return qn && calls >= qfrom && calls < qfrom + qn; }
    long qp{};
    std::map<int, Lines> in;        // commands inside the k-th call, 0: every call
    Ev event(char const* e) { Ev x(e); if (both) x.num("ob", ob); return x; }
    // the world whose event's thread this is, outside of the function
    static World* foreign()
    {
        int s = vs::self();
        if (s < 0 || mine[s] || vs::S.cur->tag == 0) return nullptr;
        auto* w = W[vs::S.cur->tag - 1];
        return w && !w->in_call ? w : nullptr;
    }
    void construct(long p, long c)
    {
        // raw is set first: the function may be called before the constructor has returned
        vs::In in;
        Tag tag(ob + 1);
        auto* mem = static_cast<interval_event*>(::operator new(sizeof(interval_event), std::align_val_t(alignof(interval_event))));
        raw = mem;
        auto fn = [this] { call(); };
        if (p < 0) new (mem) interval_event(fn);
        else new (mem) interval_event(fn, std::chrono::milliseconds(p), std::chrono::milliseconds(c));
        built = true;
    }
    void destroy()
    {
        event("dbeg").num("t", us() / unit).put();
        auto* mem = raw;
        {
            vs::In in;
            Tag tag(ob + 1);
            mem->~interval_event();
            memset((void*)mem, 0x6b, sizeof(interval_event));
        }
        raw = nullptr;
        event("dend").num("t", us() / unit).put();
        spare.emplace_back(mem);
    }
    struct Free { void operator()(void* p) const { ::operator delete(p, std::align_val_t(alignof(interval_event))); } };
    std::vector<std::unique_ptr<void, Free>> spare;

    void run(std::string const& th, Lines const& cmds)
    {
        Tag tag(ob + 1);
        for (auto const& c : cmds) {
            if (c[0] == '@') {
                if (auto* o = W[1 - ob]; o && o->built && o->raw) o->run(th == "f" ? "g" : th, {c.substr(1)});
                continue;
            }
            if (!raw) continue;
            long v = c.size() > 1 ? std::stol(c.substr(1)) : 0;
            switch (c[0]) {
            case 's': std::this_thread::sleep_for(std::chrono::milliseconds(v)); break;
            case 'S': std::this_thread::sleep_for(std::chrono::microseconds(v)); break;
            case 'j': vclock::wall_offset += v * 1'000'000'000LL; break;
            case 'x':
                event("sbeg").str("th", th).num("t", us() / unit).put();
                { vs::In in; raw->stop(); }
                event("send").str("th", th).num("t", us() / unit).put();
                break;
            case 'p':
            case 'c':
                event("set").str("th", th).str("k", c.substr(0, 1)).num("v", logged(v)).put();
                { vs::In in; if (c[0] == 'p') raw->period(std::chrono::milliseconds(v)); else raw->period_between_checks(std::chrono::milliseconds(v)); }
                event("sete").str("th", th).put();
                break;
            case 'P':
            case 'C': {
                std::string k = c[0] == 'P' ? "p" : "c";
                event("qry").str("th", th).str("k", k).put();
                long long r;
                { vs::In in; r = std::chrono::duration_cast<std::chrono::milliseconds>(c[0] == 'P' ? raw->period() : raw->period_between_checks()).count(); }
                event("qrye").str("th", th).num("v", (int)std::clamp<long long>(logged(r), -1, 1 << 30)).put();
                break;
            }
            }
        }
    }
    void call()
    {
        vs::Out out;
        in_call = true;
        calls++;
        woken_early = false;
        if (quiet()) {
            long long const d = us() - (calls - qfrom) * qp * 1000;
            qlast = d;
            if (calls == qfrom) qfirst = d;
            qmin = calls == qfrom ? d : std::min(qmin, d), qmax = calls == qfrom ? d : std::max(qmax, d);
            vs::point();
            if (calls == qfrom + qn - 1) {
                event("many").num("n", qn).num("min", qmin).num("max", qmax).num("first", qfirst).num("last", qlast).num("t", us()).put();
                qn = 0;
            }
            in_call = false;
            return;
        }
        event("cbeg").num("t", us() / unit).put();
        vs::point();
        if (raw && calls < 400) {
            if (in.contains(0)) run("f", in[0]);
            if (in.contains(calls)) run("f", in[calls]);
        }
        event("cend").num("t", us() / unit).put();
        in_call = false;
    }
};

int main()
{
    vs::init();
    cpu_limit = 100;
    wall_limit = 400;
    vs::log_limit = 8 << 20;
    return main_loop([](Lines const& ls) {
        auto h = words(ls[0]);
        auto plan = vs::plan(h, 3);
        long const p = std::stol(h[1]), c = std::stol(h[2]);
        unit = h.size() > 8 && h[8] == "s" ? 1'000'000 : 1;
        bool strict = plan.dfs_budget == 0 && plan.random_runs == 0 && plan.pct_runs == 0;
        vclock::on_read = [] {
            if (!vs::on() || !vs::S.cur->watch) return;
            vs::Out out;
            vs::point();
            vclock::mono += 1000;
        };
        vs::sleep_hook = [](long long ns) {
            auto* w = World::foreign();
            if (!w || w->quiet()) return;
            long long const until = us() + ns / 1000;
            // woken early, it goes on waiting for the same moment
            bool const again = w->woken_early && until >= w->until - 20 && until <= w->until + 20;
            if (again) w->event("wmore").boolean("first", w->waits == 1).put();
            else {
                w->waits++;
                w->until = until;
                w->event("wbeg").num("t", us() / unit).num("d", (ns / 1000 + unit / 2) / unit).put();
            }
            w->woken_early = false;
        };
        vs::woke_hook = [] {
            auto* w = World::foreign();
            if (!w || w->quiet()) return;
            w->woken_early = us() < w->until;
            w->event("wend").num("t", us() / unit).put();
        };
        vs::S.hard = 60000;
        for (auto const& l : ls) if (l[0] == 'q') vs::S.hard += 60 * std::stol(words(l)[2]);
        Lines other;
        for (auto const& l : ls) if (l[0] == 'n') other = words(l);
        both = !other.empty();
        long const op = both ? std::stol(other[1]) : 0, oc = both ? std::stol(other[2]) : 0;
        bool const late = both && other[3] == "1";
        vs::explore(
            [&] {
                auto init = [&](int k, long p, long c) {
                    Ev e("init");
                    e.num("p", logged(p < 0 ? 100 : p)).num("c", logged(p < 0 ? 20 : c)).boolean("strict", strict).num("k", unit == 1 ? 1000 : 1);
                    if (both) e.num("ob", k);
                    e.put();
                };
                init(0, p, c);
                if (both) init(1, op, oc);
            },
            [&] {
                World w{0}, o{1};
                t0 = vclock::mono;
                mine = {};
                mine[vs::self()] = true;
                Lines const* m = nullptr;
                std::vector<Lines> body(ls.size());
                for (std::size_t i = 1; i < ls.size(); i++) {
                    auto x = words(ls[i]);
                    bool const f = x[0] == "f" || x[0] == "F";
                    body[i].assign(x.begin() + (f ? 2 : 1), x.end());
                    if (f) (x[0] == "f" ? w : o).in[x[1] == "*" ? 0 : std::stoi(x[1])] = body[i];
                    if (x[0] == "m") m = &body[i];
                    if (x[0] == "q") w.qfrom = std::stoi(x[1]), w.qn = std::stoi(x[2]), w.qp = p;
                }
                w.construct(p, c);
                if (both) o.construct(op, oc);
                std::vector<std::thread> th;
                int k = 0;
                for (std::size_t i = 1; i < ls.size(); i++)
                    if (ls[i][0] == 't') {
                        k++;
                        th.emplace_back([&w, &b = body[i], k] { mine[vs::self()] = true; w.run("t" + std::to_string(k), b); });
                    }
                if (m) w.run("m", *m);
                for (auto& x : th) x.join();
                if (both && !late) o.destroy();
                w.destroy();
                if (both && late) {
                    std::this_thread::sleep_for(std::chrono::milliseconds(3 * oc + 30));
                    o.destroy();
                }
                // whatever is still running would show now
                for (int i = 0; i < 4; i++) std::this_thread::sleep_for(std::chrono::milliseconds(150));
            },
            plan);
    });
}
