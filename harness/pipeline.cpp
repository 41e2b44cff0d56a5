// Pipeline stage and worker pool under the deterministic scheduler.
//   S <stage|pool> <buffer> <workers> <free|directed> <dfs runs> <bound> <random runs> <pct runs> <seed> <call style>
// free:      each line "p t v v v" is one producer (t >= 1) or the main thread (t = 0) pushing in
//            order; then "d" ends: everything is joined and the object destroyed
//            ("s ms" lines let the main thread sleep before it goes on)
// directed:  main thread commands, the system settles after each:  p t v  producer t pushes
//            v = 7000..7999: copying the item throws while it is pushed
//            o w  let the call of worker w finish    t ms  time passes    q  query figures    d  destroy
// pair:      directed, with a second object of the same type beside it: P O Q act on that one (events carry st)
// chain:     two of them; the function of the first pushes into the second (events carry st)
// call style 4: the function pushes into its own stage or pool (three generations)
// bulk:      "p t lo hi" pushes lo..hi; the log only has, per producer, the runs of successive numbers its items were
//            handled in, and which numbers were handled how often
#include "vsched.hpp"
#include "vsan.hpp"
using Fifo = std::deque<int>;
#include "vsched_on.hpp"
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>
using namespace vh;
namespace xc = xitren::comm;

struct Log {
    struct Null { template <class T> Null& operator<<(T const&) { return *this; } };
    static Null& n() { static Null x; return x; }
    static Null& trace() { return n(); }
    static Null& debug() { return n(); }
    static Null& warning() { return n(); }
    static Null& error() { return n(); }
    static Null& critical() { return n(); }
};

static int item_points = 1;
static std::array<bool, VS_THREADS> in_push;     // threads inside push
struct no_copy {};
struct Item {
    int a, b;
    unsigned magic{0x600dcafe};
    explicit Item(int v) : a{v}, b{~v} { }
    void may_fail() const { if (a >= 7000 && a < 8000 && vs::self() >= 0 && in_push[vs::self()]) throw no_copy{}; }
    Item(Item const& o) { o.use(); o.may_fail(); a = o.a; if (item_points) vs::point(); b = o.b; }
    Item(Item&& o) { o.use(); a = o.a; if (item_points) vs::point(); b = o.b; o.a = -5; }
    Item& operator=(Item const& o) { o.use(); o.may_fail(); use(); a = o.a; if (item_points) vs::point(); b = o.b; return *this; }
    Item& operator=(Item&& o) { o.use(); use(); a = o.a; if (item_points) vs::point(); b = o.b; o.a = -5; return *this; }
    ~Item() { use(); magic = 0xdead; }
    void use() const
    {
        if (magic != 0x600dcafe) { Ev("dead").put(); vs::stuck("use of a destroyed item"); }
    }
    int value() const { use(); return a == ~b ? a : -1; }
    friend bool operator==(Item const& x, Item const& y) { x.use(), y.use(); return x.a == y.a; }
};

struct World;
static World* W;
static long long t0;
static long long us() { return (vclock::mono - t0) / 1000; }

struct Any {    // a stage or a pool
    virtual ~Any() = default;
    virtual void push(int v, bool rv) = 0;
    virtual bool figures(int&, int&) { return false; }
};

static void do_push(World& w, Any* to, int st, int t, int v);
struct World {
    std::unique_ptr<Any> obj, next;
    bool chain{};
    int handled{};
    bool pair{};
    Ev event(char const* e, int st) { Ev x(e); if (chain || pair) x.num("st", st); return x; }
    Any* raw{};
    std::array<std::array<int, VS_THREADS>, 2> gate{};       // directed: permits per worker
    bool directed{};
    int style{};
    int running{}, workers{};
    bool bulk{};
    struct Range { int lo, hi; std::vector<std::pair<int, int>> runs; };
    std::vector<Range> ranges;
    std::vector<int> times;
    bool inside(Any* me, int w, Item const& it, int ms, int load)
    {
        vs::Out out;
        int const v = it.value();
        if (bulk) {
            if (v >= 0 && v < (int)times.size()) times[v]++;
            for (auto& [lo, hi, r] : ranges)
                if (lo <= v && v <= hi) {
                    if (!r.empty() && r.back().second + 1 == v) r.back().second = v;
                    else if (r.size() < 100) r.emplace_back(v, v);
                }
            return true;
        }
        int const st = (chain || pair) && me == next.get();
        event("cbeg", st).num("w", w).num("v", v).num("mt", ms).num("ml", load).num("s", us() / 1000000).num("t", us() % 1000000).put();
        if (directed) {
            if (style == 2) {    // the object's own queries, from inside the function
                int a{}, b{};
                if (raw && me->figures(a, b)) event("qin", st).num("mt", a).num("ml", b).put();
            }
            auto& open = gate[st];
            while (open[w] == 0) vs::block(&open[w]);
            open[w]--;
        } else if (style == 1) std::this_thread::sleep_for(std::chrono::milliseconds(1 + (it.value() % 7) * 3));
        else if (style == 3) {    // all workers must get here at the same time
            running++;
            vs::wake_all(this);
            while (running < workers) vs::block(this);
        } else if (chain && !st) do_push(*this, next.get(), 1, 100 + w, v);
        else if (style == 4 && v < 3000) do_push(*this, me, 0, 100 + w, v + 1000);
        else vs::point();
        handled++;
        vs::wake_all(&handled);
        event("cend", st).num("w", w).num("v", v).num("s", us() / 1000000).num("t", us() % 1000000).put();
        return true;
    }
};

template <std::size_t N> struct Stage : Any {
    xc::pipeline_stage<Item, void, N, Log> s;
    Stage() : s{[this](xc::pipeline_stage_exception, Item const it, std::pair<int, int> const m) { W->inside(this, 0, it, m.first, m.second); }} {}
    void push(int v, bool rv) override
    {
        if (rv) s.push(Item{v});
        else { Item i{v}; s.push(i); }
    }
    bool figures(int& a, int& b) override { vs::In in; a = s.time_for_unit(); b = s.buffer_utilization(); return true; }
};
template <std::size_t N, std::size_t K> struct Pool : Any {
    xc::pipeline_stage_pool<Item, int, N, K, Log> s;
    Pool() : s{[this](xc::pipeline_stage_exception, Item const it, xc::measure_data const m) -> int const { W->inside(this, m.id >= 0 && m.id < (int)K ? m.id : (int)K, it, m.time, m.load); return it.a; }} {}
    void push(int v, bool rv) override
    {
        if (rv) s.push(Item{v});
        else { Item i{v}; s.push(i); }
    }
};

static std::unique_ptr<Any> make(std::string const& kind, int n, int k)
{
    vs::In in;
#define ST(N) if (kind == "stage" && n == N) return std::make_unique<Stage<N>>();
#define PO(N, K) if (kind == "pool" && n == N && k == K) return std::make_unique<Pool<N, K>>();
#ifdef WIDE    // more workers than a narrow number can tell apart
    PO(1, 140) PO(2, 300)
#else
    ST(1) ST(2) ST(3) ST(4) ST(16) ST(300)
    PO(1, 1) PO(2, 1) PO(1, 2) PO(2, 2) PO(1, 3) PO(2, 3) PO(4, 2) PO(8, 3) PO(4, 4) PO(2, 8) PO(1, 9) PO(16, 9) PO(16, 1) PO(16, 5) PO(3, 2) PO(300, 2)
#endif
    return nullptr;
}

static bool needs_rv(int v) { return v % 2 == 0; }
static void do_push(World& w, Any* to, int st, int t, int v)
{
    w.event("pbeg", st).num("p", t).num("v", v).put();
    bool failed = false;
    auto& mark = in_push[vs::self()];
    mark = true;
    try {
        vs::In in;
        to->push(v, needs_rv(v));
    } catch (no_copy) { failed = true; }
    mark = false;
    w.event(failed ? "pthrow" : "pend", st).num("p", t).put();
}
static void do_push(World& w, int t, int v) { do_push(w, w.raw, 0, t, v); }

static void destroy(World& w)
{
    w.event("dbeg", 0).put();
    { vs::In in; w.obj.reset(); }
    w.raw = nullptr;
    w.event("dend", 0).put();
    if (w.next) {
        w.event("dbeg", 1).put();
        auto* last = w.next.get();
        { vs::In in; delete last; }    // next still tells the stages apart
        w.event("dend", 1).put();
        (void)w.next.release();
    }
    // whatever is still running would show now
    for (int i = 0; i < 4; i++) std::this_thread::sleep_for(std::chrono::milliseconds(20));
}

static void free_run(Lines const& ls, Lines const& h, World& w)
{
    if (w.chain) w.next = make(h[1], std::stoi(h[2]), std::stoi(h[3]));
    w.obj = make(h[1], std::stoi(h[2]), std::stoi(h[3]));
    w.raw = w.obj.get();
    std::vector<std::thread> th;
    int items = 0;
    for (std::size_t i = 1; i < ls.size(); i++) {
        auto c = words(ls[i]);
        if (c[0] == "p") items += (int)c.size() - 2;
        if (c[0] == "p" && c[1] != "0") {
            th.emplace_back([&w, c] { for (std::size_t k = 2; k < c.size(); k++) do_push(w, std::stoi(c[1]), std::stoi(c[k])); });
        } else if (c[0] == "p") {
            for (std::size_t k = 2; k < c.size(); k++) do_push(w, 0, std::stoi(c[k]));
        } else if (c[0] == "s") std::this_thread::sleep_for(std::chrono::milliseconds(std::stoi(c[1])));
        else if (c[0] == "q") { int a, b; if (w.raw->figures(a, b)) Ev("qany").put(); }
    }
    for (auto& t : th) t.join();
    if (w.style == 4) while (w.handled < 4 * items) vs::block(&w.handled);
    destroy(w);
}

static void bulk_run(Lines const& ls, Lines const& h, World& w)
{
    int top = 0;
    for (std::size_t i = 1; i < ls.size(); i++) {
        auto c = words(ls[i]);
        w.ranges.push_back({std::stoi(c[2]), std::stoi(c[3]), {}});
        top = w.ranges.back().hi + 1;
    }
    w.times.resize(top + 1);
    Ev("many").put();
    w.obj = make(h[1], std::stoi(h[2]), std::stoi(h[3]));
    w.raw = w.obj.get();
    std::vector<std::thread> th;
    for (std::size_t i = 1; i < ls.size(); i++) {
        auto push = [&w, lo = w.ranges[i - 1].lo, hi = w.ranges[i - 1].hi] {
            vs::In in;
            for (int v = lo; v <= hi; v++) w.raw->push(v, needs_rv(v));
        };
        if (words(ls[i])[1] == "0") push();
        else th.emplace_back(push);
    }
    for (auto& t : th) t.join();
    { vs::In in; w.obj.reset(); }
    w.raw = nullptr;
    auto list = [](auto const& v, auto f) {
        std::string s{"["};
        for (auto& x : v) s += (s.size() > 1 ? "," : "") + f(x);
        return s + "]";
    };
    auto num = [](int x) { return std::to_string(x); };
    std::vector<std::array<int, 3>> cover;
    for (int v = 0; v <= top; v++) {
        if (!w.times[v]) continue;
        if (!cover.empty() && cover.back()[1] + 1 == v && cover.back()[2] == w.times[v]) cover.back()[1] = v;
        else if (cover.size() < 200) cover.push_back({v, v, w.times[v]});
    }
    auto pair = [&](auto& x) { return "[" + num(x.first) + "," + num(x.second) + "]"; };
    Ev("bulk").raw("pushed", list(w.ranges, [&](auto& r) { return "[" + num(r.lo) + "," + num(r.hi) + "]"; }))
        .raw("order", list(w.ranges, [&](auto& r) { return list(r.runs, pair); }))
        .raw("cover", list(cover, [&](auto& c) { return list(c, num); })).put();
}

static void settle() { std::this_thread::sleep_for(std::chrono::milliseconds(1)); }

static void directed_run(Lines const& ls, Lines const& h, World& w)
{
    w.obj = make(h[1], std::stoi(h[2]), std::stoi(h[3]));
    w.raw = w.obj.get();
    if (w.pair) w.next = make(h[1], std::stoi(h[2]), std::stoi(h[3]));
    struct Prod { Fifo todo; bool stop{}; };
    std::array<Prod, 4> pr;
    std::vector<std::thread> th;
    for (int t = 0; t < (w.pair ? 4 : 3); t++)
        th.emplace_back([&w, &pr, t] {
            auto& p = pr[t];
            for (;;) {
                while (p.todo.empty() && !p.stop) vs::block(&p);
                if (p.todo.empty()) return;
                int v = p.todo.front();
                p.todo.pop_front();
                do_push(w, t == 3 ? w.next.get() : w.raw, t == 3, t, v);
            }
        });
    settle();
    bool gone = false;
    for (std::size_t i = 1; i < ls.size() && !gone; i++) {
        auto c = words(ls[i]);
        long long a = c.size() > 1 ? std::stoll(c[1]) : 0;
        if (c[0] == "p") { pr[a].todo.push_back(std::stoi(c[2])); vs::wake_all(&pr[a]); }
        else if (c[0] == "P") { pr[3].todo.push_back((int)a); vs::wake_all(&pr[3]); }
        else if (c[0] == "o" || c[0] == "O") { auto& o = w.gate[c[0] == "O"][a]; o++; vs::wake_all(&o); }
        else if (c[0] == "t") std::this_thread::sleep_for(std::chrono::microseconds(a));
        else if (c[0] == "q") { int x, y; if (w.raw->figures(x, y)) w.event("q", 0).num("mt", x).num("ml", y).put(); continue; }
        else if (c[0] == "Q") { int x, y; if (w.next->figures(x, y)) w.event("q", 1).num("mt", x).num("ml", y).put(); continue; }
        else if (c[0] == "j") vclock::wall_offset += a * 1'000'000'000LL;
        settle();
    }
    // open all gates from now on and finish
    for (auto& g : w.gate)
        for (auto& o : g) { o = 1 << 20; vs::wake_all(&o); }
    for (auto& p : pr) { p.stop = true; vs::wake_all(&p); }
    for (auto& t : th) t.join();
    destroy(w);
}

int main()
{
    vs::init();
    cpu_limit = 100;
    wall_limit = 400;
    return main_loop([](Lines const& ls) {
        auto h = words(ls[0]);
        auto plan = vs::plan(h, 5);
        bool strict = plan.dfs_budget == 0 && plan.random_runs == 0 && plan.pct_runs == 0;
        item_points = h[4] == "free" || h[4] == "chain";
        vs::S.soft = item_points ? 20000 : 1000000;
        vs::S.hard = item_points ? 60000 : 2000000;
#ifdef WIDE
        vs::S.soft = 10000000, vs::S.hard = 30000000;
#endif
        if (h[4] == "bulk") vs::S.soft = 40000000, vs::S.hard = 60000000;
        vs::explore(
            [&] { Ev("init").str("kind", h[1]).num("n", std::stoi(h[2])).num("k", std::stoi(h[3])).boolean("strict", strict).put(); },
            [&] {
                World w;
                in_push = {};
                W = &w;
                t0 = vclock::mono;
                w.pair = h[4] == "pair";
                w.directed = h[4] == "directed" || w.pair;
                w.style = std::stoi(h[10]);
                w.workers = std::stoi(h[3]);
                w.bulk = h[4] == "bulk";
                w.chain = h[4] == "chain";
                w.directed ? directed_run(ls, h, w) : w.bulk ? bulk_run(ls, h, w) : free_run(ls, h, w);
            },
            plan);
    });
}
