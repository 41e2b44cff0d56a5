// Deterministic scheduler.  The threads of a scenario are fibers of one OS thread; every operation
// of the std synchronisation types (replaced by the vf_ types of this file, see vsched_on.hpp) is a
// scheduling point, time is virtual, and happens-before is tracked with vector clocks so that
// unsynchronised accesses to instrumented data are reported even if no schedule shows an effect.
#pragma once
#include "common.hpp"
#include "vclock.hpp"
#include <cxxabi.h>
#include <sys/single_threaded.h>
#include <ucontext.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define VS_ASAN 1
#endif

#ifndef VS_THREADS
#define VS_THREADS 16       // most threads in a session
#endif
namespace vs {
using VC = std::array<std::uint32_t, VS_THREADS>;
inline void join(VC& a, VC const& b)
{
    auto *x = a.data(); auto const* y = b.data();
    for (int i = 0; i < VS_THREADS; i++) if (x[i] < y[i]) x[i] = y[i];
}

enum class St { ready, blocked, done };
constexpr long long never = LLONG_MAX;

struct Fiber {
    bool in_wait{};
    int id{};
    ucontext_t ctx{};
    void* stack{};
    std::function<void()> fn;
    St st{St::ready};
    bool yielded{};
    void const* on{};            // what it is blocked on
    long long wake{never};       // virtual time at which it wakes by itself
    bool timed_out{};
    bool watch{};                // runs code under test: its plain accesses are checked for races
    int tag{};                   // inherited by the threads it starts
    bool cond{};                 // blocked on a condition variable (may wake spuriously)
    VC vc{}, acq{}, relf{};
    int prio{};
    void* eh[2]{};
    void* fake{};
};

struct Choice { int n, idx; std::vector<int> cost; };

enum class Mode { dfs, random, pct };

struct Sched {
    std::vector<std::unique_ptr<Fiber>> f;
    Fiber* cur{};
    ucontext_t home{};
    void* home_eh[2]{};
    void* home_fake{};
    void const* home_bottom{}; std::size_t home_size{};
    bool active{false};
    Mode mode{Mode::dfs};
    // exploration
    std::vector<Choice> path;
    std::size_t depth{};
    int budget{2}, used{};
    std::mt19937_64 rng;
    double p_switch{.2}, p_clock{.02};
    std::vector<long> change;    // PCT change points
    int low{};
    long steps{}, same{}, idle{};
    long soft{20000}, hard{60000};
    std::vector<void*> stacks;
    static constexpr std::size_t stack_size = 256 * 1024;
};
inline Sched S;

// ------------------------------------------------------------------ run buffer (survives a crash)
struct Buf { std::size_t n; char d[(16 << 20) - 16]; };
inline Buf* buf;
inline std::size_t log_limit{1 << 20};    // more than any run that ends well logs
[[noreturn]] inline void stuck(char const* how);
inline void put(std::string const& s)
{
    if (buf->n + s.size() > log_limit) {
        log_limit = sizeof buf->d;
        stuck("flood");
    }
    memcpy(buf->d + buf->n, s.data(), s.size());
    buf->n += s.size();
}
inline void write_all(char const* p, std::size_t n)
{
    while (n) { auto w = ::write(1, p, n); if (w <= 0) _exit(77); p += w; n -= w; }
}
inline void flush() { write_all(buf->d, buf->n); buf->n = 0; }
inline void init()
{
    __libc_single_threaded = 0;    // libstdc++ then counts references atomically, as it would with real threads
    buf = (Buf*)mmap(nullptr, sizeof(Buf), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    vh::sink = [](std::string const& s) { put(s); };
    vh::child_died = [] { flush(); };
}

struct In {     // the code under test runs from here on
    Fiber* f; bool w;
    explicit In(bool on = true) : f{S.cur}, w{f && f->watch} { if (f) f->watch = on; }
    ~In() { if (f) f->watch = w; }
};
struct Out : In { Out() : In{false} {} };    // back in the harness

// ------------------------------------------------------------------ switching
extern "C" inline void vs_entry();
inline void* alloc_stack()
{
    if (!S.stacks.empty()) { auto* p = S.stacks.back(); S.stacks.pop_back(); return p; }
    return mmap(nullptr, Sched::stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
inline void save_eh(void** e) { memcpy(e, abi::__cxa_get_globals(), 16); }
inline void load_eh(void** e) { memcpy(abi::__cxa_get_globals(), e, 16); }
inline void after_switch([[maybe_unused]] void* fake)
{
#ifdef VS_ASAN
    void const* b; std::size_t n;
    __sanitizer_finish_switch_fiber(fake, &b, &n);
    if (!S.home_bottom) { S.home_bottom = b; S.home_size = n; }
#endif
}
inline void switch_fiber(Fiber* from, Fiber* to)
{
    save_eh(from->eh);
    S.cur = to;
#ifdef VS_ASAN
    __sanitizer_start_switch_fiber(from->st == St::done ? nullptr : &from->fake, to->stack, Sched::stack_size);
#endif
    swapcontext(&from->ctx, &to->ctx);
    after_switch(from->fake);
    load_eh(from->eh);
}
inline void go_home(Fiber* from)
{
    S.cur = nullptr;
#ifdef VS_ASAN
    __sanitizer_start_switch_fiber(nullptr, S.home_bottom, S.home_size);
#endif
    setcontext(&S.home);
}

[[noreturn]] inline void stuck(char const* how)
{
    if (S.cur) S.cur->watch = false;
    S.active = false;
    vh::Ev("stuck").str("how", how).put();
    flush();
    vh::finish_session();
}

// ------------------------------------------------------------------ choosing
inline int decide(int n, std::vector<int> const& cost)
{
    // n alternatives, 0 is the default; cost: preemptions each one takes
    if (n <= 1) return 0;
    switch (S.mode) {
    case Mode::dfs: {
        if (S.depth < S.path.size()) {
            auto& c = S.path[S.depth++];
            int i = c.idx < n ? c.idx : 0;
            S.used += cost[i];
            return i;
        }
        Choice c{0, 0, {}};
        // alternatives within the budget come first to last
        c.n = n;
        c.cost = cost;
        if (S.path.size() < 4000) { S.path.push_back(c); S.depth++; }
        return 0;
    }
    default: return 0;
    }
}

inline bool next_path()
{
    // backtrack to the last choice that has an affordable alternative left
    while (!S.path.empty()) {
        int used = 0;
        for (std::size_t i = 0; i + 1 < S.path.size(); i++) used += S.path[i].cost[S.path[i].idx];
        auto& c = S.path.back();
        int i = c.idx + 1;
        while (i < c.n && used + c.cost[i] > S.budget) i++;
        if (i < c.n) { c.idx = i; return true; }
        S.path.pop_back();
    }
    return false;
}

inline Fiber* earliest()
{
    Fiber* e = nullptr;
    for (auto& x : S.f)
        if (x->st == St::blocked && x->wake != never && (!e || x->wake < e->wake)) e = x.get();
    return e;
}
inline std::function<void()> clock_hook;    // the virtual time has moved
inline void advance_to(Fiber* e)
{
    if (e->wake > vclock::mono) {
        vclock::mono = e->wake;
        for (auto& x : S.f) x->yielded = false;    // it may be what they are waiting for
        if (clock_hook) clock_hook();
    }
    for (auto& x : S.f)
        if (x->st == St::blocked && x->wake <= vclock::mono) {
            x->st = St::ready; x->wake = never; x->timed_out = true; x->on = nullptr; x->yielded = false;
        }
}

inline void wrote()    // something another thread may be spinning on has changed
{
    Out out;
    for (auto& x : S.f) if (x.get() != S.cur) x->yielded = false;
    S.idle = 0;
}

// pick the next fiber to run; the current one may be ready, yielded, blocked or done
inline Fiber* pick()
{
    Fiber* cur = S.cur;
    S.steps++;
    if (S.steps > S.hard) stuck("livelock");
    std::vector<Fiber*> el;
    for (;;) {
        el.clear();
        bool any = false;
        if (cur && cur->st == St::ready) { any = true; if (!cur->yielded) el.push_back(cur); }
        for (std::size_t k = 0, n = S.f.size(), c = cur ? cur->id : 0; k < n; k++) {
            auto* x = S.f[(c + k) % n].get();
            if (x != cur && x->st == St::ready) { any = true; if (!x->yielded) el.push_back(x); }
        }
        if (!el.empty()) break;
        Fiber* e = earliest();
        if (e) { advance_to(e); continue; }
        if (!any) {
            bool live = false;
            for (auto& x : S.f) live |= x->st != St::done;
            if (!live) return nullptr;
            stuck("deadlock");
        }
        // everybody spins: let time pass
        if (++S.idle > 400) stuck("livelock");
        vclock::mono += 1'000'000;
        if (clock_hook) clock_hook();
        for (auto& x : S.f) x->yielded = false;
    }
    bool stay = el[0] == cur;
    if (S.steps > S.soft || S.same > 400) {    // fair from here on
        S.same = 0;
        for (auto* x : el) if (x->id > (cur ? cur->id : -1)) return x;
        return el[0];
    }
    Fiber* e = earliest();
    int n = (int)el.size() + (e ? 1 : 0);
    int i = 0;
    switch (S.mode) {
    case Mode::dfs: {
        std::vector<int> cost(n, 1);    // delay bounding: any departure from round robin costs one
        cost[0] = 0;
        i = decide(n, cost);
        break;
    }
    case Mode::random: {
        std::uniform_real_distribution<double> u(0, 1);
        if (e && u(S.rng) < S.p_clock) i = n - 1;
        else if (!stay || u(S.rng) < S.p_switch) i = S.rng() % el.size();
        for (auto& x : S.f)
            if (x->cond && x->st == St::blocked && !(e && i == (int)el.size() && x.get() == e) && u(S.rng) < .01) { x->st = St::ready; x->wake = never; x->on = nullptr; break; }
        break;
    }
    case Mode::pct: {
        for (auto& c : S.change) if (c == S.steps && cur) cur->prio = --S.low;
        for (int k = 1; k < (int)el.size(); k++) if (el[k]->prio > el[i]->prio) i = k;
        if (e && S.rng() % 50 == 0) i = n - 1;
        break;
    }
    }
    Fiber* r;
    if (i == (int)el.size()) { advance_to(e); r = e; } else r = el[i];
    if (r == cur) S.same++; else S.same = 0;
    return r;
}

inline void resched()
{
    Fiber* me = S.cur;
    bool const w = me->watch;
    me->watch = false;
    Fiber* n = pick();
    if (!n) go_home(me);
    if (n != me) switch_fiber(me, n);
    me->watch = w;
}
inline bool on() { return S.active && S.cur; }
inline void point() { if (on()) resched(); }
inline void yield()
{
    if (!on()) return;
    S.cur->yielded = true;
    if (S.mode == Mode::pct) S.cur->prio = --S.low;
    resched();
    S.cur->yielded = false;
}
inline std::function<void(long long)> sleep_hook;    // a timed wait of so many ns begins
inline std::function<void()> woke_hook;              // it has ended
// returns true if woken by the deadline
inline bool block(void const* obj, long long wake = never, bool cond = false)
{
    Fiber* me = S.cur;
    if (wake != never && sleep_hook) { Out out; sleep_hook(wake - vclock::mono); }
    me->st = St::blocked; me->on = obj; me->wake = wake; me->timed_out = false; me->cond = cond;
    resched();
    me->cond = false;
    if (wake != never && woke_hook) { Out out; woke_hook(); }
    return me->timed_out;
}
inline void wake_all(void const* obj)
{
    Out out;
    for (auto& x : S.f)
        if (x->st == St::blocked && x->on == obj) { x->st = St::ready; x->on = nullptr; x->wake = never; x->yielded = false; }
    wrote();
}
inline void wake_one(void const* obj)
{
    Out out;
    std::vector<Fiber*> w;
    for (auto& x : S.f) if (x->st == St::blocked && x->on == obj) w.push_back(x.get());
    if (w.empty()) return;
    auto* x = S.mode == Mode::dfs ? w[0] : w[S.rng() % w.size()];
    x->st = St::ready; x->on = nullptr; x->wake = never; x->yielded = false;
    wrote();
}
inline void sleep_until(long long t)
{
    if (!on()) { vclock::mono = std::max(vclock::mono, t); return; }
    if (t <= vclock::mono) {
        if (sleep_hook) { Out out; sleep_hook(0); }
        yield();
        if (woke_hook) { Out out; woke_hook(); }
        return;
    }
    block(nullptr, t);
}

extern "C" inline void vs_entry()
{
    after_switch(nullptr);
    Fiber* me = S.cur;
    load_eh(me->eh);
    me->fn();
    me->fn = nullptr;
    me->st = St::done;
    wake_all(me);
    resched();
    abort();
}
inline Fiber* spawn(std::function<void()> fn)
{
    auto x = std::make_unique<Fiber>();
    x->id = (int)S.f.size();
    if (VS_THREADS > 100 && x->id >= VS_THREADS) stuck("threads without end");
    if (x->id >= VS_THREADS) { fprintf(stderr, "too many threads\n"); _exit(3); }
    x->fn = std::move(fn);
    x->stack = alloc_stack();
    x->prio = S.mode == Mode::pct ? (int)(S.rng() % 1000) + 1 : 0;
    getcontext(&x->ctx);
    x->ctx.uc_stack.ss_sp = x->stack;
    x->ctx.uc_stack.ss_size = Sched::stack_size;
    x->ctx.uc_link = nullptr;
    makecontext(&x->ctx, (void (*)())vs_entry, 0);
    if (S.cur) { S.cur->vc[S.cur->id]++; x->vc = S.cur->vc; x->tag = S.cur->tag; }
    x->vc[x->id] = 1;
    S.f.push_back(std::move(x));
    return S.f.back().get();
}
inline int self() { return S.cur ? S.cur->id : -1; }

inline bool race_seen;
inline void race(char const* what)
{
    if (race_seen) return;
    race_seen = true;
    Out out;
    vh::Ev("race").str("what", what).put();
}

// happens-before shadow of one piece of plain data
struct Shadow {
    std::uint32_t wf{0}, wc{0};
    VC reads{};
    Shadow() = default;
    // copying the data reads the source; the copy starts with a history of its own
    Shadow(Shadow const& o) { const_cast<Shadow&>(o).read(); write(); }
    Shadow(Shadow&& o) { o.write(); write(); }
    Shadow& operator=(Shadow const& o) { const_cast<Shadow&>(o).read(); write(); return *this; }
    Shadow& operator=(Shadow&& o) { o.write(); write(); return *this; }
    void read(char const* what = "container")
    {
        if (!on()) return;
        auto* c = S.cur;
        if (wc > c->vc[wf]) race(what);
        reads[c->id] = c->vc[c->id];
    }
    void write(char const* what = "container")
    {
        if (!on()) return;
        auto* c = S.cur;
        if (wc > c->vc[wf]) race(what);
        for (int i = 0; i < VS_THREADS; i++) if (reads[i] > c->vc[i]) race(what);
        wf = c->id; wc = c->vc[c->id];
        reads = {};
    }
};

inline std::function<void()> run_hook;
inline void one_run(std::function<void()> const& body)
{
    S.f.clear();
    if (run_hook) run_hook();
    S.steps = S.same = S.idle = 0;
    S.depth = 0; S.used = 0; S.low = 0;
    race_seen = false;
    vclock::mono = 5'000'000'000LL;
    vclock::wall_offset = 1'700'000'000LL * 1'000'000'000LL;
    spawn(body);
    S.active = true;
    volatile bool back = false;
    save_eh(S.home_eh);
    getcontext(&S.home);
    if (!back) {
        back = true;
        S.cur = S.f[0].get();
#ifdef VS_ASAN
        __sanitizer_start_switch_fiber(&S.home_fake, S.cur->stack, Sched::stack_size);
#endif
        setcontext(&S.cur->ctx);
    }
#ifdef VS_ASAN
    __sanitizer_finish_switch_fiber(S.home_fake, nullptr, nullptr);
#endif
    load_eh(S.home_eh);
    S.active = false;
    S.cur = nullptr;
    for (auto& x : S.f) S.stacks.push_back(x->stack);
}

struct Plan { int dfs_runs{2000}, dfs_budget{2}, random_runs{500}, pct_runs{500}; std::uint64_t seed{1}; int max_traces{1000000}; };
inline Plan plan(std::vector<std::string> const& w, std::size_t at)
{
    // <dfs runs> <preemption bound> <random runs> <pct runs> <seed>
    Plan p;
    p.dfs_runs = std::stoi(w.at(at)); p.dfs_budget = std::stoi(w.at(at + 1));
    p.random_runs = std::stoi(w.at(at + 2)); p.pct_runs = std::stoi(w.at(at + 3));
    p.seed = std::stoull(w.at(at + 4));
    return p;
}

// run body under many schedules; every distinct event history is written out once
inline void explore(std::function<void()> const& header, std::function<void()> const& body, Plan const& p)
{
    std::unordered_set<std::string> seen;
    long runs = 0, complete = 0;
    long total_steps = 0;
    auto run = [&] {
        buf->n = 0;
        header();
        one_run(body);
        vh::Ev("done").put();
        runs++;
        total_steps += S.steps;
        std::string t(buf->d, buf->n);
        buf->n = 0;
        if (seen.size() < (std::size_t)p.max_traces && seen.insert(t).second) write_all(t.data(), t.size());
    };
    S.mode = Mode::dfs;
    S.rng.seed(p.seed);
    // delay bounds 0, 1, .. in turn, so that a shortage of runs costs the deepest bound only
    for (int b = 0, left = p.dfs_runs; b <= p.dfs_budget && left > 0; b++) {
        S.budget = b; S.path.clear();
        int share = b == p.dfs_budget ? left : std::max(1, left / 2);
        complete = 0;
        for (int i = 0; i < share; i++) {
            run();
            left--;
            if (!next_path()) { complete = b + 1; break; }
        }
    }
    long len = std::max<long>(total_steps / std::max(1L, runs), 10);
    S.mode = Mode::random; S.path.clear();
    for (int i = 0; i < p.random_runs; i++) {
        S.rng.seed(p.seed * 1000003 + i);
        S.p_switch = std::array<double, 5>{.02, .05, .1, .3, .6}[i % 5];
        S.p_clock = std::array<double, 4>{0, .01, .05, .2}[(i / 5) % 4];
        run();
    }
    S.mode = Mode::pct;
    for (int i = 0; i < p.pct_runs; i++) {
        S.rng.seed(p.seed * 7000003 + i);
        S.change.clear();
        for (int k = 0; k < 1 + i % 5; k++) S.change.push_back(1 + S.rng() % (len + len / 2));
        run();
    }
    vh::note("explored " + std::to_string(runs) + " " + std::to_string(seen.size()) + " " + std::to_string(complete) + " " + std::to_string(total_steps));
}
}    // namespace vs

// ====================================================================== the replaced std types
namespace std {
class vf_mutex {
public:
    constexpr vf_mutex() noexcept = default;
    vf_mutex(vf_mutex const&) = delete;
    vf_mutex& operator=(vf_mutex const&) = delete;
    void lock()
    {
        vs::point();
        if (!vs::on()) { n++; return; }
        if (owner == vs::S.cur) { vs::stuck("mutex locked twice by one thread"); }
        while (owner) vs::block(this);
        take();
        vs::point();    // others may find it locked
    }
    bool try_lock()
    {
        vs::point();
        if (!vs::on()) return !n && ++n;
        if (owner) return false;
        take();
        vs::point();
        return true;
    }
    // the timed ones give up at their time only
    template <class R, class P> bool try_lock_for(chrono::duration<R, P> const& d)
    {
        vs::point();
        if (!vs::on()) return !n && ++n;
        auto t = vclock::mono + chrono::ceil<chrono::nanoseconds>(d).count();
        while (owner) if (vclock::mono >= t || vs::block(this, t)) { if (owner) return false; }
        take();
        vs::point();
        return true;
    }
    template <class C, class D> bool try_lock_until(chrono::time_point<C, D> const& t) { return try_lock_for(t - C::now()); }
    void unlock()
    {
        if (!vs::on()) { n--; return; }
        rel = vs::S.cur->vc;
        vs::S.cur->vc[vs::S.cur->id]++;
        owner = nullptr;
        vs::wake_all(this);
        vs::point();
    }
    using native_handle_type = void*;
private:
    void take() { owner = vs::S.cur; vs::join(vs::S.cur->vc, rel); }
    vs::Fiber* owner{};
    int n{};
    vs::VC rel{};
    friend class vf_condition_variable_any;
};
using vf_timed_mutex = vf_mutex;

class vf_recursive_mutex {
public:
    vf_recursive_mutex() = default;
    vf_recursive_mutex(vf_recursive_mutex const&) = delete;
    void lock() { if (n && owner == vs::self()) { n++; return; } m.lock(); owner = vs::self(); n = 1; }
    bool try_lock()
    {
        if (n && owner == vs::self()) { n++; return true; }
        if (!m.try_lock()) return false;
        owner = vs::self(); n = 1;
        return true;
    }
    void unlock() { if (--n == 0) { owner = -2; m.unlock(); } }
private:
    vf_mutex m;
    int owner{-2}, n{};
};

class vf_shared_mutex {
public:
    vf_shared_mutex() = default;
    vf_shared_mutex(vf_shared_mutex const&) = delete;
    void lock() { vs::point(); if (vs::on()) while (w || r) vs::block(this); w = true; acq(); }
    bool try_lock() { vs::point(); if (w || r) return false; w = true; acq(); return true; }
    void unlock() { w = false; done(); }
    void lock_shared() { vs::point(); if (vs::on()) while (w) vs::block(this); r++; acq(); }
    bool try_lock_shared() { vs::point(); if (w) return false; r++; acq(); return true; }
    void unlock_shared() { r--; done(); }
private:
    void acq() { if (vs::on()) vs::join(vs::S.cur->vc, rel); }
    void done()
    {
        if (!vs::on()) return;
        vs::join(rel, vs::S.cur->vc);
        vs::S.cur->vc[vs::S.cur->id]++;
        vs::wake_all(this);
        vs::point();
    }
    bool w{}; int r{};
    vs::VC rel{};
};

class vf_stop_token;
class vf_condition_variable_any {
public:
    vf_condition_variable_any() = default;
    vf_condition_variable_any(vf_condition_variable_any const&) = delete;
    void notify_one() noexcept { vs::point(); vs::wake_one(this); }
    void notify_all() noexcept { vs::point(); vs::wake_all(this); }
    template <class L> void wait(L& l) { wait_t(l, vs::never); }
    template <class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
    template <class L, class P> bool wait(L& l, vf_stop_token st, P p);
    template <class L, class R, class Pe, class P> bool wait_for(L& l, vf_stop_token st, chrono::duration<R, Pe> const& d, P p);
    template <class L, class C, class D, class P> bool wait_until(L& l, vf_stop_token st, chrono::time_point<C, D> const& t, P p);
    template <class L, class R, class Pe> cv_status wait_for(L& l, chrono::duration<R, Pe> const& d)
    {
        return wait_t(l, vclock::mono + chrono::ceil<chrono::nanoseconds>(d).count()) ? cv_status::timeout : cv_status::no_timeout;
    }
    // a wait for a predicate is one wait for the hooks, however often it is woken
    template <class L, class R, class Pe, class P> bool wait_for(L& l, chrono::duration<R, Pe> const& d, P p)
    {
        return wait_p(l, vclock::mono + chrono::ceil<chrono::nanoseconds>(d).count(), p, [] { return false; });
    }
    template <class L, class C, class D> cv_status wait_until(L& l, chrono::time_point<C, D> const& t) { return wait_for(l, t - C::now()); }
    template <class L, class C, class D, class P> bool wait_until(L& l, chrono::time_point<C, D> const& t, P p) { return wait_for(l, t - C::now(), p); }
private:
    template <class L, class P, class Q> bool wait_p(L& l, long long t, P p, Q stop)
    {
        if (stop() || p()) return p();
        bool const outer = vs::on() && !vs::S.cur->in_wait;
        if (outer) vs::S.cur->in_wait = true;
        if (outer && vs::sleep_hook) { vs::Out out; vs::sleep_hook(std::max(0LL, t - vclock::mono)); }
        while (!stop() && !p()) if (wait_t(l, t, stop)) break;
        if (outer) vs::S.cur->in_wait = false;
        if (outer && vs::woke_hook) { vs::Out out; vs::woke_hook(); }
        return p();
    }
    template <class L> bool wait_t(L& l, long long t) { return wait_t(l, t, [] { return false; }); }
    template <class L, class Q> bool wait_t(L& l, long long t, Q stop)
    {
        if (!vs::on()) return true;
        if (stop()) return false;
        // releasing and starting to wait are one step; the unlock itself yields only afterwards
        struct G { L& l; ~G() { l.lock(); } };
        auto* me = vs::S.cur;
        bool const hooks = t != vs::never && !me->in_wait;
        bool late;
        me->st = vs::St::blocked; me->on = this; me->wake = t; me->timed_out = false; me->cond = true;
        if (hooks && vs::sleep_hook) { vs::Out out; vs::sleep_hook(std::max(0LL, t - vclock::mono)); }
        {
            G g{l};
            l.unlock();    // its scheduling point blocks us
            late = me->timed_out;
            me->cond = false;
            if (hooks && vs::woke_hook) { vs::Out out; vs::woke_hook(); }
        }
        return late;
    }
};
using vf_condition_variable = vf_condition_variable_any;

template <class T> class vf_atomic_base {
    static constexpr std::uint64_t alive_mark = 0x5ca1ab1e0ddba11ULL;
protected:
    T v{};
    mutable vs::VC rel{};
    std::uint64_t alive{alive_mark};
    static bool acquires(memory_order o) { return o != memory_order_relaxed && o != memory_order_release; }
    static bool releases(memory_order o) { return o == memory_order_release || o == memory_order_acq_rel || o == memory_order_seq_cst; }
    void begin() const
    {
        if (alive != alive_mark && vs::on()) { vh::Ev("dead").put(); vs::stuck("use of a destroyed object"); }
        vs::point();
        if (alive != alive_mark && vs::on()) { vh::Ev("dead").put(); vs::stuck("use of a destroyed object"); }
    }
    void acq(memory_order o) const
    {
        if (!vs::on()) return;
        if (acquires(o)) vs::join(vs::S.cur->vc, rel); else vs::join(vs::S.cur->acq, rel);
    }
    void put(memory_order o, bool rmw)
    {
        if (!vs::on()) return;
        auto* c = vs::S.cur;
        if (releases(o)) { if (rmw) vs::join(rel, c->vc); else rel = c->vc; c->vc[c->id]++; }
        else if (rmw) vs::join(rel, c->relf);
        else rel = c->relf;
    }
    static bool same(T const& a, T const& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
    T rmw(memory_order o, auto f)
    {
        begin();
        acq(o);
        T old = v;
        v = f(old);
        put(o, true);
        if (!same(old, v)) vs::wrote();
        return old;
    }
    vf_atomic_base* self() const volatile { return const_cast<vf_atomic_base*>(this); }
public:
    using value_type = T;
    static constexpr bool is_always_lock_free = true;
    vf_atomic_base() noexcept = default;
    constexpr vf_atomic_base(T x) noexcept : v{x} {}
    vf_atomic_base(vf_atomic_base const&) = delete;
    vf_atomic_base& operator=(vf_atomic_base const&) = delete;
    ~vf_atomic_base() { alive = 0; }
    bool is_lock_free() const volatile noexcept { return true; }
    T load(memory_order o = memory_order_seq_cst) const volatile noexcept { auto* s = self(); s->begin(); s->acq(o); return s->v; }
    void store(T x, memory_order o = memory_order_seq_cst) volatile noexcept
    {
        auto* s = self();
        s->begin();
        bool ch = !same(s->v, x);
        s->v = x;
        s->put(o, false);
        if (ch) vs::wrote();
    }
    operator T() const volatile noexcept { return load(); }
    T operator=(T x) noexcept { store(x); return x; }
    T operator=(T x) volatile noexcept { store(x); return x; }
    T exchange(T x, memory_order o = memory_order_seq_cst) volatile noexcept { return self()->rmw(o, [&](T) { return x; }); }
    bool compare_exchange_strong(T& e, T d, memory_order o = memory_order_seq_cst, memory_order fo = memory_order_seq_cst) volatile noexcept
    {
        auto* s = self();
        s->begin();
        if (same(s->v, e)) {
            s->acq(o);
            bool ch = !same(s->v, d);
            s->v = d; s->put(o, true);
            if (ch) vs::wrote();
            return true;
        }
        s->acq(fo);
        e = s->v;
        return false;
    }
    bool compare_exchange_weak(T& e, T d, memory_order o = memory_order_seq_cst, memory_order fo = memory_order_seq_cst) volatile noexcept
    {
        if (vs::on() && vs::S.mode != vs::Mode::dfs && vs::S.rng() % 20 == 0) { e = load(fo); return false; }
        return compare_exchange_strong(e, d, o, fo);
    }
    void wait(T old, memory_order o = memory_order_seq_cst) const volatile noexcept
    {
        while (same(load(o), old)) { if (!vs::on()) return; vs::block((void const*)this); }
    }
    void notify_one() volatile noexcept { vs::point(); vs::wake_one((void const*)this); }
    void notify_all() volatile noexcept { vs::point(); vs::wake_all((void const*)this); }
};
template <class T> class vf_atomic : public vf_atomic_base<T> {
    using B = vf_atomic_base<T>;
public:
    using B::B;
    using B::operator=;
    vf_atomic() noexcept = default;
    vf_atomic(vf_atomic const&) = delete;
    vf_atomic& operator=(vf_atomic const&) = delete;
};
template <class T> requires((integral<T> && !same_as<T, bool>) || floating_point<T>) class vf_atomic<T> : public vf_atomic_base<T> {
    using B = vf_atomic_base<T>;
public:
    using difference_type = T;
    using B::B;
    using B::operator=;
    vf_atomic() noexcept = default;
    vf_atomic(vf_atomic const&) = delete;
    vf_atomic& operator=(vf_atomic const&) = delete;
#define VF_OP(NAME, E) T NAME(T x, memory_order o = memory_order_seq_cst) volatile noexcept { return const_cast<vf_atomic*>(this)->rmw(o, [&](T a) -> T { return (T)(E); }); }
    template <class X> static auto U(X x) { if constexpr (integral<X>) return (make_unsigned_t<X>)x; else return x; }
    VF_OP(fetch_add, U(a) + U(x))
    VF_OP(fetch_sub, U(a) - U(x))
#undef VF_OP
#define VF_OP(NAME, E) T NAME(T x, memory_order o = memory_order_seq_cst) volatile noexcept requires integral<T> { return const_cast<vf_atomic*>(this)->rmw(o, [&](T a) -> T { return (T)(E); }); }
    VF_OP(fetch_and, a & x)
    VF_OP(fetch_or, a | x)
    VF_OP(fetch_xor, a ^ x)
#undef VF_OP
    T operator++(int) volatile noexcept { return fetch_add(1); }
    T operator--(int) volatile noexcept { return fetch_sub(1); }
    T operator++() volatile noexcept { return (T)(U(fetch_add(1)) + 1); }
    T operator--() volatile noexcept { return (T)(U(fetch_sub(1)) - 1); }
    T operator+=(T x) volatile noexcept { return (T)(U(fetch_add(x)) + U(x)); }
    T operator-=(T x) volatile noexcept { return (T)(U(fetch_sub(x)) - U(x)); }
    T operator&=(T x) volatile noexcept requires integral<T> { return fetch_and(x) & x; }
    T operator|=(T x) volatile noexcept requires integral<T> { return fetch_or(x) | x; }
    T operator^=(T x) volatile noexcept requires integral<T> { return fetch_xor(x) ^ x; }
};
template <class T> class vf_atomic<T*> : public vf_atomic_base<T*> {
    using B = vf_atomic_base<T*>;
public:
    using B::B;
    using B::operator=;
    vf_atomic() noexcept = default;
    T* fetch_add(ptrdiff_t x, memory_order o = memory_order_seq_cst) noexcept { return this->rmw(o, [&](T* a) { return a + x; }); }
    T* fetch_sub(ptrdiff_t x, memory_order o = memory_order_seq_cst) noexcept { return this->rmw(o, [&](T* a) { return a - x; }); }
    T* operator++(int) noexcept { return fetch_add(1); }
    T* operator++() noexcept { return fetch_add(1) + 1; }
};
template <class T> vf_atomic(T) -> vf_atomic<T>;
using vf_atomic_bool = vf_atomic<bool>;
using vf_atomic_int = vf_atomic<int>;
using vf_atomic_uint = vf_atomic<unsigned>;
using vf_atomic_long = vf_atomic<long>;
using vf_atomic_size_t = vf_atomic<size_t>;
using vf_atomic_uint32_t = vf_atomic<uint32_t>;
using vf_atomic_uint64_t = vf_atomic<uint64_t>;
using vf_atomic_int32_t = vf_atomic<int32_t>;
using vf_atomic_int64_t = vf_atomic<int64_t>;
using vf_atomic_char = vf_atomic<char>;
using vf_atomic_uchar = vf_atomic<unsigned char>;
using vf_atomic_short = vf_atomic<short>;
using vf_atomic_ushort = vf_atomic<unsigned short>;
using vf_atomic_ulong = vf_atomic<unsigned long>;
using vf_atomic_llong = vf_atomic<long long>;
using vf_atomic_ullong = vf_atomic<unsigned long long>;
using vf_atomic_int8_t = vf_atomic<int8_t>;
using vf_atomic_uint8_t = vf_atomic<uint8_t>;
using vf_atomic_int16_t = vf_atomic<int16_t>;
using vf_atomic_uint16_t = vf_atomic<uint16_t>;
using vf_atomic_ptrdiff_t = vf_atomic<ptrdiff_t>;
using vf_atomic_intptr_t = vf_atomic<intptr_t>;
using vf_atomic_uintptr_t = vf_atomic<uintptr_t>;
// the free functions
template <class T> T atomic_load(vf_atomic<T> const volatile* a) noexcept { return a->load(); }
template <class T> T atomic_load_explicit(vf_atomic<T> const volatile* a, memory_order o) noexcept { return a->load(o); }
template <class T> void atomic_store(vf_atomic<T> volatile* a, type_identity_t<T> x) noexcept { a->store(x); }
template <class T> void atomic_store_explicit(vf_atomic<T> volatile* a, type_identity_t<T> x, memory_order o) noexcept { a->store(x, o); }
template <class T> T atomic_exchange(vf_atomic<T> volatile* a, type_identity_t<T> x) noexcept { return a->exchange(x); }
template <class T> T atomic_exchange_explicit(vf_atomic<T> volatile* a, type_identity_t<T> x, memory_order o) noexcept { return a->exchange(x, o); }
template <class T> bool atomic_compare_exchange_strong(vf_atomic<T> volatile* a, T* e, type_identity_t<T> x) noexcept { return a->compare_exchange_strong(*e, x); }
template <class T> bool atomic_compare_exchange_weak(vf_atomic<T> volatile* a, T* e, type_identity_t<T> x) noexcept { return a->compare_exchange_weak(*e, x); }
template <class T> T atomic_fetch_add(vf_atomic<T> volatile* a, auto x) noexcept { return a->fetch_add(x); }
template <class T> T atomic_fetch_add_explicit(vf_atomic<T> volatile* a, auto x, memory_order o) noexcept { return a->fetch_add(x, o); }
template <class T> T atomic_fetch_sub(vf_atomic<T> volatile* a, auto x) noexcept { return a->fetch_sub(x); }
template <class T> T atomic_fetch_sub_explicit(vf_atomic<T> volatile* a, auto x, memory_order o) noexcept { return a->fetch_sub(x, o); }

class vf_atomic_flag {
    vf_atomic<bool> b{false};
public:
    vf_atomic_flag() noexcept = default;
    constexpr vf_atomic_flag(bool x) noexcept : b{x} {}
    vf_atomic_flag(vf_atomic_flag const&) = delete;
    bool test_and_set(memory_order o = memory_order_seq_cst) volatile noexcept { return b.exchange(true, o); }
    void clear(memory_order o = memory_order_seq_cst) volatile noexcept { b.store(false, o); }
    bool test(memory_order o = memory_order_seq_cst) const volatile noexcept { return b.load(o); }
    void wait(bool old, memory_order o = memory_order_seq_cst) const volatile noexcept { b.wait(old, o); }
    void notify_one() volatile noexcept { b.notify_one(); }
    void notify_all() volatile noexcept { b.notify_all(); }
};
inline void vf_atomic_thread_fence(memory_order o) noexcept
{
    if (!vs::on()) return;
    auto* c = vs::S.cur;
    if (o != memory_order_release && o != memory_order_relaxed) vs::join(c->vc, c->acq);
    if (o != memory_order_acquire && o != memory_order_relaxed) { c->relf = c->vc; c->vc[c->id]++; }
}

class vf_thread {
public:
    class id {
        int n{-1};
        friend class vf_thread;
    public:
        constexpr id() noexcept = default;
        constexpr explicit id(int x) noexcept : n{x} {}
        friend auto operator<=>(id, id) noexcept = default;
        template <class C, class Tr> friend basic_ostream<C, Tr>& operator<<(basic_ostream<C, Tr>& o, id i) { return o << i.n; }
        size_t hash() const noexcept { return (size_t)n; }
    };
    using native_handle_type = void*;
    vf_thread() noexcept = default;
    template <class F, class... A> requires(!same_as<remove_cvref_t<F>, vf_thread>) explicit vf_thread(F&& f, A&&... a)
    {
        {
            bool const w = vs::S.cur && vs::S.cur->watch;
            vs::Out out;
            auto t = make_shared<tuple<decay_t<F>, decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
            x = vs::spawn([t, w] {
                vs::In in{w};
                apply([](auto&& g, auto&&... b) { invoke(std::move(g), std::move(b)...); }, std::move(*t));
            });
            n = x->id;
        }
        vs::wrote();
        vs::point();
    }
    vf_thread(vf_thread const&) = delete;
    vf_thread(vf_thread&& o) noexcept : x{exchange(o.x, nullptr)}, n{exchange(o.n, -1)} {}
    vf_thread& operator=(vf_thread&& o) noexcept
    {
        if (joinable()) terminate();
        x = exchange(o.x, nullptr); n = exchange(o.n, -1);
        return *this;
    }
    ~vf_thread() { if (joinable()) terminate(); }
    bool joinable() const noexcept { return x != nullptr; }
    void join()
    {
        if (!x) throw system_error(make_error_code(errc::invalid_argument));
        if (x == vs::S.cur) throw system_error(make_error_code(errc::resource_deadlock_would_occur));
        vs::point();
        if (vs::on()) {
            while (x->st != vs::St::done) vs::block(x);
            vs::join(vs::S.cur->vc, x->vc);
        }
        x = nullptr; n = -1;
    }
    void detach()
    {
        if (!x) throw system_error(make_error_code(errc::invalid_argument));
        x = nullptr; n = -1;
        vs::point();
    }
    id get_id() const noexcept { return id{n}; }
    void* native_handle() { return x; }
    void swap(vf_thread& o) noexcept { std::swap(x, o.x); std::swap(n, o.n); }
    static unsigned hardware_concurrency() noexcept { return 8; }
private:
    vs::Fiber* x{};
    int n{-1};
};
template <> struct hash<vf_thread::id> { size_t operator()(vf_thread::id i) const noexcept { return i.hash(); } };

// stop tokens
struct vf_stop_state {
    struct Cb { function<void()> f; vf_stop_state* s{}; bool runs{}, gone{}; };
    vf_atomic<bool> stop{false};
    vf_mutex m;
    vf_condition_variable_any c;
    list<Cb*> cbs;
    int by{-2};
    bool request()
    {
        if (stop.exchange(true)) return false;
        m.lock();
        by = vs::self();
        while (!cbs.empty()) {
            auto* x = cbs.front();
            cbs.pop_front();
            x->runs = true;
            m.unlock();
            bool gone = false;
            destroyed = &gone;
            x->f();
            m.lock();
            if (!gone) { x->runs = false; x->gone = true; }
            c.notify_all();
        }
        m.unlock();
        return true;
    }
    bool* destroyed{};
};
class vf_stop_token {
    shared_ptr<vf_stop_state> s;
    friend class vf_stop_source;
    template <class> friend class vf_stop_callback;
    explicit vf_stop_token(shared_ptr<vf_stop_state> x) : s{std::move(x)} {}
public:
    vf_stop_token() noexcept = default;
    bool stop_requested() const noexcept { return s && s->stop.load(); }
    bool stop_possible() const noexcept { return (bool)s; }
    void swap(vf_stop_token& o) noexcept { s.swap(o.s); }
    friend bool operator==(vf_stop_token const& a, vf_stop_token const& b) noexcept { return a.s == b.s; }
};
class vf_stop_source {
    shared_ptr<vf_stop_state> s;
public:
    vf_stop_source() : s{make_shared<vf_stop_state>()} {}
    explicit vf_stop_source(nostopstate_t) noexcept {}
    bool request_stop() const noexcept { return s && s->request(); }
    bool stop_requested() const noexcept { return s && s->stop.load(); }
    bool stop_possible() const noexcept { return (bool)s; }
    vf_stop_token get_token() const noexcept { return vf_stop_token{s}; }
    void swap(vf_stop_source& o) noexcept { s.swap(o.s); }
    friend bool operator==(vf_stop_source const& a, vf_stop_source const& b) noexcept { return a.s == b.s; }
};
template <class F> class vf_stop_callback {
    shared_ptr<vf_stop_state> s;
    F f;
    vf_stop_state::Cb cb;
public:
    using callback_type = F;
    template <class G> explicit vf_stop_callback(vf_stop_token t, G&& g) : s{std::move(t.s)}, f(std::forward<G>(g))
    {
        if (!s) return;
        cb.f = [this] { f(); };
        s->m.lock();
        bool const now = s->stop.load();
        if (!now) s->cbs.push_back(&cb);
        s->m.unlock();
        if (now) { s.reset(); f(); }
    }
    vf_stop_callback(vf_stop_callback const&) = delete;
    ~vf_stop_callback()
    {
        if (!s) return;
        unique_lock<vf_mutex> l(s->m);
        s->cbs.remove(&cb);
        if (!cb.runs) return;
        if (s->by == vs::self()) { *s->destroyed = true; return; }
        s->c.wait(l, [&] { return !cb.runs; });
    }
};
template <class F> vf_stop_callback(vf_stop_token, F) -> vf_stop_callback<F>;
template <class L, class P> bool vf_condition_variable_any::wait(L& l, vf_stop_token st, P p)
{
    vf_stop_callback cb{st, [this] { vs::wake_all(this); vs::wrote(); }};
    while (!st.stop_requested()) { if (p()) return true; wait_t(l, vs::never, [&] { return st.stop_requested(); }); }
    return p();
}
template <class L, class R, class Pe, class P> bool vf_condition_variable_any::wait_for(L& l, vf_stop_token st, chrono::duration<R, Pe> const& d, P p)
{
    vf_stop_callback cb{st, [this] { vs::wake_all(this); vs::wrote(); }};
    return wait_p(l, vclock::mono + chrono::ceil<chrono::nanoseconds>(d).count(), p, [&] { return st.stop_requested(); });
}
template <class L, class C, class D, class P> bool vf_condition_variable_any::wait_until(L& l, vf_stop_token st, chrono::time_point<C, D> const& t, P p)
{
    return wait_for(l, std::move(st), t - C::now(), p);
}

class vf_jthread {
    vf_stop_source src;
    vf_thread t;
public:
    using id = vf_thread::id;
    vf_jthread() noexcept : src{nostopstate} {}
    template <class F, class... A> requires(!same_as<remove_cvref_t<F>, vf_jthread>) explicit vf_jthread(F&& f, A&&... a)
    {
        if constexpr (is_invocable_v<decay_t<F>, vf_stop_token, decay_t<A>...>) t = vf_thread(std::forward<F>(f), src.get_token(), std::forward<A>(a)...);
        else t = vf_thread(std::forward<F>(f), std::forward<A>(a)...);
    }
    vf_jthread(vf_jthread&&) noexcept = default;
    vf_jthread& operator=(vf_jthread&& o) noexcept
    {
        if (joinable()) { request_stop(); join(); }
        src = std::move(o.src); t = std::move(o.t);
        return *this;
    }
    ~vf_jthread() { if (joinable()) { request_stop(); join(); } }
    bool joinable() const noexcept { return t.joinable(); }
    void join() { t.join(); }
    void detach() { t.detach(); }
    id get_id() const noexcept { return t.get_id(); }
    bool request_stop() noexcept { vs::point(); auto r = src.request_stop(); vs::wrote(); return r; }
    vf_stop_source get_stop_source() noexcept { return src; }
    vf_stop_token get_stop_token() const noexcept { return src.get_token(); }
};

namespace vf_this_thread {
inline vf_thread::id get_id() noexcept { return vf_thread::id{vs::self()}; }
inline void yield() noexcept { vs::yield(); }
template <class R, class P> void sleep_for(chrono::duration<R, P> const& d)
{
    vs::sleep_until(vclock::mono + chrono::ceil<chrono::nanoseconds>(d).count());
}
template <class C, class D> void sleep_until(chrono::time_point<C, D> const& t) { sleep_for(t - C::now()); }
}    // namespace vf_this_thread

template <ptrdiff_t M = PTRDIFF_MAX> class vf_counting_semaphore {
    vf_mutex m; vf_condition_variable_any c; ptrdiff_t n;
public:
    explicit vf_counting_semaphore(ptrdiff_t x) : n{x} {}
    static constexpr ptrdiff_t max() noexcept { return M; }
    void release(ptrdiff_t k = 1) { unique_lock<vf_mutex> l(m); n += k; c.notify_all(); }
    void acquire() { unique_lock<vf_mutex> l(m); c.wait(l, [&] { return n > 0; }); n--; }
    bool try_acquire() { unique_lock<vf_mutex> l(m); if (n <= 0) return false; n--; return true; }
    template <class R, class P> bool try_acquire_for(chrono::duration<R, P> const& d)
    {
        unique_lock<vf_mutex> l(m);
        if (!c.wait_for(l, d, [&] { return n > 0; })) return false;
        n--;
        return true;
    }
    template <class C, class D> bool try_acquire_until(chrono::time_point<C, D> const& t) { return try_acquire_for(t - C::now()); }
};
using vf_binary_semaphore = vf_counting_semaphore<1>;
class vf_latch {
    vf_mutex m; vf_condition_variable_any c; ptrdiff_t n;
public:
    explicit vf_latch(ptrdiff_t x) : n{x} {}
    void count_down(ptrdiff_t k = 1) { unique_lock<vf_mutex> l(m); n -= k; c.notify_all(); }
    bool try_wait() const noexcept { return n == 0; }
    void wait() { unique_lock<vf_mutex> l(m); c.wait(l, [&] { return n <= 0; }); }
    void arrive_and_wait() { count_down(); wait(); }
};

template <class F = void (*)() noexcept> class vf_barrier {
    struct Nothing { void operator()() noexcept {} };
    using Fn = conditional_t<is_same_v<F, void (*)() noexcept>, Nothing, F>;
    vf_mutex m; vf_condition_variable_any c; ptrdiff_t n, left; size_t phase{}; Fn f;
    void arrived(ptrdiff_t k) { left -= k; if (left <= 0) { f(); left = n; phase++; c.notify_all(); } }
public:
    using arrival_token = size_t;
    explicit vf_barrier(ptrdiff_t x, Fn g = Fn()) : n{x}, left{x}, f(std::move(g)) {}
    arrival_token arrive(ptrdiff_t k = 1) { unique_lock<vf_mutex> l(m); auto p = phase; arrived(k); return p; }
    void wait(arrival_token p) { unique_lock<vf_mutex> l(m); c.wait(l, [&] { return phase != p; }); }
    void arrive_and_wait() { wait(arrive()); }
    void arrive_and_drop() { unique_lock<vf_mutex> l(m); n--; arrived(1); }
};

class vf_once_flag {
public:
    constexpr vf_once_flag() noexcept = default;
    vf_once_flag(vf_once_flag const&) = delete;
    vf_mutex m; bool done{};
};
template <class F, class... A> void vf_call_once(vf_once_flag& o, F&& f, A&&... a)
{
    unique_lock<vf_mutex> l(o.m);
    if (o.done) return;
    invoke(std::forward<F>(f), std::forward<A>(a)...);
    o.done = true;
}

template <class T> struct vf_shared_state {
    vf_mutex m; vf_condition_variable_any c;
    bool ready{}, taken{};
    exception_ptr e;
    optional<conditional_t<is_void_v<T>, char, conditional_t<is_reference_v<T>, add_pointer_t<T>, T>>> v;
    template <class X> void set(X&& x) { lock_guard<vf_mutex> l(m); if (ready) throw future_error(future_errc::promise_already_satisfied); v.emplace(std::forward<X>(x)); ready = true; c.notify_all(); }
    void fail(exception_ptr x) { lock_guard<vf_mutex> l(m); if (ready) throw future_error(future_errc::promise_already_satisfied); e = x; ready = true; c.notify_all(); }
    void wait() { unique_lock<vf_mutex> l(m); c.wait(l, [&] { return ready; }); }
};
template <class T> class vf_shared_future {
protected:
    shared_ptr<vf_shared_state<T>> s;
public:
    vf_shared_future() = default;
    explicit vf_shared_future(shared_ptr<vf_shared_state<T>> x) : s{std::move(x)} {}
    bool valid() const noexcept { return s != nullptr; }
    void wait() const { s->wait(); }
    template <class R, class P> future_status wait_for(chrono::duration<R, P> const& d) const
    {
        unique_lock<vf_mutex> l(s->m);
        return s->c.wait_for(l, d, [&] { return s->ready; }) ? future_status::ready : future_status::timeout;
    }
    template <class C, class D> future_status wait_until(chrono::time_point<C, D> const& t) const { return wait_for(t - C::now()); }
    decltype(auto) get() const
    {
        s->wait();
        if (s->e) rethrow_exception(s->e);
        if constexpr (is_reference_v<T>) return static_cast<T>(**s->v);
        else if constexpr (!is_void_v<T>) return static_cast<T const&>(*s->v);
    }
};
template <class T> class vf_future : public vf_shared_future<T> {
    using B = vf_shared_future<T>;
public:
    shared_ptr<vf_jthread> runs;    // it came from async: its destruction waits
    using B::B;
    vf_future() = default;
    vf_future(vf_future&&) = default;
    vf_future& operator=(vf_future&&) = default;
    vf_shared_future<T> share() { return vf_shared_future<T>{std::move(this->s)}; }
    T get()
    {
        auto s = std::move(this->s);
        s->wait();
        if (s->e) rethrow_exception(s->e);
        if constexpr (is_reference_v<T>) return static_cast<T>(**s->v);
        else if constexpr (!is_void_v<T>) return std::move(*s->v);
    }
};
template <class T> class vf_promise {
    shared_ptr<vf_shared_state<T>> s{make_shared<vf_shared_state<T>>()};
public:
    vf_promise() = default;
    vf_promise(vf_promise&&) = default;
    vf_promise& operator=(vf_promise&& o) noexcept { vf_promise x{std::move(o)}; std::swap(s, x.s); return *this; }
    ~vf_promise() { if (s && s->taken && !s->ready) s->fail(make_exception_ptr(future_error(future_errc::broken_promise))); }
    vf_future<T> get_future()
    {
        if (s->taken) throw future_error(future_errc::future_already_retrieved);
        s->taken = true;
        return vf_future<T>{s};
    }
    template <class X = T> requires(!is_void_v<T>) void set_value(X&& x) { if constexpr (is_reference_v<T>) s->set(&x); else s->set(std::forward<X>(x)); }
    void set_value() requires(is_void_v<T>) { s->set(0); }
    void set_exception(exception_ptr e) { s->fail(e); }
    void swap(vf_promise& o) noexcept { std::swap(s, o.s); }
};
template <class> class vf_packaged_task;
template <class R, class... A> class vf_packaged_task<R(A...)> {
    function<R(A...)> f; vf_promise<R> p;
public:
    vf_packaged_task() = default;
    template <class F> requires(!same_as<remove_cvref_t<F>, vf_packaged_task>) explicit vf_packaged_task(F&& g) : f(std::forward<F>(g)) {}
    bool valid() const noexcept { return (bool)f; }
    vf_future<R> get_future() { return p.get_future(); }
    void operator()(A... a)
    {
        try { if constexpr (is_void_v<R>) { f(std::forward<A>(a)...); p.set_value(); } else p.set_value(f(std::forward<A>(a)...)); }
        catch (...) { p.set_exception(current_exception()); }
    }
    void reset() { p = {}; }
};
enum class vf_launch { vf_async = 1, deferred = 2 };
template <class F, class... A> auto vf_async(vf_launch, F&& f, A&&... a)
{
    using R = invoke_result_t<decay_t<F>, decay_t<A>...>;
    auto t = make_shared<vf_packaged_task<R()>>([g = make_tuple(std::forward<F>(f), std::forward<A>(a)...)]() mutable {
        return apply([](auto&& h, auto&&... b) { return invoke(std::move(h), std::move(b)...); }, std::move(g));
    });
    auto r = t->get_future();
    r.runs = make_shared<vf_jthread>([t] { (*t)(); });
    return r;
}
template <class F, class... A> requires(!same_as<remove_cvref_t<F>, vf_launch>) auto vf_async(F&& f, A&&... a) { return vf_async(vf_launch::vf_async, std::forward<F>(f), std::forward<A>(a)...); }

}    // namespace std
