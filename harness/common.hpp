// Script-driven sequential harness: sessions of operations are read from stdin, performed on the
// real classes, and logged as one JSON object per line.  Sessions run in a forked child, so a
// crash, memory error or hang in the code under test becomes a logged event and not a lost run.
#pragma once
#include <bits/stdc++.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh {
using Lines = std::vector<std::string>;

inline std::function<void(std::string const&)> sink;    // where events go instead of stdout
inline std::function<void()> child_died;                 // called in the parent when a session ended badly
inline std::function<void()> finish_session_;
[[noreturn]] inline void finish_session() { finish_session_(); _exit(0); }
inline void note(std::string const& s) { auto t = s + "\n"; (void)!::write(2, t.data(), t.size()); }
inline long cpu_limit = 10, wall_limit = 120;            // seconds per session
inline long events_limit = 300000, events_logged = 0;    // more means an endless loop

// ---- two sessions side by side: the other one goes on whenever an event was logged, so two objects of one type are
// in use at once.  Events carry the number of their session; each session's own history is judged by itself.
struct Pair {
    std::mutex m;
    std::condition_variable cv;
    int turn = 0;
    bool over[2]{};
    unsigned long long seed;
    void pass(int me)    // under m
    {
        seed = seed * 6364136223846793005ULL + 1442695040888963407ULL;
        if (!over[1 - me] && (over[me] || seed >> 62)) turn = 1 - me;
    }
};
inline Pair* pair_now = nullptr;
inline thread_local int pair_me = -1;

struct Ev {
    std::string s{"{"};
    bool first{true};
    explicit Ev(char const* e) { str("e", e); }
    Ev& key(char const* k)
    {
        if (!first) s += ',';
        first = false;
        s += '"'; s += k; s += "\":";
        return *this;
    }
    Ev& num(char const* k, long long v) { key(k); s += std::to_string(v); return *this; }
    Ev& boolean(char const* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
    static std::string quote(std::string const& v)
    {
        std::string r{"\""};
        for (unsigned char c : v) {
            if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char)c;
        }
        return r + "\"";
    }
    Ev& str(char const* k, std::string const& v) { key(k); s += quote(v); return *this; }
    template <class C> Ev& arr(char const* k, C const& c)
    {
        key(k); s += '[';
        bool f = true;
        for (auto const& x : c) {
            if (!f) s += ',';
            f = false;
            if constexpr (std::is_convertible_v<decltype(x), std::string>) s += quote(x);
            else s += std::to_string((long long)x);
        }
        s += ']';
        return *this;
    }
    Ev& raw(char const* k, std::string const& v) { key(k); s += v; return *this; }
    void put()
    {
        s += "}\n";
        if (sink) { sink(s); return; }
        if (pair_me < 0) { out(); return; }
        s.insert(1, "\"ob\":" + std::to_string(pair_me) + ",");
        std::unique_lock l(pair_now->m);
        out();
        pair_now->pass(pair_me);
        pair_now->cv.notify_all();
        pair_now->cv.wait(l, [] { return pair_now->turn == pair_me; });
    }
    void out()
    {
        if (++events_logged > events_limit) raise(SIGVTALRM);
        char const* p = s.data();
        std::size_t n = s.size();
        while (n) {
            auto w = ::write(1, p, n);
            if (w <= 0) _exit(77);
            p += w; n -= w;
        }
    }
};

inline std::vector<std::string> words(std::string const& l)
{
    std::istringstream is(l);
    return {std::istream_iterator<std::string>(is), {}};
}

inline void run_pair(std::function<void(Lines const&)> const& session, Lines const& a, Lines const& b, unsigned long long seed)
{
    Ev("pair").put();
    Pair p;
    p.seed = seed;
    pair_now = &p;
    auto go = [&](int me, Lines const& ls) {
        pair_me = me;
        { std::unique_lock l(p.m); p.cv.wait(l, [&] { return p.turn == me; }); }
        session(ls);
        std::lock_guard l(p.m);
        p.over[me] = true;
        if (!p.over[1 - me]) p.turn = 1 - me;
        p.cv.notify_all();
    };
    std::thread t(go, 1, std::cref(b));
    std::thread(go, 0, std::cref(a)).join();
    t.join();
    pair_now = nullptr;
    Ev("unpair").put();
}

inline int main_loop(std::function<void(Lines const&)> const& session)
{
    std::vector<Lines> all;
    std::map<std::size_t, unsigned long long> pairs;    // this session and the next one side by side
    for (std::string l; std::getline(std::cin, l);) {
        if (l.empty()) continue;
        if (l[0] == '&') { pairs[all.size()] = std::stoull(l.substr(1)); continue; }
        if (l[0] == 'S') all.emplace_back();
        if (all.empty()) { fprintf(stderr, "script must start with S\n"); return 3; }
        all.back().push_back(l);
    }
    auto* cur = (std::atomic<std::size_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    cur->store(0);
    finish_session_ = [cur] { cur->fetch_add(1); };
    long hung = 0;    // seconds lost to sessions that do not end
    while (cur->load() < all.size() && hung < 60) {
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 3; }
        if (pid == 0) {
            while (cur->load() < all.size()) {
                itimerval tv{{0, 0}, {cpu_limit, 0}};
                setitimer(ITIMER_VIRTUAL, &tv, nullptr);
                alarm(wall_limit);
                events_logged = 0;
                auto const i = cur->load();
                auto const p = pairs.find(i);
                if (p != pairs.end() && i + 1 < all.size()) run_pair(session, all[i], all[i + 1], p->second);
                else session(all[i]);
                cur->fetch_add(p != pairs.end() ? 2 : 1);
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (cur->load() < all.size()) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return 3;
            std::string how;
            if (WIFSIGNALED(st)) {
                int s = WTERMSIG(st);
                how = (s == SIGVTALRM || s == SIGALRM) ? "hang" : "signal " + std::to_string(s);
                if (how == "hang") hung += cpu_limit;
            } else how = WEXITSTATUS(st) == 99 ? "memory error" : "exit " + std::to_string(WEXITSTATUS(st));
            if (child_died) child_died();
            Ev("crash").str("how", how).put();
            if (child_died) child_died();
            cur->fetch_add(pairs.count(cur->load()) ? 2 : 1);
        }
    }
    return 0;
}
}    // namespace vh
