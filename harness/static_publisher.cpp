// Compile-time publishers.  Script:  S  then  x p kind  build publisher p   d p  destroy it   n p v  notify   .  return
// kinds: observers (in order) 0:[0] 1:[1,0] 2:[0,1,2] 3:[3,2,1,0] 4:[0,4] 5:[1,5,3] 6:[0..5]
#include "common.hpp"
#include <xitren/comm/observer_static.hpp>
using namespace vh;
namespace xc = xitren::comm;

struct Msg { int v; char pad[20]; bool operator==(Msg const& o) const { return v == o.v; } };
struct World;
static thread_local std::function<void(int, void const*, int)> on_got;
template <int K> struct Obs : xc::observer<Msg, Obs<K>> {
    int id{K};
    void notification_impl(xc::observable_impl<Msg> const& src, Msg const& m) noexcept
    {
        bool ok = true;
        for (int i = 0; i < 20; i++) ok = ok && m.pad[i] == (char)(m.v + i);
        on_got(id, &src, ok ? m.v : -1);
    }
};

struct Base {
    virtual ~Base() = default;
    virtual void notify(Msg const&) = 0;
};
template <class... O> struct Pub : Base {
    char before[16];
    xc::observable<Msg, O...> p;
    char after[16];
    explicit Pub(O&... o) : p(o...) {}
    void notify(Msg const& m) override { p.notify(m); }
};

int main()
{
    return main_loop([](Lines const& ls) {
        Obs<0> a, a2; Obs<1> b, b2; Obs<2> c; Obs<3> d;
        a2.id = 4; b2.id = 5;
        std::array<std::unique_ptr<Base>, 4> pub;
        std::array<int, 4> busy{};
        std::size_t at = 1;
        int depth = 0;
        std::vector<void const*> src;
        auto sid = [&](void const* s) { for (std::size_t i = 0; i < src.size(); i++) if (src[i] == s) return (int)i + 1; src.push_back(s); return (int)src.size(); };
        std::function<void(std::vector<std::string> const&)> exec;
        on_got = [&](int o, void const* s, int v) {
            Ev("got").num("o", o).num("s", sid(s)).num("d", v).put();
            depth++;
            while (at < ls.size() && depth <= 4) {
                auto w = words(ls[at++]);
                if (w[0] == ".") break;
                if (w[0] == "n") exec(w);
            }
            depth--;
            Ev("ret").put();
        };
        exec = [&](std::vector<std::string> const& w) {
            if (w[0] == ".") return;
            int p = std::stoi(w[1]);
            if (w[0] == "x" && !pub[p]) {
                std::vector<int> o;
                switch (std::stoi(w[2])) {
                case 0: pub[p] = std::make_unique<Pub<Obs<0>>>(a); o = {0}; break;
                case 1: pub[p] = std::make_unique<Pub<Obs<1>, Obs<0>>>(b, a); o = {1, 0}; break;
                case 2: pub[p] = std::make_unique<Pub<Obs<0>, Obs<1>, Obs<2>>>(a, b, c); o = {0, 1, 2}; break;
                case 3: pub[p] = std::make_unique<Pub<Obs<3>, Obs<2>, Obs<1>, Obs<0>>>(d, c, b, a); o = {3, 2, 1, 0}; break;
                case 4: pub[p] = std::make_unique<Pub<Obs<0>, Obs<0>>>(a, a2); o = {0, 4}; break;
                case 5: pub[p] = std::make_unique<Pub<Obs<1>, Obs<1>, Obs<3>>>(b, b2, d); o = {1, 5, 3}; break;
                default: pub[p] = std::make_unique<Pub<Obs<0>, Obs<1>, Obs<2>, Obs<3>, Obs<0>, Obs<1>>>(a, b, c, d, a2, b2); o = {0, 1, 2, 3, 4, 5}; break;
                }
                Ev("new").num("p", p).arr("obs", o).put();
            } else if (w[0] == "d" && pub[p] && !busy[p]) {
                pub[p].reset();

                Ev("del").num("p", p).put();
            } else if (w[0] == "n" && pub[p]) {
                Msg m{std::stoi(w[2]), {}};
                for (int i = 0; i < 20; i++) m.pad[i] = (char)(m.v + i);
                busy[p]++;
                Ev("nbeg").num("p", p).num("d", m.v).put();
                pub[p]->notify(m);
                Ev("nend").num("p", p).put();
                busy[p]--;
            }
        };
        Ev("init").put();
        while (at < ls.size()) exec(words(ls[at++]));
    });
}
