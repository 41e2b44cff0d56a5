// lsb_t / msb_t and data<T>.
//   S <l|m> <width>     then lines, numbers in hex:
//     n <how> v   build (v value, r rvalue, c copy, d default)   a v  assign   o bytes(hex)  overlay   c v how  compare
//   S d                 then  s v (swap, width in digits)   t <type> <seed>  serialise/deserialise an object of random bytes
//   S b <container> <skip> <bytes>    a buffer:  w at bytes (an object of that width written)   r at width
//                                     t at width (number read, swapped, written)   m from to width
#include "common.hpp"
#include <xitren/func/data.hpp>
#include <ranges>
using namespace vh;
namespace xf = xitren::func;
using Bytes = std::vector<int>;

template <class U> static Bytes num(U v)
{
    Bytes r;
    for (unsigned i = 0; i < sizeof(U); i++) { r.push_back((int)(v % 256)); v = (U)(v / 256); }
    return r;
}
template <class T> static Bytes raw(T const& v)
{
    Bytes r(sizeof(T));
    auto const* p = reinterpret_cast<unsigned char const*>(&v);
    for (unsigned i = 0; i < sizeof(T); i++) r[i] = p[i];
    return r;
}
static unsigned long long hex(std::string const& s) { return std::stoull(s, nullptr, 16); }

template <class W> struct __attribute__((__packed__)) Around { std::uint8_t left; W w; std::uint8_t mid; W w2; std::uint8_t right; };
template <class W> struct Plain { std::uint8_t left; W w; std::uint8_t right; };

template <class W> static void wrapper(Lines const& ls)
{
    using U = typename W::data_type;
    char kind[2] = {ls[0][2], 0};
    alignas(16) unsigned char buf[64];
    memset(buf, 0xa5, sizeof buf);
    Around<W>* a = nullptr;
    unsigned off = 1 + (ls.size() % 7);
    a = reinterpret_cast<Around<W>*>(buf + off);
    W* w = reinterpret_cast<W*>(buf + off + 1);
    auto intact = [&] {
        bool ok = true;
        for (unsigned i = 0; i < sizeof buf; i++) if (i < off + 1 || i >= off + 1 + sizeof(U)) ok = ok && buf[i] == 0xa5;
        return ok;
    };
    Ev("struct").num("size", sizeof(Around<W>)).num("packed", 3 + 2 * sizeof(U)).put();
    Ev("struct").num("size", sizeof(Plain<W>)).num("packed", 2 + sizeof(U)).put();
    Ev("struct").num("size", sizeof(std::array<W, 3>)).num("packed", 3 * sizeof(U)).put();
    (void)a;
    for (std::size_t i = 1; i < ls.size(); i++) {
        auto c = words(ls[i]);
        if (c[0] == "n") {
            U v = c[1] == "d" ? 0 : (U)hex(c[2]);
            if (c[1] == "v") { U const lv = v; new (w) W(lv); }
            else if (c[1] == "r") new (w) W(U{v});
            else if (c[1] == "m") { U x = v; new (w) W(std::move(x)); }
            else if (c[1] == "c") { W const x{v}; new (w) W(x); }
            else if (c[1] == "i") { W x = v; new (w) W(std::move(x)); }
            else new (w) W();
            Ev("new").str("kind", kind).arr("v", num(v)).arr("mem", raw(*w)).arr("get", num(std::as_const(*w).get())).num("size", sizeof(W)).num("align", alignof(W)).put();
        } else if (c[0] == "a") {
            U v = (U)hex(c[1]);
            U got;
            if (c.size() > 2) { W x{v}; got = (*w = x).get(); } else got = (*w = v).get();
            Ev("assign").arr("v", num(v)).arr("mem", raw(*w)).arr("get", num(w->get())).arr("chained", num(got)).put();
        } else if (c[0] == "o") {
            U v = (U)hex(c[1]);
            for (unsigned k = 0; k < sizeof(U); k++) buf[off + 1 + k] = (unsigned char)(v >> (8 * (sizeof(U) - 1 - k)));
            Ev("overlay").arr("mem", raw(*w)).arr("get", num(w->get())).put();
        } else if (c[0] == "c") {
            U v = (U)hex(c[1]);
            W o{v};
            Ev e("cmp");
            e.arr("b", num(v));
            if (c.size() > 2) e.boolean("eq", *w == v).boolean("ne", *w != v).boolean("lt", *w < v).boolean("gt", *w > v).boolean("le", *w <= v).boolean("ge", *w >= v);
            else e.boolean("eq", *w == o).boolean("ne", *w != o).boolean("lt", *w < o).boolean("gt", *w > o).boolean("le", *w <= o).boolean("ge", *w >= o);
            e.put();
        }
        Ev("around").boolean("intact", intact()).put();
    }
}

struct __attribute__((__packed__)) P1 { std::uint8_t a; std::uint16_t b; std::uint32_t c; bool operator==(P1 const&) const = default; };
struct P2 { std::array<std::uint16_t, 5> x; bool operator==(P2 const&) const = default; };
struct __attribute__((__packed__)) P3 { std::int64_t a; std::int8_t b[3]; P1 c; bool operator==(P3 const& o) const { return memcmp(this, &o, sizeof o) == 0; } };
struct P4 { std::uint8_t v[37]; bool operator==(P4 const& o) const { return memcmp(v, o.v, sizeof v) == 0; } };
struct __attribute__((__packed__)) P5 { xf::lsb_t<std::uint16_t> a; xf::msb_t<std::uint64_t> b; std::uint8_t c; bool operator==(P5 const& o) const { return memcmp(this, &o, sizeof o) == 0; } };

template <class T> static void object(unsigned seed)
{
    std::mt19937 g(seed);
    unsigned char in[sizeof(T)];
    for (auto& b : in) b = (unsigned char)(g() % 4 == 0 ? (g() % 2 ? 0xff : 0) : g());
    T t;
    memcpy(&t, in, sizeof t);
    Bytes const want(in, in + sizeof t);
    {
        auto a = xf::data<T>::serialize(t);
        static_assert(std::is_same_v<decltype(a), std::array<std::uint8_t, sizeof(T)>>);
        Ev("ser").str("how", "array").arr("obj", want).arr("out", Bytes(a.begin(), a.end())).boolean("intact", true).put();
    }
    auto into = [&](char const* how, auto& c) {
        auto it = c.begin() + 3;
        xf::data<T>::serialize(t, it);
        bool ok = true;
        std::size_t n = c.size();
        for (std::size_t i = 0; i < n; i++) if (i < 3 || i >= 3 + sizeof(T)) ok = ok && c[i] == 0x5c;
        Ev("ser").str("how", how).arr("obj", want).arr("out", Bytes(c.begin() + 3, c.begin() + 3 + sizeof(T))).boolean("intact", ok).put();
        auto r = xf::data<T>::deserialize(it);
        Ev("de").str("how", how).arr("in", want).arr("obj", raw(r)).boolean("equal", r == t).put();
    };
    std::vector<std::uint8_t> v(sizeof(T) + 8, 0x5c);
    into("vector", v);
    std::deque<std::uint8_t> d(sizeof(T) + 3, 0x5c);
    into("deque", d);
#ifndef NO_ITERATORS
    // any container: its bytes need not lie side by side, in this order or be bytes at all
    auto at = [&](char const* how, auto to, auto from, auto ok) {
        xf::data<T>::serialize(t, to);
        Bytes out;
        for (std::size_t i = 0; i < sizeof(T); i++) out.push_back((int)to[i]);
        Ev("ser").str("how", how).arr("obj", want).arr("out", out).boolean("intact", ok()).put();
        auto r = xf::data<T>::deserialize(from);
        Ev("de").str("how", how).arr("in", want).arr("obj", raw(r)).boolean("equal", r == t).put();
    };
    {
        std::size_t const n = 512 + 2 * sizeof(T);    // deque of libstdc++: blocks of 512 bytes
        for (std::size_t o : {512 - sizeof(T) % 512, 512 - 1 - sizeof(T) / 2 % 511, std::size_t(g() % (512 + sizeof(T)))}) {
            std::deque<std::uint8_t> q(n + o, 0x5c);
            auto b = q.begin() + o;
            at("deque blocks", b, std::as_const(q).begin() + o, [&] { bool k = true; for (std::size_t i = 0; i < q.size(); i++) if (i < o || i >= o + sizeof(T)) k = k && q[i] == 0x5c; return k; });
        }
        std::vector<std::uint8_t> v(sizeof(T) + 2, 0x5c);
        at("backwards", v.rbegin() + 1, v.crbegin() + 1, [&] { return v.front() == 0x5c && v.back() == 0x5c; });
        std::vector<int> w(sizeof(T) + 2, 77);
        at("wide", w.begin() + 1, w.cbegin() + 1, [&] { return w.front() == 77 && w.back() == 77; });
        std::vector<char> ch(sizeof(T) + 2, 77);
        xf::data<T>::serialize(t, ch.begin() + 1);
        auto r = xf::data<T>::deserialize(ch.begin() + 1);
        Ev("ser").str("how", "char").arr("obj", want).arr("out", Bytes((unsigned char const*)ch.data() + 1, (unsigned char const*)ch.data() + 1 + sizeof(T))).boolean("intact", ch.front() == 77 && ch.back() == 77).put();
        Ev("de").str("how", "char").arr("in", want).arr("obj", raw(r)).boolean("equal", r == t).put();
        std::vector<int> pos(sizeof(T));
        for (std::size_t i = 0; i < pos.size(); i++) pos[i] = (int)i;
        auto view = pos | std::views::transform([&](int i) { return (std::uint8_t)in[i]; });
        auto r2 = xf::data<T>::deserialize(view.begin());
        Ev("de").str("how", "computed").arr("in", want).arr("obj", raw(r2)).boolean("equal", r2 == t).put();
    }
#else
    Ev("unusable").put();
#endif
    std::array<std::uint8_t, sizeof(T) + 3> ar;
    ar.fill(0x5c);
    into("array", ar);
    std::vector<std::uint8_t> ex(sizeof(T) + 3, 0x5c);    // ends exactly behind the object
    into("exact vector", ex);
    {
        std::unique_ptr<std::uint8_t[]> p(new std::uint8_t[sizeof(T)]);
        xf::data<T>::serialize(t, p.get());
        Ev("ser").str("how", "pointer").arr("obj", want).arr("out", Bytes(p.get(), p.get() + sizeof(T))).boolean("intact", true).put();
        std::uint8_t const* q = p.get();
        auto r = xf::data<T>::deserialize(q);
        Ev("de").str("how", "pointer").arr("in", want).arr("obj", raw(r)).boolean("equal", r == t).put();
    }
}

// ---- a buffer that objects are written into and read from
template <std::size_t N> struct Blob { std::uint8_t v[N]; bool operator==(Blob const&) const = default; };
struct __attribute__((__packed__)) B3 { std::uint8_t a; std::uint16_t b; bool operator==(B3 const&) const = default; };
struct __attribute__((__packed__)) B7 { std::uint16_t a; std::uint32_t b; std::uint8_t c; bool operator==(B7 const&) const = default; };
template <class F> static void of_width(std::size_t w, F f)
{
    switch (w) {
    case 1: f(std::uint8_t{}); break;
    case 2: f(std::uint16_t{}); break;
    case 3: f(B3{}); break;
    case 4: f(std::uint32_t{}); break;
    case 7: f(B7{}); break;
    case 8: f(std::uint64_t{}); break;
    case 18: f(P3{}); break;
    case 37: f(P4{}); break;
    case 200: f(Blob<200>{}); break;
    default: f(Blob<700>{});
    }
}
static Bytes dehex(std::string const& s)
{
    Bytes r;
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((int)std::stoul(s.substr(i, 2), nullptr, 16));
    return r;
}
template <class It> static void buffer(Lines const& ls, It begin, std::size_t size)
{
    auto whole = [&] { Bytes r; for (std::size_t i = 0; i < size; i++) r.push_back((int)begin[i] & 255); return r; };
    Ev("init").arr("mem", whole()).put();
    for (std::size_t i = 1; i < ls.size(); i++) {
        auto c = words(ls[i]);
        int at = std::stoi(c[1]);
        if (c[0] == "w") {
            auto b = dehex(c[2]);
            of_width(b.size(), [&](auto t) {
                using T = decltype(t);
                unsigned char raw[sizeof(T)];
                for (std::size_t k = 0; k < sizeof(T); k++) raw[k] = (unsigned char)b[k];
                memcpy(&t, raw, sizeof t);
                if (b[0] % 3 == 0) {
                    auto a = xf::data<T>::serialize(t);
                    std::copy(a.begin(), a.end(), begin + at);
                } else xf::data<T>::serialize(t, begin + at);
            });
            Ev("write").num("at", at).arr("obj", b).arr("mem", whole()).put();
        } else if (c[0] == "r") {
            of_width(std::stoul(c[2]), [&](auto t) {
                t = xf::data<decltype(t)>::deserialize(begin + at);
                Ev("read").num("at", at).arr("obj", raw(t)).put();
            });
        } else if (c[0] == "t") {
            of_width(std::stoul(c[2]), [&](auto t) {
                using T = decltype(t);
                if constexpr (xf::swappable<T>) xf::data<T>::serialize(xf::swap(xf::data<T>::deserialize(begin + at)), begin + at);
            });
            Ev("turn").num("at", at).num("w", std::stoi(c[2])).arr("mem", whole()).put();
        } else {
            int to = std::stoi(c[2]);
            of_width(std::stoul(c[3]), [&](auto t) {
                using T = decltype(t);
                xf::data<T>::serialize(xf::data<T>::deserialize(begin + at), begin + to);
            });
            Ev("move").num("at", at).num("to", to).num("w", std::stoi(c[3])).arr("mem", whole()).put();
        }
    }
    Ev("done").put();
}
static void buffers(Lines const& ls)
{
    auto h = words(ls[0]);
    std::size_t skip = std::stoul(h[3]);
    auto b = dehex(h[4]);
    std::size_t n = b.size();
    if (h[2] == "v") { std::vector<std::uint8_t> v(b.begin(), b.end()); buffer(ls, v.begin(), n); }
    else if (h[2] == "p") {
        std::unique_ptr<std::uint8_t[]> p(new std::uint8_t[n]);
        std::copy(b.begin(), b.end(), p.get());
        buffer(ls, p.get(), n);
    } else if (h[2] == "a") {
        static std::array<std::uint8_t, 4096> a;
        std::copy(b.begin(), b.end(), a.begin() + skip);
        buffer(ls, a.begin() + skip, n);
    }
#ifndef NO_ITERATORS
    else if (h[2] == "d") { std::deque<std::uint8_t> d(skip, 0); d.insert(d.end(), b.begin(), b.end()); buffer(ls, d.begin() + skip, n); }
    else if (h[2] == "i") { std::vector<int> v(b.begin(), b.end()); buffer(ls, v.begin(), n); }
    else if (h[2] == "r") { std::vector<std::uint8_t> v(b.rbegin(), b.rend()); buffer(ls, v.rbegin(), n); }
    else { std::vector<char> v(b.begin(), b.end()); buffer(ls, v.begin(), n); }
#endif
}

int main()
{
    return main_loop([](Lines const& ls) {
        auto h = words(ls[0]);
        if (h[1] == "b") return buffers(ls);
        Ev("init").put();
        if (h[1] == "d") {
            for (std::size_t i = 1; i < ls.size(); i++) {
                auto c = words(ls[i]);
                if (c[0] == "s") {
                    auto v = hex(c[1]);
                    if (c[1].size() == 4) Ev("swap").arr("v", num((std::uint16_t)v)).arr("r", num(xf::swap((std::uint16_t)v))).put();
                    if (c[1].size() == 8) Ev("swap").arr("v", num((std::uint32_t)v)).arr("r", num(xf::swap((std::uint32_t)v))).put();
                    if (c[1].size() == 16) Ev("swap").arr("v", num((std::uint64_t)v)).arr("r", num(xf::swap((std::uint64_t)v))).put();
                } else {
                    unsigned s = (unsigned)std::stoul(c[2]);
                    switch (std::stoi(c[1])) {
                    case 0: object<std::uint8_t>(s); break;
                    case 1: object<P1>(s); break;
                    case 2: object<P2>(s); break;
                    case 3: object<P3>(s); break;
                    case 4: object<P4>(s); break;
                    case 5: object<std::uint64_t>(s); break;
                    case 6: object<P5>(s); break;
                    case 7: object<std::array<std::uint8_t, 300>>(s); break;
                    case 9: object<std::array<std::uint8_t, 1100>>(s); break;
                    default: object<std::int16_t>(s);
                    }
                }
            }
        } else {
            bool l = h[1] == "l";
            if (h[2] == "2") l ? wrapper<xf::lsb_t<std::uint16_t>>(ls) : wrapper<xf::msb_t<std::uint16_t>>(ls);
            if (h[2] == "4") l ? wrapper<xf::lsb_t<std::uint32_t>>(ls) : wrapper<xf::msb_t<std::uint32_t>>(ls);
            if (h[2] == "8") l ? wrapper<xf::lsb_t<std::uint64_t>>(ls) : wrapper<xf::msb_t<std::uint64_t>>(ls);
        }
        Ev("done").put();
    });
}
