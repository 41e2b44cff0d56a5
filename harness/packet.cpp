// packet<Header, Fields, Crc> and packet_accessor<Max>.   Bytes in hex, "-" for none.
//   S p <combo>      m h f   build     s h f  serialise without a packet   w  write the packet
//                    r how bytes   receive    k i b how   change byte i      t how bytes   verdict from bytes
//   S f <combo>      s h f d [n]   serialise (n: claimed count)   z v  claim a size   k i b  change a byte
//                    r bytes v   receive    x   hand the frame to another accessor    d  deserialise
#include "common.hpp"
#include <xitren/func/packet.hpp>
using namespace vh;
using namespace xitren::func;
using Bytes = std::vector<int>;

// ---- checksums; they record what memory they were shown
static thread_local unsigned char const *shown_lo, *shown_hi;
template <class It> static std::vector<unsigned> seen(It b, It e)
{
    auto const* p = reinterpret_cast<unsigned char const*>(&*b);
    auto const* q = p + (e - b);
    if (e - b > 0) {
        if (!shown_lo || p < shown_lo) shown_lo = p;
        if (!shown_hi || q > shown_hi) shown_hi = q;
    }
    std::vector<unsigned> v;
    for (; b != e; ++b) v.push_back((unsigned char)*b);
    return v;
}
static unsigned fletcher(std::vector<unsigned> const& v) { unsigned a = 0, b = 0; for (auto x : v) { a = (a + x) % 255; b = (b + a) % 255; } return b << 8 | a; }
static unsigned adler(std::vector<unsigned> const& v) { unsigned a = 1, b = 0; for (auto x : v) { a = (a + x) % 65521; b = (b + a) % 65521; } return b << 16 | a; }
static unsigned modbus(std::vector<unsigned> const& v)
{
    unsigned c = 0xffff;
    for (auto x : v) { c ^= x; for (int i = 0; i < 8; i++) c = c & 1 ? (c >> 1) ^ 0xa001 : c >> 1; }
    return c;
}
struct __attribute__((__packed__)) byte_t {    // a checksum type of one byte of the user's own
    std::uint8_t v{};
    constexpr byte_t() = default;
    constexpr byte_t(std::uint8_t x) : v{x} {}
    std::uint8_t get() const { return v; }
    bool operator==(byte_t const& o) const { return v == o.v; }
};
#define CRC(name, type, label, expr)                                                                              \
    struct name {                                                                                                 \
        using value_type = type;                                                                                  \
        static constexpr char const* kind = label;                                                                \
        template <class It> static value_type calculate(It b, It e) noexcept { auto v = seen(b, e); return value_type(expr); } \
    };
static unsigned weigh(std::vector<unsigned> const& v) { unsigned a = 0, i = 0; for (auto x : v) a += ++i * x; return a & 255; }
static unsigned parity(std::vector<unsigned> const& v) { unsigned a = v.size(); for (auto x : v) a += x; return a % 2; }
CRC(Toy, byte_t, "toy", (std::uint8_t)parity(v))
CRC(Sum8, byte_t, "sum8", (std::uint8_t)weigh(v))
CRC(Raw8, std::uint8_t, "sum8", (std::uint8_t)weigh(v))
CRC(Raw16, std::uint16_t, "f16l", (std::uint16_t)fletcher(v))
CRC(F16l, lsb_t<std::uint16_t>, "f16l", (std::uint16_t)fletcher(v))
CRC(F16m, msb_t<std::uint16_t>, "f16m", (std::uint16_t)fletcher(v))
CRC(C16, lsb_t<std::uint16_t>, "crc16", (std::uint16_t)modbus(v))
CRC(A32l, lsb_t<std::uint32_t>, "a32l", (std::uint32_t)adler(v))
CRC(A32m, msb_t<std::uint32_t>, "a32m", (std::uint32_t)adler(v))
static std::uint64_t q64(std::uint64_t x) { return (x & 0xffff) << 48 | (x >> 16) << 32 | x; }    // a, b, b, a
CRC(Q64, msb_t<std::uint64_t>, "q64m", q64(adler(v)))

// ---- headers, fields, payload elements
struct M2 { std::uint8_t magic[2]; bool operator==(M2 const&) const = default; };
struct B1 { std::uint8_t v; bool operator==(B1 const&) const = default; };
struct W1 { std::uint16_t data; bool operator==(W1 const&) const = default; };
struct W11 { std::uint16_t data[11]; bool operator==(W11 const&) const = default; };
struct __attribute__((__packed__)) K7 { lsb_t<std::uint16_t> a; msb_t<std::uint32_t> b; std::uint8_t c; bool operator==(K7 const& o) const { return memcmp(this, &o, sizeof o) == 0; } };
struct __attribute__((__packed__)) K5 { std::uint32_t a; std::uint8_t b; bool operator==(K5 const& o) const { return memcmp(this, &o, sizeof o) == 0; } };
struct D16 { std::uint64_t a; double b; bool operator==(D16 const&) const = default; };
struct P8 { std::uint32_t a; std::uint8_t b; bool operator==(P8 const&) const = default; };    // padding inside: its bytes are carried as they are
struct L60 { std::uint8_t v[60]; bool operator==(L60 const&) const = default; };
struct L130 { std::uint8_t v[130]; bool operator==(L130 const&) const = default; };
struct L260 { std::uint8_t v[260]; bool operator==(L260 const&) const = default; };
struct T3 { std::uint8_t v[3]; bool operator==(T3 const&) const = default; };

static std::vector<unsigned char> unhex(std::string const& s)
{
    std::vector<unsigned char> r;
    if (s.find('*') != s.npos) {    // runs: v*n,v*n,...
        std::stringstream in(s);
        for (std::string w; std::getline(in, w, ',');) r.insert(r.end(), std::stoull(w.substr(w.find('*') + 1)), (unsigned char)std::stoi(w));
    } else if (s != "-") for (std::size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((unsigned char)std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
static Bytes ints(unsigned char const* p, std::size_t n) { return Bytes(p, p + n); }
template <class T> static Bytes of(T const& t) { return ints(reinterpret_cast<unsigned char const*>(std::addressof(t)), sizeof(T)); }
template <class T> static T from(std::string const& s)
{
    auto b = unhex(s);
    if (b.size() != sizeof(T)) _exit(78);
    T t;
    memcpy(&t, b.data(), sizeof t);
    return t;
}

// bytes in an event: one by one, or as runs when there are many
static Ev& bytes(Ev& e, char const* k, unsigned char const* p, std::size_t n, bool runs)
{
    if (!runs) return e.arr(k, ints(p, n));
    std::string s = "[";
    for (std::size_t i = 0, j; i < n; i = j) {
        for (j = i; j < n && p[j] == p[i];) j++;
        s += (i ? ",[" : "[") + std::to_string(p[i]) + "," + std::to_string(j - i) + "]";
    }
    return e.raw(k, s + "]");
}

// positions (from 1) of padding inside the header and fields
template <class H, class F> static Bytes padding()
{
    Bytes r;
    if (std::is_same_v<H, P8>) for (int i = 5; i < 8; i++) r.push_back(i + 1);
    if (std::is_same_v<F, P8>) for (int i = 5; i < 8; i++) r.push_back((int)sizeof(H) + i + 1);
    return r;
}

template <class H, class F, class C> static void packets(Lines const& ls)
{
    using P = packet<H, F, C>;
    constexpr std::size_t N = sizeof(H) + sizeof(F) + sizeof(typename C::value_type);
    Ev("init").str("kind", C::kind).num("hs", sizeof(H)).num("fs", sizeof(F)).num("length", P::length).num("size", sizeof(P)).arr("pad", padding<H, F>()).put();
    std::unique_ptr<P> p(new P);
    auto reads = [&](Ev& e) {
        P const& k = *p;
        auto a = k.to_array();
        Bytes all(a.begin(), a.end());
        auto cut = [&](std::size_t from, std::size_t n) { return Bytes(all.begin() + from, all.begin() + from + n); };
        Bytes h = cut(0, sizeof(H)), f = cut(sizeof(H), sizeof(F)), c = cut(sizeof(H) + sizeof(F), N - sizeof(H) - sizeof(F)), hc = h, fc = f, cc = c;
        // references to packed members exist only for byte-aligned types
        if constexpr (alignof(H) == 1) h = of(p->header()), hc = of(k.header());
        if constexpr (alignof(F) == 1) f = of(p->fields()), fc = of(k.fields());
        if constexpr (alignof(typename C::value_type) == 1) c = of(p->crc()), cc = of(k.crc());
        e.arr("bytes", all).arr("h", h).arr("hc", hc).arr("f", f).arr("fc", fc);
        e.arr("c", c).arr("cc", cc).boolean("valid", p->valid()).put();
    };
    auto arr = [&](std::vector<unsigned char> const& b) { std::array<std::uint8_t, N> a; std::copy(b.begin(), b.begin() + N, a.begin()); return a; };
    for (std::size_t i = 1; i < ls.size(); i++) {
        auto c = words(ls[i]);
        if (c[0] == "m") {
            H h = from<H>(c[1]);
            F f = from<F>(c[2]);
            p.reset(new P(h, f));
            memset(&h, 0x77, sizeof h);    // the packet keeps its own copy
            memset(&f, 0x77, sizeof f);
            Ev e("make");
            e.arr("ah", of(from<H>(c[1]))).arr("af", of(from<F>(c[2])));
            reads(e);
        } else if (c[0] == "s") {
            H const h = from<H>(c[1]);
            F const f = from<F>(c[2]);
            auto a = P::serialize(h, f);
            Ev("ser").arr("ah", of(h)).arr("af", of(f)).arr("out", Bytes(a.begin(), a.end())).boolean("intact", true).put();
        } else if (c[0] == "w") {
            auto into = [&](auto&& box) {
                std::fill(box.begin(), box.end(), 0x5c);
                P::serialize(*p, box.begin() + 3);
                bool ok = true;
                for (std::size_t k = 0; k < box.size(); k++) if (k < 3 || k >= 3 + N) ok = ok && box[k] == 0x5c;
                Ev("write").arr("out", Bytes(box.begin() + 3, box.begin() + 3 + N)).boolean("intact", ok).put();
            };
            into(std::vector<std::uint8_t>(N + 7));
            into(std::vector<std::uint8_t>(N + 3));
            into(std::deque<std::uint8_t>(N + 3));
            into(std::array<std::uint8_t, N + 4>{});
        } else if (c[0] == "r") {
            auto b = unhex(c[2]);
            if (b.size() != N) _exit(78);
            if (c[1] == "a") p.reset(new P(arr(b)));
            else if (c[1] == "c") { auto const a = arr(b); p.reset(new P(std::move(a))); }
            else if (c[1] == "i") { std::unique_ptr<unsigned char[]> q(new unsigned char[N]); std::copy(b.begin(), b.end(), q.get()); p.reset(new P(q.get())); }
            else if (c[1] == "q") { std::deque<unsigned char> q(b.begin(), b.end()); p.reset(new P(q.begin())); }
            else if (c[1] == "d") { std::unique_ptr<unsigned char[]> q(new unsigned char[N]); std::copy(b.begin(), b.end(), q.get()); *p = P::deserialize((unsigned char const*)q.get()); }
            else if (c[1] == "l") { std::deque<unsigned char> q(b.begin(), b.end()); *p = P::deserialize(q.cbegin()); }
            else { P o(arr(b)); P k(o); *p = k; }
            Ev e("recv");
            e.arr("b", Bytes(b.begin(), b.end()));
            reads(e);
        } else if (c[0] == "k") {
            std::size_t k = std::stoul(c[1]);
            unsigned char v = (unsigned char)std::stoi(c[2]);
            auto set = [&]<class T>(T*, auto get, std::size_t at) {
                if constexpr (alignof(T) == 1) reinterpret_cast<unsigned char*>(std::addressof(get(*p)))[k - 1 - at] = v;
                else reinterpret_cast<unsigned char*>(p.get())[k - 1] = v;
            };
            if (k <= sizeof(H)) set((H*)nullptr, [](auto& q) -> auto& { return q.header(); }, 0);
            else if (k <= sizeof(H) + sizeof(F)) set((F*)nullptr, [](auto& q) -> auto& { return q.fields(); }, sizeof(H));
            else set((typename C::value_type*)nullptr, [](auto& q) -> auto& { return q.crc(); }, sizeof(H) + sizeof(F));
            Ev e("poke");
            e.num("i", k).num("b", v);
            reads(e);
        } else if (c[0] == "t") {
            auto b = unhex(c[2]);
            auto tup = [&](auto const& t) {
                Ev("tuple").arr("b", Bytes(b.begin(), b.end())).boolean("valid", std::get<0>(t)).arr("h", of(std::get<1>(t))).arr("f", of(std::get<2>(t))).put();
            };
            if (b.size() == N) { std::unique_ptr<std::array<std::uint8_t, N>> a(new std::array<std::uint8_t, N>); std::copy(b.begin(), b.end(), a->begin()); tup(P::deserialize(*a)); }
            else if (b.size() == N + 1) { std::array<std::uint8_t, N + 1> a; std::copy(b.begin(), b.end(), a.begin()); tup(P::deserialize(a)); }
            else if (b.size() == N + 9) { std::array<std::uint8_t, N + 9> a; std::copy(b.begin(), b.end(), a.begin()); tup(P::deserialize(a)); }
            else _exit(78);
        }
    }
}

template <std::size_t Max, class H, class F, class T, class C> static void frames(Lines const& ls)
{
    using A = packet_accessor<Max>;
    using In = typename A::template fields_in<H, F, T>;
    std::unique_ptr<A> a(new A);
    auto small = [](std::size_t v) -> long long { return v > 1000000000u ? -1 : (long long)v; };
    auto lo = [&] { return reinterpret_cast<unsigned char const*>(std::as_const(*a).storage().data()); };
    constexpr bool big = Max > 4096;
    auto state = [&](Ev& e) -> Ev& { return bytes(e, "store", lo(), Max, big).num("size", small(a->size())); };
    auto forget = [&] { shown_lo = shown_hi = nullptr; };
    auto inside = [&] { return !shown_lo || (shown_lo >= lo() && shown_hi <= lo() + Max); };
    {
        Ev e("init");
        state(e.str("kind", C::kind).num("hs", sizeof(H)).num("fs", sizeof(F)).num("ts", sizeof(T)).num("cap", Max).arr("pad", padding<H, F>())).put();
    }
    for (std::size_t i = 1; i < ls.size(); i++) {
        auto c = words(ls[i]);
        forget();
        if (c[0] == "s") {
            auto d = unhex(c[3]);
            std::size_t n = c.size() > 4 ? std::stoull(c[4]) : d.size() / sizeof(T);
            std::unique_ptr<unsigned char[]> mem(new unsigned char[d.size()]);    // nothing may be read beyond it
            std::copy(d.begin(), d.end(), mem.get());
            In const in{from<H>(c[1]), from<F>(c[2]), n, d.empty() ? nullptr : reinterpret_cast<T const*>(mem.get())};
            bool ok = a->template serialize<H, F, T, C>(in);
            Ev e("ser");
            e.arr("h", of(from<H>(c[1]))).arr("f", of(from<F>(c[2])));
            bytes(e, "d", d.data(), d.size(), big).num("n", small(n)).boolean("own", !d.empty() || n == 0).boolean("ok", ok).boolean("inside", inside());
            state(e).put();
        } else if (c[0] == "z") {
            a->size(std::stoull(c[1]));
            Ev e("size");
            state(e.num("v", small(std::stoull(c[1])))).put();
        } else if (c[0] == "k") {
            a->storage()[std::stoul(c[1]) - 1] = (std::uint8_t)std::stoi(c[2]);
            Ev e("poke");
            state(e.num("i", std::stoll(c[1])).num("b", std::stoi(c[2]))).put();
        } else if (c[0] == "r" || c[0] == "x") {
            std::vector<unsigned char> b;
            std::size_t v;
            if (c[0] == "x") {
                v = a->size();
                b.assign(lo(), lo() + std::min(v, Max));
                a.reset(new A);
                for (auto& s : a->storage()) s = 0xd7;
            } else { b = unhex(c[1]); v = std::stoull(c[2]); }
            if (b.size() > Max) _exit(78);
            std::copy(b.begin(), b.end(), a->storage().begin());
            a->size(v);
            Ev e("recv");
            state(bytes(e, "b", b.data(), b.size(), big).num("v", small(v))).put();
        } else if (c[0] == "d") {
            A const& k = *a;
            auto o = k.template deserialize<H, F, T, C>();
            bool in = inside();
            auto put = [&](auto const& h, auto const& f, bool valid, std::size_t n, T const* data) {
                Ev e("de");
                long long off = data ? reinterpret_cast<unsigned char const*>(data) - lo() : -1;
                bool const room = valid && off >= 0 && off <= (long long)Max && n <= (Max - off) / sizeof(T);
                e.boolean("valid", valid).arr("h", h).arr("f", f).num("n", small(n)).num("off", off < -1 || off > (long long)Max ? -2 : off).boolean("inside", in);
                bytes(e, "d", lo() + (room ? off : 0), room ? n * sizeof(T) : 0, big);
                state(e).put();
            };
            std::size_t n = o.size;
            T const* data = o.data;
            put(of(o.header), of(o.fields), o.valid, n, data);
            if (o.valid) {    // the unchecked view of the same frame
                auto u = k.template deserialize_no_check<H, F, T, C>();
                std::size_t un = u.size;
                T const* ud = u.data;
                put(ints(reinterpret_cast<unsigned char const*>(u.header), sizeof(H)), ints(reinterpret_cast<unsigned char const*>(u.fields), sizeof(F)), true, un, ud);
            }
        }
    }
}

int main()
{
    return main_loop([](Lines const& ls) {
        auto h = words(ls[0]);
        if (h[1] == "p") switch (std::stoi(h[2])) {
            case 0: packets<B1, B1, Toy>(ls); break;
            case 1: packets<M2, W1, C16>(ls); break;
            case 2: packets<M2, W11, F16m>(ls); break;
            case 3: packets<B1, D16, A32l>(ls); break;
            case 4: packets<K5, K7, A32m>(ls); break;
            case 5: packets<K7, B1, Raw8>(ls); break;
            case 6: packets<B1, P8, Raw16>(ls); break;
            case 7: packets<M2, L60, Q64>(ls); break;
            case 8: packets<T3, T3, F16l>(ls); break;
            case 9: packets<D16, K5, Sum8>(ls); break;
            case 10: packets<L130, L260, F16l>(ls); break;
        }
        else switch (std::stoi(h[2])) {
            case 0: frames<5, B1, B1, B1, Toy>(ls); break;
            case 1: frames<7, B1, B1, M2, Toy>(ls); break;
            case 2: frames<16, M2, B1, B1, C16>(ls); break;
            case 3: frames<17, M2, W1, W1, F16l>(ls); break;
            case 4: frames<64, K5, K7, D16, A32m>(ls); break;
            case 5: frames<40, B1, M2, T3, Q64>(ls); break;
            case 6: frames<255, M2, W1, P8, F16m>(ls); break;
            case 7: frames<4, B1, B1, M2, F16l>(ls); break;        // room for the fixed part alone
            case 8: frames<300, K7, P8, std::uint8_t, Sum8>(ls); break;
            case 10: frames<6, B1, B1, M2, Toy>(ls); break;
            case 11: frames<70001, K7, T3, std::uint8_t, Sum8>(ls); break;      // many
            case 12: frames<131100, M2, W1, T3, F16m>(ls); break;
            case 13: frames<4500, K5, K7, D16, F16l>(ls); break;
            case 9: frames<33, B1, B1, std::uint32_t, A32l>(ls); break;
        }
        Ev("done").put();
    });
}
