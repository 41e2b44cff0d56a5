// argv_parser.  S <table>; then P <token in hex, - for empty>.. parses one command line.
#include "common.hpp"
#include <xitren/func/argv_parser.hpp>
using namespace vh;

struct Opts {
    std::string s1{"first"}, s2{};
    int i1{11}, i2{-3};
    double d1{1.5}, d2{0};
    bool b1{false}, b2{true};
};
using Parser = xitren::func::argv_parser<Opts>;

static std::string codes(std::string const& t)
{
    std::string r = "[";
    for (std::size_t i = 0; i < t.size(); i++) r += (i ? "," : "") + std::to_string((unsigned char)t[i]);
    return r + "]";
}
static std::string dbl(double d)
{
    if (std::isnan(d)) return "\"nan\"";
    if (d > 1e6) return "\"big\"";
    if (d < -1e6) return "\"-big\"";
    double m = d * 1000;
    return m == std::floor(m) || std::fabs(m - std::round(m)) < 1e-6 ? "\"" + std::to_string((long)std::llround(m)) + "\"" : "\"odd\"";
}
static std::string show(Opts const& o)
{
    return "{\"s1\":" + codes(o.s1) + ",\"s2\":" + codes(o.s2) + ",\"i1\":\"" + std::to_string(o.i1) + "\",\"i2\":\"" + std::to_string(o.i2)
           + "\",\"d1\":" + dbl(o.d1) + ",\"d2\":" + dbl(o.d2) + ",\"b1\":" + (o.b1 ? "true" : "false") + ",\"b2\":" + (o.b2 ? "true" : "false") + "}";
}
static std::string unhex(std::string const& h)
{
    std::string r;
    if (h != "-") for (std::size_t i = 0; i + 1 < h.size(); i += 2) r += (char)std::stoi(h.substr(i, 2), nullptr, 16);
    return r;
}
static thread_local std::string table_json;
#define OPT(name, kind, member) (row(name, kind, #member), Parser::argument_type{name, &Opts::member})
static void row(std::string const& n, std::string const& k, std::string const& m)
{
    table_json += std::string(table_json.empty() ? "" : ",") + "{\"name\":" + codes(n) + ",\"kind\":\"" + k + "\",\"member\":\"" + m + "\"}";
}
static std::unique_ptr<Parser> make(int t)
{
    table_json.clear();
    switch (t) {
    case 0: return Parser::instance({OPT("-s", "text", s1), OPT("-n", "int", i1), OPT("-f", "flag", b1), OPT("--s", "text", s1)});
    case 1: return Parser::instance({OPT("-s", "text", s1), OPT("-n", "int", i1), OPT("-s", "int", i2), OPT("-n", "flag", b1), OPT("-m", "int", i1)});
    case 2: return Parser::instance({OPT("--name", "text", s1), OPT("--name2", "text", s2), OPT("--nam", "int", i1), OPT("-i", "int", i2), OPT("-d", "dbl", d1), OPT("--dd", "dbl", d2),
                                     OPT("-v", "flag", b1), OPT("-vv", "flag", b2)});
    case 3: return Parser::instance({OPT("", "text", s1), OPT("a b", "text", s2), OPT("5", "int", i1), OPT("-5", "dbl", d1)});
    case 4: return Parser::instance({});
    case 5: return Parser::instance({OPT("-d", "dbl", d1), OPT("-e", "dbl", d2), OPT("-n", "int", i1), OPT("-m", "int", i2)});
    case 7: {    // names that differ only far behind, or in the case of a letter
        static std::string const l(20, 'l'), m(70, 'm'), n(300, 'n');
        return Parser::instance({OPT("--" + l + "1", "text", s1), OPT("--" + l + "2", "text", s2), OPT("--" + m + "1", "int", i1), OPT("--" + m + "2", "int", i2), OPT("--" + n + "1", "dbl", d1),
                                 OPT("--" + n + "2", "dbl", d2), OPT("-F", "flag", b1), OPT("-f", "flag", b2), OPT("--" + l, "int", i2), OPT("-\xe9", "text", s2), OPT("-\x69", "text", s1)});
    }
    case 8: {    // many of them
#define FOUR(x) OPT("--text-" x, "text", s1), OPT("--int-" x, "int", i1), OPT("--dbl-" x, "dbl", d1), OPT("--flag-" x, "flag", b1)
#define MORE(x) OPT("--text-" x, "text", s2), OPT("--int-" x, "int", i2), OPT("--dbl-" x, "dbl", d2), OPT("--flag-" x, "flag", b2)
        return Parser::instance({FOUR("0"), MORE("1"), FOUR("2"), MORE("3"), FOUR("4"), MORE("5"), FOUR("6"), MORE("7"), FOUR("8"), MORE("9"), FOUR("10"), MORE("11"), FOUR("12"), MORE("13"),
                                 FOUR("14"), MORE("15"), FOUR("16"), MORE("17")});
    }
    default: return Parser::instance({OPT("z", "flag", b1), OPT("y", "flag", b1), OPT("x", "text", s1), OPT("w", "int", i1), OPT("a", "dbl", d1), OPT("b", "text", s2)});
    }
}

int main()
{
    return main_loop([](Lines const& ls) {
        auto p = make(std::stoi(words(ls[0])[1]));
        Ev("init").raw("table", "[" + table_json + "]").raw("vals", show(static_cast<Opts&>(*p))).put();
        for (std::size_t i = 1; i < ls.size(); i++) {
            auto w = words(ls[i]);
            std::vector<std::string> t;
            for (std::size_t k = 1; k < w.size(); k++) t.push_back(unhex(w[k]));
            // every argument in memory of its own, so that reading beyond it shows
            std::vector<std::unique_ptr<char[]>> mem;
            std::vector<char const*> av;
            std::string js;
            for (auto& x : t) {
                mem.emplace_back(new char[x.size() + 1]);
                memcpy(mem.back().get(), x.c_str(), x.size() + 1);
                av.push_back(mem.back().get());
                js += (js.empty() ? "" : ",") + codes(x);
            }
            std::unique_ptr<char const*[]> arr(new char const*[av.size()]);
            std::copy(av.begin(), av.end(), arr.get());
            Opts o;
            try {
                o = p->parse((int)av.size(), arr.get());
            } catch (std::exception const& e) {
                Ev("raised").str("what", e.what()).put();
                return;
            }
            for (auto& m : mem) memset(m.get(), '!', strlen(m.get()));    // the options own their text
            Ev("parse").raw("argv", "[" + js + "]").raw("vals", show(o)).raw("kept", show(static_cast<Opts&>(*p))).put();
        }
        Ev("done").put();
    });
}
