// Byte strings, slots, booleans, hex helpers and integer functions: one command per line, one JSON outcome per line.
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <functional>
#include <limits>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <utility>
#include <vector>

#include "common/boolean.hpp"
#include "common/bytes.hpp"
#include "common/slot.hpp"
#include "helpers/bytes_to_int.hpp"
#include "helpers/bytes_to_string.hpp"
#include "helpers/math.hpp"

using namespace eth;
using bytes = std::vector<std::uint8_t>;

static bytes unhex(const std::string &s) {
    bytes r;
    if (s == "-") return r;
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
template <class R>
static std::string arr(const R &b) {
    std::string s = "[";
    bool first = true;
    for (unsigned x : b) {
        if (!first) s += ',';
        first = false;
        s += std::to_string(x);
    }
    return s + "]";
}
static std::string le(std::uint64_t v, std::size_t w) {
    bytes b;
    for (std::size_t i = 0; i < w; ++i) b.push_back(v >> (8 * i));
    return arr(b);
}
static std::uint64_t num(const bytes &b) {
    std::uint64_t v = 0;
    for (std::size_t i = b.size(); i-- > 0;) v = v << 8 | b[i];
    return v;
}
static std::string str(const bytes &b) { return std::string(b.begin(), b.end()); }
static std::string text(const std::string &s) { return arr(bytes(s.begin(), s.end())); }
static std::string flag(bool b) { return b ? "true" : "false"; }

template <std::size_t N>
static Bytes<N> make(const bytes &b) {
    std::array<std::uint8_t, N> a{};
    std::copy_n(b.begin(), N, a.begin());
    return Bytes<N>(a);
}
using Sizes = std::index_sequence<1, 2, 3, 4, 5, 8, 16, 20, 31, 32, 33, 48, 64, 96>;
using Others = std::index_sequence<1, 4, 8, 20, 32, 48, 96>;
template <class F, std::size_t... Ns>
static std::string pick(std::size_t n, F f, std::index_sequence<Ns...>) {
    std::string out;
    if (!((n == Ns && (out = f(std::integral_constant<std::size_t, Ns>{}), true)) || ...)) {
        std::fprintf(stderr, "no such size %zu\n", n);
        _exit(3);
    }
    return out;
}
template <class F>
static std::string sized(std::size_t n, F f) { return pick(n, f, Sizes{}); }

static std::string on_text(const std::function<std::string()> &f) {
    try { return "{\"x\":false,\"r\":" + f() + "}"; }
    catch (const std::exception &) { return "{\"x\":true,\"r\":[]}"; }
}

template <class T>
static T root_of(char f, T x) { return f == 's' ? helpers::integer_squareroot<T>(x) : helpers::ct_sqrt<T>(x); }
template <class T>
static std::uint64_t math(char f, T x) {
    return f == 'l' ? (std::uint64_t)helpers::log2ceil(x) : root_of<T>(f, x);
}
struct Run { std::uint64_t lo, hi, r; };
// maximal intervals on which f is constant
template <class T>
static std::vector<Run> sweep(char f, std::uint64_t lo, std::uint64_t hi, std::size_t cap) {
    std::vector<Run> runs;
    for (std::uint64_t x = lo;; ++x) {
        std::uint64_t r = math<T>(f, (T)x);
        if (!runs.empty() && runs.back().r == r) runs.back().hi = x;
        else {
            if (runs.size() == cap) break;
            runs.push_back({x, x, r});
        }
        if (x == hi) break;
    }
    return runs;
}

static std::string run(const std::string &line) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    auto hex = [&] { std::string s; in >> s; return unhex(s); };
    auto size = [&] { std::size_t n; in >> n; return n; };
    if (op == "fi") {
        auto n = size(), w = size();
        auto v = num(hex());
        return sized(n, [&](auto N) -> std::string {
            std::string outs;
            auto from = [&]<class... I>(I...) { ((outs += (outs.empty() ? "" : ",") + arr(Bytes<N>(I(v)).serialize())), ...); };
            // the same bits as an unsigned and as a signed integer
            if (w == 1) {
                from(std::uint8_t{}, std::int8_t{}, char{});
                if (v < 2) from(bool{});
            }
            if constexpr (N >= 2) if (w == 2) from(std::uint16_t{}, std::int16_t{});
            if constexpr (N >= 4) if (w == 4) from(std::uint32_t{}, std::int32_t{});
            if constexpr (N >= 8) if (w == 8) from(std::uint64_t{}, std::int64_t{}, 0ull, 0ll);
            return "{\"outs\":[" + outs + "]}";
        });
    }
    if (op == "ti") {
        auto n = size();
        auto b = hex();
        auto go = [&](auto N, auto t) { using T = decltype(t);
            const auto x = make<N>(b);
            return "{\"r\":" + le(x.template to_integer_little_endian<T>(), N) + ",\"h\":" +
                   le(helpers::to_integer_little_endian<T>(b.data()), N) + "}"; };
        if (n == 1) return go(std::integral_constant<std::size_t, 1>{}, std::uint8_t{});
        if (n == 2) return go(std::integral_constant<std::size_t, 2>{}, std::uint16_t{});
        if (n == 4) return go(std::integral_constant<std::size_t, 4>{}, std::uint32_t{});
        return go(std::integral_constant<std::size_t, 8>{}, std::uint64_t{});
    }
    if (op == "tx") {
        auto n = size();
        auto b = hex();
        return sized(n, [&](auto N) {
            const auto x = make<N>(b);
            return "{\"r\":" + text(x.to_string()) + ",\"h\":" + text(helpers::bytes_to_string(b)) + "}"; });
    }
    if (op == "ps") {
        auto n = size(), how = size();
        auto s = str(hex());
        return sized(n, [&](auto N) {
            return on_text([&] {
                if (how == 0) { std::string_view v{s}; return arr(Bytes<N>(v).to_array()); }
                if (how == 1) return arr(Bytes<N>(std::string_view{s}).to_array());
                auto x = make<N>(bytes(N, 0xa5));
                x.from_string(s);
                return arr(x.to_array());
            }); });
    }
    if (op == "cat") {
        auto n = size(), m = size();
        auto a = hex(), b = hex();
        return sized(n, [&](auto N) { return pick(m, [&](auto M) {
            const auto x = make<N>(a); const auto y = make<M>(b);
            auto z = x + y;
            return "{\"r\":" + arr(z.to_array()) + ",\"n\":" + std::to_string(z.size()) + "}"; }, Others{}); });
    }
    if (op == "xor") {
        auto n = size();
        auto a = hex(), b = hex();
        return sized(n, [&](auto N) {
            auto x = make<N>(a); const auto y = make<N>(b);
            x ^= y;
            auto once = arr(x.to_array());
            x ^= y;
            return "{\"r\":" + once + ",\"back\":" + arr(x.to_array()) + ",\"right\":" + arr(y.to_array()) + "}"; });
    }
    if (op == "ix") {
        auto n = size();
        auto b = hex();
        return sized(n, [&](auto N) {
            auto x = make<N>(b); const auto &c = x;
            bytes i, j, k(x.begin(), x.end()), l(c.cbegin(), c.cend()), m(x.data(), x.data() + N), v = x, s = c.serialize();
            for (std::size_t p = 0; p < N; ++p) { i.push_back(x[p]); j.push_back(c[p]); }
            return "{\"outs\":[" + arr(i) + "," + arr(j) + "," + arr(k) + "," + arr(l) + "," + arr(m) + "," + arr(v) + "," +
                   arr(s) + "," + arr(c.to_array()) + "],\"n\":" + std::to_string(c.size()) + ",\"m\":" + std::to_string(c.get_ssz_size()) + "}"; });
    }
    if (op == "wr") {
        auto n = size(), how = size();
        auto b = hex();
        auto i = size(), v = size();
        return sized(n, [&](auto N) {
            auto x = make<N>(b);
            if (how == 0) x[i] = v;
            else if (how == 1) *(x.begin() + i) = v;
            else x.data()[i] = v;
            return "{\"r\":" + arr(x.serialize()) + "}"; });
    }
    if (op == "eq") {
        auto n = size(), m = size();
        auto a = hex(), b = hex();
        return sized(n, [&](auto N) { return pick(m, [&](auto M) {
            const auto x = make<N>(a); const auto y = make<M>(b);
            return "{\"eq\":" + flag(x == y) + ",\"ne\":" + flag(x != y) + ",\"sw\":" + flag(y == x) + "}"; }, Others{}); });
    }
    if (op == "ev") {
        auto n = size();
        auto a = hex(), b = hex();
        return sized(n, [&](auto N) {
            const auto x = make<N>(a); const bytes &y = b;
            return "{\"eq\":" + flag(x == y) + ",\"ne\":" + flag(x != y) + ",\"sw\":" + flag(y == x) + "}"; });
    }
    if (op == "slot") {
        auto v = num(hex());
        const Slot s{v};
        Slot t, u;
        std::uint64_t &r = t;
        r = v;
        u = s;
        Bytes8 b = s, c = t;
        auto ser = s.serialize();
        Slot d;
        bool ok = d.deserialize(ser.begin(), ser.end());
        return "{\"outs\":[" + arr(b.to_array()) + "," + arr(c.to_array()) + "," + arr(ser) + "," + le(std::uint64_t(s), 8) + "," +
               le(std::uint64_t(u), 8) + "," + (ok ? le(std::uint64_t(d), 8) : "[]") + "]}";
    }
    if (op == "bool") {
        bool v = size();
        const Boolean b{v};
        Boolean t;
        bool &r = t;
        r = v;
        Bytes1 y = b, z = t;
        return "{\"outs\":[" + arr(y.to_array()) + "," + arr(z.to_array()) + "," + arr(b.serialize()) + "," + arr(t.serialize()) +
               "," + le(bool(b), 1) + "]}";
    }
    if (op == "hx") {
        char c = (char)size();
        return on_text([&] { return "[" + std::to_string(helpers::hextoint(c)) + "]"; });
    }
    if (op == "hs") {
        auto s = str(hex());
        return on_text([&] { return "[" + std::to_string(helpers::strhex2int(s)) + "]"; });
    }
    if (op == "math") {
        char f;
        in >> f;
        auto w = size();
        auto x = num(hex());
        auto r = w == 4 ? math<std::uint32_t>(f, x) : math<std::uint64_t>(f, x);
        return "{\"r\":" + le(r, w) + "}";
    }
    if (op == "sweep") {
        char f;
        in >> f;
        auto w = size();
        auto lo = num(hex()), hi = num(hex());
        auto cap = size();
        unsigned parts = hi - lo > 1000000 ? 64 : 1, k = std::max(1u, std::thread::hardware_concurrency());
        std::vector<std::vector<Run>> got(parts);
        std::vector<std::thread> ts;
        for (unsigned t = 0; t < (parts > 1 ? k : 1); ++t)
            ts.emplace_back([&, t] {
                for (unsigned p = t; p < parts; p += parts > 1 ? k : 1) {
                    auto step = (hi - lo) / parts;
                    auto a = lo + step * p + (p ? 1 : 0), b = p + 1 == parts ? hi : lo + step * (p + 1);
                    got[p] = w == 4 ? sweep<std::uint32_t>(f, a, b, cap) : sweep<std::uint64_t>(f, a, b, cap);
                }
            });
        for (auto &t : ts) t.join();
        std::vector<Run> all;
        for (auto &g : got) for (auto &x : g)
            if (!all.empty() && all.back().r == x.r && all.back().hi + 1 == x.lo) all.back().hi = x.hi;
            else all.push_back(x);
        std::string s;
        for (auto &x : all) s += (s.empty() ? "" : ",") + ("[" + le(x.lo, w) + "," + le(x.hi, w) + "," + le(x.r, w) + "]");
        return "{\"runs\":[" + s + "]}";
    }
    std::fprintf(stderr, "unknown command %s\n", line.c_str());
    _exit(3);
}

int main(int argc, char **argv) {
    std::ifstream f(argv[1]);
    std::vector<std::string> lines;
    for (std::string l; std::getline(f, l);) lines.push_back(l);
    std::size_t start = argc > 2 ? std::stoul(argv[2]) : 0;
    for (std::size_t i = start; i < lines.size(); ++i) {
        alarm(300);
        auto s = run(lines[i]);
        std::printf("{\"i\":%zu,%s\n", i, s.c_str() + 1);
        if (i % 256 == 0 || lines[i].rfind("sweep", 0) == 0) std::fflush(stdout);
    }
    return 0;
}
