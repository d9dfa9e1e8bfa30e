// Helpers shared by the drivers: token input and JSON output.
// A driver reads one operation per line (tokens separated by blanks; a list is its
// length followed by its items) and answers with one line {"r": ..., "o": ...}.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <utility>
#include <vector>

#include "life.hpp"

namespace drv {
[[noreturn]] inline void protocol(std::string const &s) {
    std::fprintf(stderr, "protocol: %s\n", s.c_str());
    std::_Exit(3);
}
// the code under test did something no legal use of it may lead to
[[noreturn]] inline void fail(std::string const &s) {
    std::fprintf(stderr, "ERROR: %s\n", s.c_str());
    std::_Exit(9);
}

constexpr auto is_blank(char c) -> bool { return c == ' ' or c == '\t' or c == '\r' or c == '\n'; }
struct in {
    std::string text;
    std::size_t pos = 0;
    std::string *out = nullptr; // collects the answer instead of stdout
    std::string op;
    constexpr explicit in(std::string const &l, std::string *o = nullptr) : text{l}, out{o} { op = word(); }
    constexpr auto word() -> std::string {
        while (pos < text.size() and is_blank(text[pos])) {
            ++pos;
        }
        auto const b = pos;
        while (pos < text.size() and not is_blank(text[pos])) {
            ++pos;
        }
        return text.substr(b, pos - b);
    }
    constexpr auto num() -> long long {
        auto const w = word();
        bool const neg = not w.empty() and w[0] == '-';
        if (w.size() == (neg ? 1 : 0)) {
            protocol("number expected for " + op);
        }
        unsigned long long v{};
        for (std::size_t k = neg ? 1 : 0; k < w.size(); ++k) {
            if (w[k] < '0' or w[k] > '9') {
                protocol("number expected for " + op);
            }
            v = v * 10 + static_cast<unsigned long long>(w[k] - '0');
        }
        return static_cast<long long>(neg ? 0 - v : v);
    }
    constexpr auto n() -> std::size_t { return static_cast<std::size_t>(num()); }
    constexpr auto b() -> bool { return num() != 0; }
    constexpr auto str() -> std::string {
        auto const v = word();
        if (v.empty()) {
            protocol("string expected for " + op);
        }
        return v;
    }
    constexpr auto list() -> std::vector<long long> {
        std::vector<long long> v(n());
        for (auto &x : v) {
            x = num();
        }
        return v;
    }
    constexpr void answer(std::string const &r, std::string const &o) const {
        if (out != nullptr) {
            *out += "{\"r\":" + r + ",\"o\":" + o + "}\n";
        } else {
            print("{\"r\":" + r + ",\"o\":" + with_lives(o) + "}\n");
        }
    }
    // recorded lifetimes go along as the field "l"
    static auto with_lives(std::string const &o) -> std::string {
#ifdef DRV_LIFE
        auto const l = "{\"l\":" + life::taken();
        return o.size() > 2 and o[0] == '{' ? l + "," + o.substr(1) : l + "}";
#else
        return o;
#endif
    }
    static void print(std::string const &line) {
        std::fwrite(line.data(), 1, line.size(), stdout);
        std::fflush(stdout);
    }
};

// ---- JSON values as strings
constexpr auto js(bool b) -> std::string { return b ? "true" : "false"; }
template <typename T>
    requires(std::is_integral_v<T> and not std::is_same_v<T, bool>)
constexpr auto js(T v) -> std::string {
    char buf[24]{};
    auto p = sizeof(buf);
    bool const neg = v < 0;
    auto u = neg ? 0 - static_cast<unsigned long long>(v) : static_cast<unsigned long long>(v);
    do {
        buf[--p] = static_cast<char>('0' + u % 10);
        u /= 10;
    } while (u != 0);
    if (neg) {
        buf[--p] = '-';
    }
    return std::string(buf + p, sizeof(buf) - p);
}
constexpr auto js(std::string const &v) -> std::string { return "\"" + v + "\""; }
constexpr auto js(char const *v) -> std::string { return js(std::string{v}); }
template <typename T> constexpr auto js(std::vector<T> const &v) -> std::string;
template <typename A, typename B>
constexpr auto js(std::pair<A, B> const &p) -> std::string {
    return "[" + js(p.first) + "," + js(p.second) + "]";
}
template <typename T> constexpr auto js(std::vector<T> const &v) -> std::string {
    std::string r = "[";
    bool first = true;
    for (auto const &x : v) {
        if (!first) {
            r += ",";
        }
        first = false;
        r += js(static_cast<T>(x));
    }
    return r + "]";
}
constexpr auto js() -> std::string { return "[]"; }

struct obj {
    std::string s = "{";
    bool first = true;
    template <typename T> constexpr auto operator()(char const *k, T const &v) -> obj & {
        return raw(k, js(v));
    }
    constexpr auto raw(char const *k, std::string const &v) -> obj & {
        if (!first) {
            s += ",";
        }
        first = false;
        s += "\"";
        s += k;
        s += "\":";
        s += v;
        return *this;
    }
    constexpr auto done() const -> std::string { return s + "}"; }
};

inline void answer([[maybe_unused]] std::string const &r, [[maybe_unused]] std::string const &o) {
#ifndef DRV_LIFE
    in::print("{\"r\":" + r + ",\"o\":" + o + "}\n");
#endif
}

#ifdef DRV_LIFE
// what happened to objects since the last time
inline void flush() { in::print("{\"r\":[],\"o\":" + in::with_lives("") + "}\n"); }
#endif

// value as list of set bit positions
template <typename T> constexpr auto bits_of(T v) -> std::vector<int> {
    std::vector<int> r;
    for (int i = 0; i < 64; ++i) {
        if ((static_cast<std::uint64_t>(v) >> i) & 1u) {
            r.push_back(i);
        }
    }
    return r;
}
constexpr auto from_bits(std::vector<long long> const &b) -> std::uint64_t {
    std::uint64_t v{};
    for (auto i : b) {
        v |= std::uint64_t{1} << i;
    }
    return v;
}
// value as 8-bit limbs, least significant first
template <typename T> constexpr auto limbs(T v) -> std::vector<int> {
    std::vector<int> r;
    auto u = static_cast<std::make_unsigned_t<T>>(v);
    for (std::size_t i = 0; i < sizeof(T); ++i) {
        r.push_back(static_cast<int>((static_cast<std::uint64_t>(u) >> (8 * i)) & 0xff));
    }
    return r;
}
template <typename T> constexpr auto from_limbs(std::vector<long long> const &b) -> T {
    std::uint64_t v{};
    for (std::size_t i = 0; i < b.size() and i < 8; ++i) {
        v |= static_cast<std::uint64_t>(b[i] & 0xff) << (8 * i);
    }
    return static_cast<T>(v);
}

template <typename F> auto loop(F &&f) -> int {
    std::string line;
    while (std::getline(std::cin, line)) {
        in i{line};
        if (i.op.empty()) {
            continue;
        }
        f(i);
    }
    return 0;
}

// two of a kind (the compiler's evaluation of an array of class objects has defects)
template <typename T> struct two {
    T a;
    T b;
    constexpr two()
        requires(std::is_class_v<T>)
    {} // as written by the library, not zeroed
    constexpr two()
        requires(not std::is_class_v<T>)
        : a{}, b{} {}
    constexpr two(T x, T y) : a{std::move(x)}, b{std::move(y)} {}
    constexpr auto operator[](std::size_t k) -> T & { return k == 0 ? a : b; }
    constexpr auto operator[](std::size_t k) const -> T const & { return k == 0 ? a : b; }
};

// a copy; made by assignment where the compiler evaluates it wrongly otherwise
template <typename T> constexpr auto copied(T const &x) -> T {
    if consteval {
        T t{};
        t = x;
        return t;
    } else {
        return x;
    }
}

// ---- the same histories, evaluated by the compiler
// Runs a script (operations separated by ';') on what make gives for its "new" operations.
template <typename Cur, typename Make>
constexpr void play(Cur &cur, char const *script, Make make, std::string &out) {
    std::string line;
    for (auto p = script;; ++p) {
        if (*p != ';' and *p != '\0') {
            line += *p;
            continue;
        }
        if (not line.empty()) {
            in i{line, &out};
            if (i.op == "new") {
                cur = make(i);
            }
            cur->exec(i);
            line.clear();
        }
        if (*p == '\0') {
            return;
        }
    }
}
template <typename Make> constexpr auto replay(char const *script, Make make) -> std::string {
    std::string out;
    decltype(make(std::declval<in &>())) cur{};
    play(cur, script, make, out);
    return out;
}
template <std::size_t N> struct text {
    std::size_t n{};
    char c[N]{};
};
template <std::size_t N> constexpr auto held_in(std::string const &s) -> text<N> {
    text<N> t{};
    for (char x : s) {
        if (t.n < N) {
            t.c[t.n] = x;
        }
        ++t.n;
    }
    return t;
}
// Prints what the compiler gave, after comparing it with what running the same history gives.
template <std::size_t N> void compare(text<N> const &ct, std::string const &r, std::string const &what) {
    if (ct.n > N) {
        protocol("answers too long");
    }
    std::string const c(ct.c, ct.n);
    if (c != r) {
        std::size_t k = 0;
        std::size_t line = 1;
        while (k < c.size() and k < r.size() and c[k] == r[k]) {
            line += c[k++] == '\n' ? 1 : 0;
        }
        auto const from = c.rfind('\n', k) + 1;
        fail("operation " + std::to_string(line) + " of \"" + what + "\" answered " +
             c.substr(from, c.find('\n', k) - from) + " when evaluated by the compiler, " +
             r.substr(from, r.find('\n', k) - from) + " when run");
    }
    in::print(c);
}
template <std::size_t N, typename Make> constexpr auto fixed(char const *script, Make make) -> text<N> {
    return held_in<N>(replay(script, make));
}
template <std::size_t N, typename Make> void report(text<N> const &ct, char const *script, Make make) {
    compare(ct, replay(script, make), script);
}
// A constant: what the script leaves behind, which must go on as the objects at run time do.
template <std::size_t N, typename K> struct text_and {
    text<N> t;
    K k;
};
template <std::size_t N, typename Make> constexpr auto kept(char const *script, Make make) {
    std::string out;
    decltype(make(std::declval<in &>())) cur{};
    play(cur, script, make, out);
    return text_and<N, decltype(cur->kept())>{held_in<N>(out), cur->kept()};
}
template <std::size_t N, typename K, typename Make>
void report_kept(text_and<N, K> const &c, char const *first, char const *script, char const *next, Make make) {
    std::string out, from_constant, from_objects;
    decltype(make(std::declval<in &>())) cur{};
    play(cur, script, make, out);
    compare(c.t, out, script);
    play(cur, next, make, from_objects);
    play(cur, first, make, out);
    cur->restore(c.k);
    play(cur, next, make, from_constant);
    if (from_constant != from_objects) {
        fail("\"" + std::string{next} + "\" on the constant made by \"" + script + "\" answered " + from_constant +
             ", on the objects made at run time " + from_objects);
    }
    in::print(from_constant);
}
// the same for single calls
constexpr auto answered(std::string const &r, std::string const &o) -> std::string {
    return "{\"r\":" + r + ",\"o\":" + o + "}\n";
}
template <std::size_t N, typename F> constexpr auto fixed_call(F f) -> text<N> { return held_in<N>(f()); }
template <std::size_t N, typename F> void report_call(text<N> const &ct, F f) { compare(ct, f(), "a call"); }
} // namespace drv
