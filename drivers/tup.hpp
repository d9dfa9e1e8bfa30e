// Element types and printing for the tuple cases. Every element type has a one-letter name and an
// integer value; copies and moves are counted, and a moved-from object shows the value -1.
#pragma once
#include "drv.hpp"

#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>
#include <stdx/tuple_destructure.hpp>

#include <array>
#include <compare>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>

namespace tv {
inline long copies = 0;
constexpr void counted() {
    if not consteval {
        ++copies;
    }
}
constexpr auto copies_made() -> long {
    if consteval {
        return 0; // not counted by the compiler
    } else {
        return copies;
    }
}

template <char C> struct key; // incomplete: a pure name

template <char C> struct el;
template <char C> constexpr auto val(el<C> const &e) -> long {
    life::read(&e, e.v);
    return e.v;
}
template <char C> struct el {
    using key_t = key<C>;
    long v{};
    constexpr el() { life::made(this, v); }
    constexpr explicit el(long x) : v{x} { life::made(this, v); }
    constexpr el(el const &o) : v{o.v} {
        counted();
        life::took('c', this, &o);
    }
    constexpr el(el &&o) noexcept : v{std::exchange(o.v, -1)} { life::took('m', this, &o); }
    constexpr auto operator=(el const &o) -> el & {
        life::took('C', this, &o);
        v = o.v;
        counted();
        return *this;
    }
    constexpr auto operator=(el &&o) noexcept -> el & {
        life::took('M', this, &o);
        v = std::exchange(o.v, -1);
        return *this;
    }
#ifdef DRV_LIFE
    constexpr ~el() { life::gone(this); }
#endif
    friend constexpr auto operator==(el const &a, el const &b) -> bool { return val(a) == val(b); }
    friend constexpr auto operator<=>(el const &a, el const &b) { return val(a) <=> val(b); }
};
// only movable
template <> struct el<'M'> {
    using key_t = key<'M'>;
    long v{};
    constexpr explicit el(long x) : v{x} { life::made(this, v); }
    constexpr el(el &&o) noexcept : v{std::exchange(o.v, -1)} { life::took('m', this, &o); }
    constexpr auto operator=(el &&o) noexcept -> el & {
        life::took('M', this, &o);
        v = std::exchange(o.v, -1);
        return *this;
    }
#ifdef DRV_LIFE
    constexpr ~el() { life::gone(this); }
#endif
    friend constexpr auto operator==(el const &a, el const &b) -> bool { return val(a) == val(b); }
    friend constexpr auto operator<=>(el const &a, el const &b) { return val(a) <=> val(b); }
};
// partially ordered: 99 is unordered with everything, itself included
template <> struct el<'P'> {
    using key_t = key<'P'>;
    long v{};
    constexpr explicit el(long x) : v{x} {}
    friend constexpr auto operator==(el const &a, el const &b) -> bool { return a.v != 99 and a.v == b.v; }
    friend constexpr auto operator<=>(el const &a, el const &b) -> std::partial_ordering {
        if (a.v == 99 or b.v == 99) {
            return std::partial_ordering::unordered;
        }
        return a.v <=> b.v;
    }
};
// an empty class: its value is always 0
struct none {
    using key_t = key<'E'>;
    constexpr none() = default;
    constexpr explicit none(long) {}
    friend constexpr auto operator==(none, none) -> bool { return true; }
    friend constexpr auto operator<=>(none, none) { return std::strong_ordering::equal; }
};
// what a counted call returns: N numbers the call at compile time, v at run time
template <int N> struct tok {
    using key_t = key<'T'>;
    long v{};
};

template <char C> struct type_named {
    using type = el<C>;
};
template <> struct type_named<'S'> {
    using type = std::string;
};
template <> struct type_named<'I'> {
    using type = int;
};
template <> struct type_named<'L'> {
    using type = long;
};
template <> struct type_named<'E'> {
    using type = none;
};
template <char C> using ty = typename type_named<C>::type;

template <char C> constexpr auto mk(long v) -> ty<C> {
    if constexpr (C == 'S') {
        return "s" + drv::js(v);
    } else {
        return ty<C>(v);
    }
}
template <char C> constexpr auto name_of(el<C> const &) -> char { return C; }
constexpr auto name_of(std::string const &) -> char { return 'S'; }
constexpr auto name_of(int const &) -> char { return 'I'; }
constexpr auto name_of(long const &) -> char { return 'L'; }
constexpr auto name_of(none const &) -> char { return 'E'; }
template <int N> constexpr auto name_of(tok<N> const &) -> char { return 'T'; }
constexpr auto number(std::string const &s) -> long {
    long n = 0;
    for (auto c : s.substr(1)) {
        n = n * 10 + (c - '0');
    }
    return n;
}
constexpr auto val(std::string const &s) -> long { return s.empty() ? -1 : number(s); }
constexpr auto val(int const &v) -> long { return v; }
constexpr auto val(long const &v) -> long { return v; }
constexpr auto val(none const &) -> long { return 0; }
template <int N> constexpr auto val(tok<N> const &t) -> long { return t.v; }

template <typename T> struct depth : std::integral_constant<int, 0> {};
template <int N> struct depth<tok<N>> : std::integral_constant<int, N> {};

// projections on types
template <typename T> using key_for = typename std::remove_cvref_t<T>::key_t;
struct low;
struct mid_high;
template <typename T> struct grouping {
    using type = std::remove_cvref_t<T>;
};
template <> struct grouping<el<'A'>> {
    using type = mid_high;
};
template <> struct grouping<el<'B'>> {
    using type = low;
};
template <> struct grouping<el<'C'>> {
    using type = mid_high;
};
template <> struct grouping<el<'D'>> {
    using type = low;
};
template <typename T> using group_of = typename grouping<std::remove_cvref_t<T>>::type;
template <typename T> struct is_ac : std::bool_constant<false> {};
template <> struct is_ac<el<'A'>> : std::bool_constant<true> {};
template <> struct is_ac<el<'C'>> : std::bool_constant<true> {};

// ---- printing
constexpr auto quoted(char c) -> std::string { return std::string{"\""} + c + "\""; }
template <typename T> constexpr auto je(T const &x) -> std::string {
    return "[" + quoted(name_of(x)) + "," + drv::js(val(x)) + "]";
}
template <typename T> constexpr auto cat_of() -> std::string {
    if constexpr (std::is_rvalue_reference_v<T>) {
        return std::is_const_v<std::remove_reference_t<T>> ? "k" : "r";
    } else if constexpr (std::is_lvalue_reference_v<T>) {
        return std::is_const_v<std::remove_reference_t<T>> ? "c" : "l";
    } else {
        return "v";
    }
}
// value and value category of an expression of type T
template <typename T> constexpr auto jc(T &&x) -> std::string {
    return "[" + quoted(name_of(x)) + "," + drv::js(val(x)) + "," + drv::js(cat_of<T &&>()) + "]";
}
constexpr auto join(std::vector<std::string> const &v) -> std::string {
    std::string s = "[";
    for (std::size_t i = 0; i < v.size(); ++i) {
        s += (i ? "," : "") + v[i];
    }
    return s + "]";
}
template <typename T> constexpr bool tuplish = requires { T::is_tuple; } or stdx::is_specialization_of_v<T, std::tuple>;
template <typename T> constexpr auto jt(T const &t) -> std::string;
template <typename T> constexpr auto jx(T const &x) -> std::string {
    if constexpr (requires { name_of(x); }) {
        return je(x);
    } else {
        return jt(x);
    }
}
template <typename T> constexpr auto jt(T const &t) -> std::string {
    std::vector<std::string> v;
    using std::get;
    using stdx::get;
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        (v.push_back(jx(get<Is>(t))), ...);
    }(std::make_index_sequence<stdx::tuple_size_v<T>>{});
    return join(v);
}
template <typename T> constexpr auto type_letter() -> char {
    char r = '?';
    auto see = [&]<char C>() {
        if (std::is_same_v<ty<C>, T>) {
            r = C;
        }
    };
    see.template operator()<'A'>(), see.template operator()<'B'>(), see.template operator()<'C'>(),
        see.template operator()<'D'>(), see.template operator()<'M'>(), see.template operator()<'P'>(),
        see.template operator()<'S'>(), see.template operator()<'I'>(), see.template operator()<'L'>(),
        see.template operator()<'E'>();
    return r;
}

// the types of the elements, and whether each is a reference
template <typename T> constexpr auto jtypes() -> std::string {
    std::vector<std::string> v;
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        auto one = [&]<typename E>() {
            if constexpr (requires(std::remove_cvref_t<E> const &e) { name_of(e); }) {
                char n = 'T';
                if constexpr (not(depth<std::remove_cvref_t<E>>::value > 0)) {
                    n = type_letter<std::remove_cvref_t<E>>();
                }
                v.push_back("[" + quoted(n) + "," + drv::js(cat_of<E>()) + "]");
            } else {
                v.push_back(jtypes<E>());
            }
        };
        (one.template operator()<stdx::tuple_element_t<Is, T>>(), ...);
    }(std::make_index_sequence<stdx::tuple_size_v<T>>{});
    return join(v);
}
// contents afterwards; an rvalue's elements must not have been copied
template <typename T> constexpr auto after(T const &t, char cat) -> std::string {
    auto n = copies_made();
    if (cat == 'r') {
        return "{\"t\":[],\"copies\":" + drv::js(n) + "}";
    }
    return "{\"t\":" + jt(t) + ",\"copies\":0}";
}

// ---- a function object that writes down its calls and returns a fresh token
struct world {
    std::vector<std::string> calls{};
    constexpr world() {
        if not consteval {
            copies = 0;
        }
    }
};
// the n-th call (from 1) returns the token n
struct binary {
    world *w;
    template <typename L, typename R> constexpr auto operator()(L &&l, R &&r) const {
        w->calls.push_back("[" + je(l) + "," + je(r) + "]");
        constexpr int dl = depth<std::remove_cvref_t<L>>::value;
        constexpr int dr = depth<std::remove_cvref_t<R>>::value;
        return tok<(dl > dr ? dl : dr) + 1>{static_cast<long>(w->calls.size())};
    }
};
// the same for folds, where one side is an element of the tuple: also says whether it came as an rvalue
template <bool ElementLeft> struct folder {
    world *w;
    template <typename L, typename R> constexpr auto operator()(L &&l, R &&r) const {
        constexpr bool rv = not std::is_lvalue_reference_v<std::conditional_t<ElementLeft, L, R>>;
        w->calls.push_back("[" + je(l) + "," + je(r) + "," + (rv ? "1]" : "0]"));
        constexpr int dl = depth<std::remove_cvref_t<L>>::value;
        constexpr int dr = depth<std::remove_cvref_t<R>>::value;
        return tok<(dl > dr ? dl : dr) + 1>{static_cast<long>(w->calls.size())};
    }
};
struct nary {
    world *w;
    template <typename... Ts> constexpr auto operator()(Ts &&...ts) const {
        w->calls.push_back(join({jc(std::forward<Ts>(ts))...}));
        return tok<1>{static_cast<long>(w->calls.size())};
    }
};
// keeps its own count; usable with or without a compile-time index
struct counter {
    world *w;
    long n = 0;
    template <typename... Ts> constexpr void operator()(Ts &&...ts) {
        ++n;
        w->calls.push_back(join({jc(std::forward<Ts>(ts))...}));
    }
    template <std::size_t I, typename... Ts> constexpr void operator()(Ts &&...ts) {
        ++n;
        w->calls.push_back("[" + drv::js(I) + "," + join({jc(std::forward<Ts>(ts))...}) + "]");
    }
};
// movable only
struct solo : counter {
    constexpr explicit solo(world *x) : counter{x} {}
    solo(solo &&) = default;
};
struct above {
    world *w;
    long limit;
    template <typename... Ts> constexpr auto operator()(Ts &&...ts) const -> bool {
        w->calls.push_back(join({jc(std::forward<Ts>(ts))...}));
        return (0 + ... + val(ts)) > limit;
    }
};
template <typename... Ts> constexpr auto afters(bool all_rvalues, Ts const &...contents) -> std::string {
    auto n = copies_made();
    return "{\"ts\":" + join({contents...}) + ",\"copies\":" + drv::js(all_rvalues ? n : 0) + "}";
}
// elements with the category of the (reference) element types
template <typename T> constexpr auto jrefs(T const &t) -> std::string {
    std::vector<std::string> v;
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        (v.push_back("[" + quoted(name_of(stdx::get<Is>(t))) + "," + drv::js(val(stdx::get<Is>(t))) + "," +
                     drv::js(cat_of<stdx::tuple_element_t<Is, T>>()) + "]"),
         ...);
    }(std::make_index_sequence<stdx::tuple_size_v<T>>{});
    return join(v);
}
} // namespace tv
