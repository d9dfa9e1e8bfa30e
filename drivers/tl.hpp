// Names of types and constants for the type-level cases.
#pragma once
#include "drv.hpp"

#include <stdx/array.hpp>
#include <stdx/concepts.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/function_traits.hpp>
#include <stdx/ranges.hpp>
#include <stdx/tuple.hpp>
#include <stdx/type_traits.hpp>
#include <stdx/utility.hpp>

#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace tl {
template <int I> struct ty; // only names
template <int I>
    requires(I >= 50)
struct ty<I> {};
struct C;
enum struct en : unsigned char { a, b, c, d, e };
struct point {
    int x;
};
template <typename...> struct TA;
template <typename...> struct TB;
template <auto...> struct VA;
template <auto...> struct VB;

template <typename T> struct base {
    static auto name() -> std::string { return "F"; }
};
template <int I> struct base<ty<I>> {
    static auto name() -> std::string { return "t" + std::to_string(I); }
};
template <> struct base<int> {
    static auto name() -> std::string { return "int"; }
};
template <> struct base<void> {
    static auto name() -> std::string { return "void"; }
};
template <> struct base<C> {
    static auto name() -> std::string { return "C"; }
};
template <typename T> auto tname() -> std::string { return drv::js(base<T>::name()); }

template <typename T> struct expr {
    static auto name() -> std::string { return base<T>::name(); }
    static auto mods() -> std::vector<std::string> { return {}; }
};
#define TL_MOD(TYPE, ...)                                                                                              \
    template <typename T> struct expr<TYPE> {                                                                          \
        static auto name() -> std::string { return expr<T>::name(); }                                                  \
        static auto mods() -> std::vector<std::string> {                                                               \
            auto v = expr<T>::mods();                                                                                  \
            for (auto m : {__VA_ARGS__}) {                                                                             \
                v.push_back(m);                                                                                        \
            }                                                                                                          \
            return v;                                                                                                  \
        }                                                                                                              \
    };
TL_MOD(T const, "c")
TL_MOD(T volatile, "v")
#define TL_BOTH T const volatile
TL_MOD(TL_BOTH, "c", "v")
TL_MOD(T *, "*")
TL_MOD(T &, "&")
TL_MOD(T &&, "&&")
template <typename T> auto xname() -> std::string {
    return "[" + drv::js(expr<T>::name()) + "," + drv::js(expr<T>::mods()) + "]";
}

template <typename T> constexpr auto letter() -> char {
    return std::is_same_v<T, int>                  ? 'i'
           : std::is_same_v<T, unsigned>           ? 'u'
           : std::is_same_v<T, std::size_t>        ? 'z'
           : std::is_same_v<T, long long>          ? 'l'
           : std::is_same_v<T, bool>               ? 'b'
           : std::is_same_v<T, char>               ? 'c'
           : std::is_same_v<T, en>                 ? 'e'
           : std::is_same_v<T, point>              ? 'p'
                                                   : '?';
}
template <auto V> auto vname() -> std::string {
    using T = std::remove_cvref_t<decltype(V)>;
    std::string n(1, letter<T>());
    if constexpr (std::is_same_v<T, point>) {
        return drv::js(n + std::to_string(V.x));
    } else {
        return drv::js(n + std::to_string(static_cast<long long>(V)));
    }
}

inline auto list(std::vector<std::string> const &v) -> std::string {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) {
        r += (i ? "," : "") + v[i];
    }
    return r + "]";
}
template <typename... Ts> struct shown {
    static auto get() -> std::string { return list({xname<Ts>()...}); }
};
template <typename F> auto sig() -> std::string {
    constexpr auto n = stdx::arity_v<F>;
    std::vector<std::string> nth, dnth;
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        (nth.push_back(xname<stdx::nth_arg_t<F, Is>>()), ...);
        (dnth.push_back(xname<stdx::decayed_nth_arg_t<F, Is>>()), ...);
    }(std::make_index_sequence<n>{});
    static_assert(stdx::arity_t<F>::value == n);
    return drv::obj{}
        .raw("ret", xname<stdx::return_t<F>>())
        .raw("args", stdx::args_t<F, shown>::get())
        .raw("dec", stdx::decayed_args_t<F, shown>::get())("arity", static_cast<int>(n))
        .raw("nth", list(nth))
        .raw("dnth", list(dnth))
        .raw("obj", xname<stdx::obj_arg_t<F>>())
        .done();
}
// counts its calls
struct visitor {
    std::vector<std::string> seen{};
    template <typename T> void operator()() { seen.push_back(tname<T>()); }
    template <auto V> void operator()() { seen.push_back(vname<V>()); }
};
struct collect {
    template <typename... Ts> auto operator()() const { return std::vector<std::string>{tname<Ts>()...}; }
    template <auto... Vs>
        requires(sizeof...(Vs) > 0)
    auto operator()() const {
        return std::vector<std::string>{vname<Vs>()...};
    }
};
template <typename S> auto gets(auto bound) -> std::string {
    S const s{};
    std::vector<std::string> v, e, b;
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        (v.push_back(vname<std::remove_cvref_t<decltype(get<Is>(s))>::value>()), ...);
        (e.push_back(vname<stdx::tuple_element_t<Is, S>::value>()), ...);
        (b.push_back(vname<std::tuple_element_t<Is, S>::value>()), ...);
    }(std::make_index_sequence<stdx::tuple_size_v<S>>{});
    if constexpr (requires { bound(s); }) {
        b = bound(s);
    }
    static_assert(stdx::tuple_size_v<S> == std::tuple_size_v<S>);
    return "[" + drv::js(static_cast<int>(stdx::tuple_size_v<S>)) + "," + list(v) + "," + list(e) + "," + list(b) + "]";
}
// ---- kinds of types
namespace k {
using f0 = void();
using f1 = int(int);
using fn_ne = int(int) noexcept;
using f_const = int(int) const;
using f_var = int(char const *, ...);
inline auto lam_ = [](int) { return 1; };
inline auto mlam_ = [x = 1]() mutable { return ++x; };
inline auto glam_ = [](auto x) { return x; };
inline auto tlam_ = []<typename T>() {};
using lam = decltype(lam_);
using mlam = decltype(mlam_);
using glam = decltype(glam_);
using tlam = decltype(tlam_);
struct functor {
    auto operator()(int) const -> int;
};
struct overloaded {
    auto operator()(int) const -> int;
    auto operator()(char, int) -> void;
};
struct derived : functor {};
struct templated {
    template <typename T, int N = 0> auto operator()(T &&) const -> T;
};
struct deleted_copy {
    deleted_copy(deleted_copy const &) = delete;
    auto operator()() && -> void;
};
struct both_bases : functor, private glam {
    using functor::operator();
    using glam::operator();
};
using en = tl::en;
enum un : int { un_0, un_1 };
using ptr = int *;
using fptr = int (*)(int);
using mptr = int point::*;
using mfptr = int (functor::*)(int) const;
struct empty {};
struct agg {
    int a;
    bool b;
    char c;
};
struct nested {
    agg a;
    int b;
};
struct made {
    int a;
    constexpr explicit made(int x) : a{x} {}
};
struct made3 {
    made a;
    en e;
    constexpr made3(made x, en y, bool) : a{x}, e{y} {}
};
class privmade {
    int x;

  public:
    constexpr explicit privmade(int y) : x{y} {}
    constexpr auto get() const { return x; }
};
using string = std::string;
using vec = std::vector<int>;
class priv {
    int x{};

  public:
    constexpr priv() = default;
    constexpr auto get() const { return x; }
};
struct mut {
    mutable int x;
};
using arr = int[3];
using array = std::array<int, 3>;
using array0 = std::array<int, 0>;
using cxvec = stdx::cx_vector<int, 4>;
struct own_range {
    auto begin() const -> int *;
    auto end() const -> int *;
};
using tuple = stdx::tuple<int, bool>;
using tuple0 = stdx::tuple<>;
template <typename T> using key_for = T;
using ituple = decltype(stdx::make_indexed_tuple<key_for>(1));
using pair = std::pair<int, char>;
using mi = stdx::make_index_sequence<3>;
struct inc;
} // namespace k
template <typename T> auto numname() -> std::string {
    return std::is_same_v<T, bool>   ? "bool"
           : std::is_same_v<T, char> ? "char"
                                     : (std::is_signed_v<T> ? "i" : "u") + std::to_string(sizeof(T) * 8);
}
template <typename T> auto under(T t) -> std::string {
    auto u = stdx::to_underlying(t);
    return "[" + drv::js(numname<decltype(u)>()) + "," + drv::js(static_cast<long long>(u)) + "," +
           drv::js(numname<stdx::underlying_type_t<T>>()) + "]";
}
} // namespace tl
