#pragma once
// Showing format results and compile-time strings as data.
#include "drv.hpp"
#include <stdx/ct_format.hpp>
#include <stdx/ct_string.hpp>
#include <stdx/tuple.hpp>

#include <cstdint>
#include <algorithm>
#include <memory>
#include <string>
#include <string_view>
#include <utility>

namespace fm {
struct rec {};
enum struct colour { red, blue = -4 };
enum plain { uns = 7 };

struct solo {
    std::unique_ptr<int> p;
    explicit solo(int i) : p{std::make_unique<int>(i)} {}
};
using pair_t = stdx::tuple<int, int>;

template <typename C, C... Cs> struct chars {
    template <C... Ds>
    friend constexpr auto operator+(chars, chars<C, Ds...>)
        -> chars<C, Cs..., Ds...> {
        return {};
    }
};

template <typename V> auto show(V const &v) -> std::string {
    std::string s;
    for (char c : v) {
        s += s.empty() ? "" : ",";
        s += c == '\0' ? std::string{"\"NUL\""} : "\"" + std::string(1, c) + "\"";
    }
    return "[" + s + "]";
}
inline auto arg(int i) { return "[\"int\"," + std::to_string(i) + "]"; }
inline auto arg(std::string const &s) {
    return "[\"string\"," + std::to_string(s.size()) + "]";
}
inline auto arg(solo const &s) {
    return "[\"solo\"," + (s.p ? std::to_string(*s.p) : "-1") + "]";
}
inline auto arg(pair_t const &p) {
    return "[\"pair\"," +
           (stdx::get<1>(p) == stdx::get<0>(p) + 1
                ? std::to_string(stdx::get<0>(p))
                : "-1") +
           "]";
}
template <typename T> auto arg(T const &) -> std::string = delete;

template <typename T> struct named;
template <typename... Ns> struct named<stdx::type_list<Ns...>> {
    static auto show() -> std::string {
        std::string s;
        ((s += (s.empty() ? "[" : ",[") + fm::show(Ns::name) +
               (Ns::is_runtime() ? ",\"r\"," : ",\"c\",") +
               std::to_string(Ns::begin) + "," + std::to_string(Ns::is_runtime() ? 0 : Ns::end) + "]"),
         ...);
        return "[" + s + "]";
    }
};

template <template <typename C, C...> typename T, char... Cs>
auto text_of(T<char, Cs...>) {
    return std::string{Cs...};
}
template <stdx::ct_string S> auto text_of(stdx::cts_t<S>) {
    return std::string{std::string_view{S}};
}
template <stdx::ct_string S> constexpr auto through = S;

template <typename R> auto result(R const &r) -> std::string {
    std::string s;
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        ((s += (Is == 0 ? "" : ",") + arg(stdx::get<Is>(r.args))), ...);
    }(std::make_index_sequence<
        stdx::tuple_size_v<std::remove_cvref_t<decltype(r.args)>>>{});
    auto const t = text_of(r.str);
    if constexpr (requires { r.str.value; } and
                  std::is_same_v<std::remove_cvref_t<decltype(r.args)>,
                                 stdx::tuple<>>) {
        // without run-time arguments the result converts back
        constexpr R q{};
        if (std::string_view{through<q>} != t or
            std::string_view{+q} != t) {
            drv::fail("conversion to ct_string differs");
        }
    }
    return "{\"text\":" + show(t) + ",\"args\":[" + s +
           "],\"named\":" + named<typename R::named_args_t>::show() + "}";
}

template <stdx::ct_string S> auto all() -> std::string {
    std::string f;
    for (auto i = S.begin(); i != S.end(); ++i) {
        f += *i;
    }
    std::string b;
    for (auto i = S.rbegin(); i != S.rend(); ++i) {
        b += *i;
    }
    auto m = S;
    std::reverse(m.begin(), m.end());
    std::string w;
    for (auto &c : m) {
        w += c;
    }
    constexpr auto t = stdx::ct_string_to_type<S, chars>();
    constexpr auto u = stdx::ct_string_from_type(t);
    static_assert(
        std::is_same_v<stdx::ct_string_to_type_t<S, chars>, std::remove_cv_t<decltype(t)>>);
    static_assert(std::is_same_v<decltype(stdx::ct<S>()), stdx::cts_t<S>>);
    return "{\"size\":" + std::to_string(S.size()) +
           ",\"cap\":" + std::to_string(S.capacity()) +
           ",\"empty\":" + (S.empty() ? "1" : "0") + ",\"fwd\":" + show(f) +
           ",\"back\":" + show(b) + ",\"turned\":" + show(w) +
           ",\"view\":" + show(static_cast<std::string_view>(S)) +
           ",\"type\":" + show(text_of(t)) + ",\"again\":" + show(u) +
           ",\"ended\":" + (S.value[S.size()] == '\0' ? "1" : "0") + "}";
}
} // namespace fm
