#pragma once
// Queries, values and the identification of values for environments.
#include "drv.hpp"
#include <stdx/ct_string.hpp>
#include <stdx/env.hpp>
#include <string>
#include <type_traits>
#include <utility>

namespace en {
template <int K> struct key_t {
    template <typename T>
    [[nodiscard]] consteval auto operator()(T &&t) const
        noexcept(noexcept(std::forward<T>(t).query(std::declval<key_t>())))
            -> decltype(std::forward<T>(t).query(*this)) {
        return std::forward<T>(t).query(*this);
    }
};
template <> struct key_t<4> {
    template <typename T>
        requires true
    [[nodiscard]] consteval auto operator()(T &&t) const
        noexcept(noexcept(std::forward<T>(t).query(std::declval<key_t>())))
            -> decltype(std::forward<T>(t).query(*this)) {
        return std::forward<T>(t).query(*this);
    }
    [[nodiscard]] consteval auto operator()(auto &&) const { return 99000; }
};
template <int K> constexpr inline key_t<K> key{};

enum struct colour { red, green };
struct pair_t {
    int a;
    char b;
    friend constexpr auto operator==(pair_t const &, pair_t const &)
        -> bool = default;
};

template <typename T> constexpr auto id(T const &t) -> int {
    using namespace stdx::literals;
    if constexpr (std::is_same_v<T, int>) {
        return t == 17      ? 1
               : t == 18    ? 2
               : t == -3    ? 5
               : t == 99000 ? 99
               : t == 77000 ? 77
                            : -1;
    } else if constexpr (std::is_same_v<T, char>) {
        return t == 'x' ? 3 : -1;
    } else if constexpr (std::is_same_v<T, bool>) {
        return t ? 6 : 7;
    } else if constexpr (std::is_same_v<T, colour>) {
        return t == colour::green ? 8 : -1;
    } else if constexpr (std::is_same_v<T, pair_t>) {
        return t == pair_t{4, 'q'} ? 9 : -1;
    } else if constexpr (std::is_same_v<T, stdx::ct_string<6>>) {
        return t == "hello"_cts ? 4 : t == "world"_cts ? 10 : -1;
    } else if constexpr (std::is_same_v<T, stdx::ct_string<1>>) {
        return 11;
    } else {
        return -2;
    }
}
template <typename E, typename K> constexpr auto ask(K) -> int {
    if constexpr (requires { K{}(E{}); }) {
        return id(K{}(E{}));
    } else {
        return 0;
    }
}
template <typename E, typename K> constexpr auto ask_query(K) -> int {
    if constexpr (requires { K{}(E{}); }) {
        return id(stdx::query<E>(K{}));
    } else {
        return 0;
    }
}
template <int Keys, typename E> auto all() -> std::string {
    std::string s;
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        ((s += (Is == 0 ? "" : ",") + std::to_string(ask<E>(key<Is + 1>))),
         ...);
    }(std::make_index_sequence<Keys>{});
    return "[" + s + "]";
}
} // namespace en
