// What objects hand out, and to whom.
#pragma once
#include "drv.hpp"

#include <stdx/atomic.hpp>
#include <stdx/atomic_bitset.hpp>
#include <stdx/bitset.hpp>
#include <stdx/byterator.hpp>
#include <stdx/cached.hpp>
#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>
#include <stdx/latched.hpp>
#include <stdx/optional.hpp>
#include <stdx/rollover.hpp>
#include <stdx/span.hpp>
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>

#include <compare>
#include <cstddef>
#include <iterator>
#include <string>
#include <type_traits>
#include <utility>

namespace acc {
struct mov {
    mov() = default;
    mov(mov &&) = default;
    auto operator=(mov &&) -> mov & = default;
};
struct pin {
    pin() = default;
    pin(pin const &) = delete;
    pin(pin &&) = delete;
    auto operator=(pin const &) -> pin & = delete;
    auto operator=(pin &&) -> pin & = delete;
};
struct eqo {
    int v{};
    friend constexpr auto operator==(eqo const &a, eqo const &b) -> bool { return a.v == b.v; }
};
struct agg {
    int a, b;
};
struct nod {
    explicit nod(int) {}
};
struct node1 {
    node1 *next{};
};
struct node2 {
    node2 *prev{};
    node2 *next{};
};
template <typename T> struct maker {
    auto operator()() const -> T { return {}; }
};
template <typename> struct tag; // names an element of an indexed tuple
template <typename T> using tag_of = tag<T>;

// the name of what an expression of type T&& hands out
template <typename T> constexpr auto name() -> char const * {
    if constexpr (std::is_void_v<T>) {
        return "void";
    } else if constexpr (not std::is_reference_v<T>) {
        return "value";
    } else if constexpr (std::is_rvalue_reference_v<T>) {
        return std::is_const_v<std::remove_reference_t<T>> ? "cr" : "r";
    } else {
        return std::is_const_v<std::remove_reference_t<T>> ? "c" : "l";
    }
}
// a function that remembers how it was given its last argument
struct probe {
    char const **at;
    int k{};
    template <typename... Ts> constexpr auto operator()(Ts &&...ts) const -> bool {
        ((*at = name<Ts &&>()), ...);
        return true;
    }
};
struct probe_index {
    char const **at;
    template <std::size_t, typename T> constexpr auto operator()(T &&) const -> bool {
        *at = name<T &&>();
        return true;
    }
};
template <typename R> struct probe_giving {
    char const **at;
    R r{};
    template <typename... Ts> constexpr auto operator()(Ts &&...) const -> R {
        ((*at = name<Ts &&>()), ...);
        return r;
    }
};
using arr = int[3];
using fun = int(char);
struct same {
    template <typename T> constexpr auto operator()(T &&t) const -> T && { return static_cast<T &&>(t); }
};
struct copied {
    template <typename T> constexpr auto operator()(T &&) const -> std::remove_cvref_t<T>;
};
// the types of the elements of a tuple (of tuples), each as [base, const, reference]
template <typename T> auto type() -> std::string {
    using B = std::remove_cvref_t<T>;
    using R = std::remove_reference_t<T>;
    auto const base = std::is_same_v<B, int>           ? "int"
                      : std::is_same_v<B, std::string> ? "str"
                      : std::is_same_v<B, eqo>         ? "eqo"
                      : std::is_same_v<B, long>        ? "long"
                      : std::is_same_v<B, arr>         ? "arr"
                      : std::is_same_v<B, fun>         ? "fun"
                      : std::is_same_v<B, int *>       ? "ptr"
                      : std::is_same_v<B, int const *> ? "cptr"
                      : std::is_same_v<B, fun *>       ? "funptr"
                                                       : "other";
    return std::string{"[\""} + base + "\"," + (std::is_const_v<R> ? "1" : "0") + ",\"" +
           (std::is_lvalue_reference_v<T> ? "&" : std::is_rvalue_reference_v<T> ? "&&" : "") + "\"]";
}
template <typename T> auto types() -> std::string {
    if constexpr (stdx::tuplelike<std::remove_cvref_t<T>>) {
        using U = std::remove_cvref_t<T>;
        return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            std::string s;
            ((s += (Is ? "," : "") + types<stdx::tuple_element_t<Is, U>>()), ...);
            return "[" + s + "]";
        }(std::make_index_sequence<stdx::tuple_size_v<U>>{});
    } else {
        return type<T>();
    }
}
// the number of elements (or groups) of a tuple, and how often each of Ts is an element of it or of its groups
template <typename T, typename U> constexpr auto occurs() -> int {
    if constexpr (stdx::tuplelike<std::remove_cvref_t<T>>) {
        return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            return (0 + ... + occurs<stdx::tuple_element_t<Is, std::remove_cvref_t<T>>, U>());
        }(std::make_index_sequence<stdx::tuple_size_v<std::remove_cvref_t<T>>>{});
    } else {
        return std::is_same_v<T, U> ? 1 : 0;
    }
}
template <typename T, typename... Ts> auto regrouped() -> std::string {
    return "[" + std::to_string(stdx::tuple_size_v<std::remove_cvref_t<T>>) + (std::string{} + ... + ("," + std::to_string(occurs<T, Ts>()))) + "]";
}
template <typename T> auto elements(T &&) -> std::remove_cvref_t<T>;
// an object of type O, as an lvalue, const lvalue or rvalue
template <typename K, typename O> constexpr auto as(O &o) -> decltype(auto) {
    if constexpr (std::is_same_v<K, char>) {
        return static_cast<O &>(o);
    } else if constexpr (std::is_same_v<K, char const>) {
        return static_cast<O const &>(o);
    } else {
        return static_cast<O &&>(o);
    }
}
using l = char;
using c = char const;
using r = char &&;
template <typename K, typename O> using obj_t = decltype(as<K>(std::declval<O &>()));
} // namespace acc
