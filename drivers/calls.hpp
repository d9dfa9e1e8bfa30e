#pragma once
// Functions that record how they are called.
#include "tup.hpp"
#include <stdx/for_each_n_args.hpp>
#include <stdx/functional.hpp>
#include <stdx/utility.hpp>
#include <functional>
#include <optional>

namespace ca {
inline tv::tok<1> token;

template <typename T> struct unwrap {
    static auto show(T const &t, std::string const &cat) {
        return "[" + tv::quoted(tv::name_of(t)) + "," +
               std::to_string(tv::val(t)) + ",\"" + cat + "\"]";
    }
};
template <typename T> struct unwrap<std::reference_wrapper<T>> {
    static auto show(std::reference_wrapper<T> const &t, std::string const &) {
        return unwrap<T>::show(t.get(), "f");
    }
};
template <typename T> auto seen(T &&t) -> std::string {
    return unwrap<std::remove_cvref_t<T>>::show(
        t, std::is_lvalue_reference_v<T>
               ? (std::is_const_v<std::remove_reference_t<T>> ? "c" : "l")
               : (std::is_const_v<std::remove_reference_t<T>> ? "x" : "r"));
}
template <typename T> auto held(T const &t) -> std::string {
    return unwrap<T>::show(t, "v");
}
inline std::string which{};
inline int calls = 0;
inline int mine_ = 0;
inline std::vector<std::string> got{};
inline void note(char const *fn, int mine, std::vector<std::string> xs) {
    mine_ = mine;
    which = fn;
    ++calls;
    got = std::move(xs);
}
template <int Ret> auto give(std::size_t n) -> decltype(auto) {
    token.v = static_cast<long>(n);
    if constexpr (Ret == 1) {
        return tv::tok<1>{static_cast<long>(n)};
    } else if constexpr (Ret == 2) {
        return (token);
    }
}
template <int Take, int Ret> struct fn {
    int mine{};
    auto operator()(auto &&...xs) & -> decltype(auto)
        requires(Take == 0)
    {
        note("l", ++mine, {seen(FWD(xs))...});
        return give<Ret>(sizeof...(xs));
    }
    auto operator()(auto &&...xs) const & -> decltype(auto)
        requires(Take == 0)
    {
        note("c", mine, {seen(FWD(xs))...});
        return give<Ret>(sizeof...(xs));
    }
    auto operator()(auto &&...xs) && -> decltype(auto)
        requires(Take == 0)
    {
        note("r", mine, {seen(FWD(xs))...});
        return give<Ret>(sizeof...(xs));
    }
    auto operator()(auto... xs) & -> decltype(auto)
        requires(Take == 1)
    {
        note("l", ++mine, {held(xs)...});
        return give<Ret>(sizeof...(xs));
    }
    auto operator()(auto... xs) const & -> decltype(auto)
        requires(Take == 1)
    {
        note("c", mine, {held(xs)...});
        return give<Ret>(sizeof...(xs));
    }
    auto operator()(auto... xs) && -> decltype(auto)
        requires(Take == 1)
    {
        note("r", mine, {held(xs)...});
        return give<Ret>(sizeof...(xs));
    }
};
// the call itself: f() makes it
template <typename F> auto call(F f) -> std::string {
    calls = 0;
    got.clear();
    std::string res;
    if constexpr (std::is_void_v<decltype(f())>) {
        f();
        res = "[0,\"\"]";
    } else {
        auto &&q = f();
        bool const ref = std::is_lvalue_reference_v<decltype(f())>;
        if (ref and static_cast<void const *>(&q) != &token) {
            drv::fail("result refers to another object");
        }
        res = "[" + std::to_string(q.v) + (ref ? ",\"l\"]" : ",\"v\"]");
    }
    return "{\"fn\":\"" + which + "\",\"seen\":" + tv::join(got) +
           ",\"res\":" + res + ",\"calls\":" + std::to_string(calls) +
           ",\"mine\":" + std::to_string(mine_) + "}";
}
inline std::vector<std::string> batches{};

template <char L> struct taker {
    int i;
    auto operator()(tv::el<L> const &) const { return i; }
};
struct any_taker {
    int i;
    template <typename T> auto operator()(T const &) const { return i; }
};
template <typename T> auto cat() -> std::string {
    if constexpr (std::is_lvalue_reference_v<T>) {
        return std::is_const_v<std::remove_reference_t<T>> ? "\"c\"" : "\"l\"";
    } else if constexpr (std::is_rvalue_reference_v<T>) {
        return std::is_const_v<std::remove_reference_t<T>> ? "\"x\"" : "\"r\"";
    } else {
        return "\"v\"";
    }
}
template <typename T, typename O> auto obj(O &&q, void const *p) -> std::string {
    return "[[" + tv::quoted(tv::name_of(q)) + "," + std::to_string(tv::val(q)) +
           "," + cat<T>() + "]," +
           (static_cast<void const *>(&q) == p ? "1" : "0") + "]";
}
} // namespace ca
