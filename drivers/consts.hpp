// Constants as they are written, wrapped and put into arrays.
#pragma once
#include <stdx/array.hpp>
#include <stdx/pp_map.hpp>
#include <stdx/priority.hpp>
#include <stdx/tuple.hpp>
#include <stdx/udls.hpp>
#include <stdx/utility.hpp>

#include <array>
#include <cstdint>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace kc {
enum struct en : std::uint16_t { zero, one, two, three };
template <typename T> struct letter;
#define KC_LETTER(T, L)                                                                                                \
    template <> struct letter<T> {                                                                                     \
        static auto get() -> std::string { return "\"" L "\""; }                                                       \
    };
KC_LETTER(bool, "b")
KC_LETTER(signed char, "c")
KC_LETTER(unsigned char, "h")
KC_LETTER(short, "s")
KC_LETTER(unsigned short, "t")
KC_LETTER(int, "i")
KC_LETTER(unsigned, "u")
KC_LETTER(long, "l")
KC_LETTER(unsigned long, "m")
KC_LETTER(en, "e")
KC_LETTER(std::string_view, "v")
template <typename T> auto name() -> std::string {
    static_assert(std::is_same_v<T, std::remove_cvref_t<T>>, "a plain type is expected");
    return letter<T>::get();
}
template <typename T> auto num(T v) -> std::string { return std::to_string(static_cast<long long>(v)); }
template <typename T> auto limbs(T v) -> std::string {
    std::string r = "[";
    auto u = static_cast<std::make_unsigned_t<T>>(v);
    for (std::size_t i = 0; i < sizeof(T); ++i) {
        r += (i ? "," : "") + std::to_string(static_cast<unsigned>((static_cast<unsigned long long>(u) >> (8 * i)) & 255u));
    }
    return r + "]";
}
inline auto three(std::string const &how, std::string const &t, std::string const &v) -> std::string {
    return "[\"" + how + "\"," + t + "," + v + "]";
}
// what a wrapped expression became; what is a constant is used as one
template <typename T> constexpr auto is_ic = false;
template <typename T, T V> constexpr auto is_ic<std::integral_constant<T, V>> = true;
template <typename T> constexpr auto is_ti = false;
template <typename T> constexpr auto is_ti<stdx::type_identity<T>> = true;
template <typename T> struct inner;
template <typename T> struct inner<stdx::type_identity<T>> {
    using type = T;
};
template <typename W> auto what(W const &w) -> std::string {
    using T = std::remove_cvref_t<W>;
    if constexpr (is_ic<T>) {
        static_assert(stdx::is_ct_v<T>);
        return three("ic", name<typename T::value_type>(), num(T::value));
    } else if constexpr (is_ti<T>) {
        static_assert(stdx::is_ct_v<T>);
        return "[\"ty\"," + name<typename inner<T>::type>() + "]";
    } else if constexpr (stdx::is_cx_value_v<T>) {
        static_assert(not stdx::is_ct_v<T>);
        using R = decltype(w());
        if constexpr (is_ti<R>) {
            return "[\"ty\"," + name<typename inner<R>::type>() + "]";
        } else {
            return three("cx", name<R>(), num(w()));
        }
    } else {
        static_assert(not stdx::is_ct_v<T>);
        return three("rt", name<T>(), num(w));
    }
}
template <typename T, std::size_t N> auto arr(std::array<T, N> const &a) -> std::string {
    std::string r = "[" + name<T>() + ",[";
    for (std::size_t i = 0; i < N; ++i) {
        r += (i ? "," : "") + num(a[i]);
    }
    return r + "]]";
}
template <auto I> struct gen {
    constexpr static short value = static_cast<short>(2 * static_cast<int>(I) + 1);
};
inline std::vector<long> order;
struct call_gen {
    template <auto I> auto operator()() const -> long {
        order.push_back(static_cast<long>(I));
        return 2 * static_cast<long>(I) + 1;
    }
};
inline auto expect_order(std::vector<long> const &v) -> bool { return v == order; }
// at namespace scope: a constant and a variable
template <typename T, long V> constexpr T at_ns = static_cast<T>(V);
template <typename T, long V> inline T rt_ns = static_cast<T>(V + static_cast<long>(order.size()) * 0);
// overloads told apart by priority
template <int... Ok> struct pick {
    template <int K> constexpr static bool has = (... or (Ok == K));
    static auto f(stdx::priority_t<0>) -> int requires(has<0>) { return 0; }
    static auto f(stdx::priority_t<1>) -> int requires(has<1>) { return 1; }
    static auto f(stdx::priority_t<2>) -> int requires(has<2>) { return 2; }
    static auto f(stdx::priority_t<3>) -> int requires(has<3>) { return 3; }
    static auto f(stdx::priority_t<4>) -> int requires(has<4>) { return 4; }
};
template <std::size_t N> struct alignas(N) aligned_type {
    char x[2 * N];
};
alignas(64) inline char place[256];
} // namespace kc
#define KC_F(X) (3 * (X) + 1)
