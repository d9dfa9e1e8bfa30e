// Element types: plain int, an allocating string type and a move-only type, with
// conversions from and to the integers the specifications use.
#pragma once
#include "drv.hpp"

#include <memory>
#include <string>
#include <utility>

namespace drv {
template <typename T> struct el;
template <> struct el<int> {
    constexpr static auto make(long long v) -> int { return static_cast<int>(v); }
    constexpr static auto num(int const &v) -> long long { return v; }
};
template <> struct el<unsigned char> {
    constexpr static auto make(long long v) -> unsigned char { return static_cast<unsigned char>(v); }
    constexpr static auto num(unsigned char const &v) -> long long { return v; }
};
template <> struct el<std::string> {
    constexpr static auto make(long long v) -> std::string {
        return v == 0 ? std::string{} : std::string(40, 'x') + js(v);
    }
    constexpr static auto num(std::string const &v) -> long long {
        return v.empty() ? 0 : v.size() <= 40 ? -1 : in{"n " + v.substr(40)}.num();
    }
};
template <> struct el<std::unique_ptr<int>> {
    constexpr static auto make(long long v) -> std::unique_ptr<int> { return std::make_unique<int>(static_cast<int>(v)); }
    constexpr static auto num(std::unique_ptr<int> const &v) -> long long { return v ? *v : -1; }
};
// the same for evaluation by the compiler: classes with their own copies, moves and
// destruction, but without allocation (whose evaluation by the compiler has defects)
template <bool Copy> struct held {
    int v{};
    constexpr held() = default;
    constexpr explicit held(long long x) : v{static_cast<int>(x)} {}
    constexpr held(held const &o)
        requires Copy
        : v{o.v} {}
    constexpr held(held &&o) noexcept : v{std::exchange(o.v, -1)} {}
    constexpr auto operator=(held const &o) -> held &
        requires Copy
    {
        v = o.v;
        return *this;
    }
    constexpr auto operator=(held &&o) noexcept -> held & {
        v = std::exchange(o.v, -1);
        return *this;
    }
    constexpr ~held() { v = -2; }
    friend constexpr auto operator==(held const &a, held const &b) -> bool { return a.v == b.v; }
};
template <bool Copy> struct el<held<Copy>> {
    constexpr static auto make(long long v) -> held<Copy> { return held<Copy>{v}; }
    constexpr static auto num(held<Copy> const &v) -> long long { return v.v; }
};
template <int K> struct kind;
template <> struct kind<0> { using type = int; };
#ifdef DRV_CX
template <> struct kind<1> { using type = held<true>; };
template <> struct kind<2> { using type = held<false>; };
#elif defined(DRV_LIFE)
template <bool Copy> struct el<life::obj<Copy>> {
    static auto make(long long v) -> life::obj<Copy> { return life::obj<Copy>{v}; }
    static auto num(life::obj<Copy> const &v) -> long long { return v.get(); }
};
template <> struct kind<1> { using type = life::obj<true>; };
template <> struct kind<2> { using type = life::obj<false>; };
#else
template <> struct kind<1> { using type = std::string; };
template <> struct kind<2> { using type = std::unique_ptr<int>; };
#endif
} // namespace drv
