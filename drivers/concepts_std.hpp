// Types for the questions about concepts. FALLBACK: as with a standard library that has no concepts.
#pragma once
#include "drv.hpp"

#include <algorithm>
#include <array>
#include <compare>
#include <concepts>
#include <cstddef>
#include <functional>
#include <iterator>
#include <memory>
#include <ranges>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#ifdef FALLBACK
#undef __cpp_lib_concepts
#endif
#include <stdx/concepts.hpp>

namespace cc {
using schar = signed char;
using uchar = unsigned char;
using ulong = unsigned long;
using llong = long long;
enum en { e0 };
enum struct es { s0 };
struct agg {
    int v;
};
struct eqo {
    friend auto operator==(eqo const &, eqo const &) -> bool;
};
struct ord {
    int v;
    friend auto operator<=>(ord const &, ord const &) = default;
};
struct less {
    friend auto operator<(less const &, less const &) -> bool;
};
struct neq {
    friend auto operator!=(neq const &, neq const &) -> bool;
};
struct onlyeq {
    friend auto operator==(onlyeq const &, onlyeq const &) -> bool;
    friend auto operator!=(onlyeq const &, onlyeq const &) -> bool = delete;
};
struct rel {
    friend auto operator<(rel const &, rel const &) -> bool;
    friend auto operator>(rel const &, rel const &) -> bool;
    friend auto operator<=(rel const &, rel const &) -> bool;
    friend auto operator>=(rel const &, rel const &) -> bool;
};
#define LACKS(NAME, A, B, C)                                                                                             \
    struct NAME {                                                                                                        \
        friend auto operator==(NAME const &, NAME const &) -> bool;                                                      \
        friend auto operator A(NAME const &, NAME const &) -> bool;                                                      \
        friend auto operator B(NAME const &, NAME const &) -> bool;                                                      \
        friend auto operator C(NAME const &, NAME const &) -> bool;                                                      \
    };
LACKS(nolt, >, <=, >=)
LACKS(nogt, <, <=, >=)
LACKS(nole, <, >, >=)
LACKS(noge, <, >, <=)
#undef LACKS
struct base {};
struct derived : base {};
struct hidden : private base {};
struct left : base {};
struct right : base {};
struct twice : left, right {};
struct toint {
    operator int() const;
};
struct saysint {
    explicit operator int() const;
};
struct fromint {
    fromint(int);
};
struct saysfrom {
    explicit saysfrom(int);
};
struct tester {
    operator bool() const;
};
struct saysbool {
    explicit operator bool() const;
};
using ptr = int *;
using cptr = int const *;
using null = std::nullptr_t;
using none = void;
template <typename R, typename... Ps> struct object {
    auto operator()(Ps...) const -> R;
};
} // namespace cc
