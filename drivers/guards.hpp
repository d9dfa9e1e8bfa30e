#pragma once
// Everything a use of the library may name, compiled once ahead of all uses.
#include <stdx/algorithm.hpp>
#include <stdx/array.hpp>
#include <stdx/atomic.hpp>
#include <stdx/atomic_bitset.hpp>
#include <stdx/bit.hpp>
#include <stdx/bitset.hpp>
#include <stdx/byterator.hpp>
#include <stdx/cached.hpp>
#include <stdx/call_by_need.hpp>
#include <stdx/ct_format.hpp>
#include <stdx/ct_string.hpp>
#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/env.hpp>
#include <stdx/for_each_n_args.hpp>
#include <stdx/functional.hpp>
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>
#include <stdx/iterator.hpp>
#include <stdx/latched.hpp>
#include <stdx/numeric.hpp>
#include <stdx/optional.hpp>
#include <stdx/rollover.hpp>
#include <stdx/span.hpp>
#include <stdx/static_assert.hpp>
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>
#include <stdx/tuple_destructure.hpp>
#include <stdx/type_traits.hpp>
#include <stdx/udls.hpp>
#include <stdx/utility.hpp>

#include <array>
#include <compare>
#include <cstddef>
#include <cstdint>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace gd {
using uchar_t = unsigned char;
using schar_t = signed char;
using short_t = short;
using ushort_t = unsigned short;
using int_t = int;
using uint_t = unsigned int;
using long_t = long;
using ulong_t = unsigned long;
using bool_t = bool;
using float_t = float;
using double_t = double;
using ptr_t = int *;
using str_t = std::string;
enum struct es8_t : std::uint8_t { a, b, c, MAX };
enum struct esi_t : int { x, y, z, MAX };
struct agg_t {
    int v{};
};
struct eqo_t {
    int v{};
    friend constexpr auto operator==(eqo_t const &, eqo_t const &) -> bool = default;
};
struct mov_t {
    mov_t() = default;
    mov_t(mov_t &&) = default;
    auto operator=(mov_t &&) -> mov_t & = default;
};
struct owner_t { // copied, but not byte by byte
    owner_t() = default;
    owner_t(owner_t const &o) : v{o.v} {}
    int v{};
};

struct one_way_t {
    one_way_t *next{};
};
struct two_way_t {
    two_way_t *prev{};
    two_way_t *next{};
};
struct fun_t {
    constexpr auto operator()() const -> int { return 3; }
};
using cx_vector_t = stdx::cx_vector<int, 5>;
using cx_set_t = stdx::cx_set<int, 5>;
using cx_map_t = stdx::cx_map<int, int, 5>;

template <int N> struct named {
    using key = std::integral_constant<int, N>;
};
template <typename T> using key_of = typename T::key;

template <int N> struct query_t {
    template <typename T>
    [[nodiscard]] consteval auto operator()(T &&t) const noexcept
        -> decltype(std::forward<T>(t).query(*this)) {
        return std::forward<T>(t).query(*this);
    }
};
template <int N> constexpr inline query_t<N> query{};

template <typename...> using use_t = void;
template <typename T> auto any() -> T &;
template <typename T> extern T thing;
} // namespace gd
