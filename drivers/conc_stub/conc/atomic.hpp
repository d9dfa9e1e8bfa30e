// Stand-in for the baremetal concurrency library that stdx::atomic and
// stdx::atomic_bitset are written against.  Every primitive is a scheduling point and
// works on shadow memory, so that an access that bypasses the primitives is noticed;
// the memory orders asked for are recorded.
#pragma once
#include <atomic>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>

namespace atomic {
template <typename T> struct atomic_type {
    using type = T;
};
template <typename T> using atomic_type_t = typename atomic_type<T>::type;
template <typename T> constexpr inline std::size_t alignment_of = alignof(atomic_type_t<T>);
} // namespace atomic

#ifdef CONC_OVERRIDE
template <> struct atomic::atomic_type<std::uint8_t> {
    using type = std::uint32_t;
};
template <> struct atomic::atomic_type<bool> {
    using type = std::uint32_t;
};
template <> struct atomic::atomic_type<std::int8_t> {
    using type = std::int32_t;
};
template <> struct atomic::atomic_type<std::int16_t> {
    using type = std::int64_t;
};
template <> struct atomic::atomic_type<std::uint16_t> {
    using type = std::uint64_t;
};
template <> struct atomic::atomic_type<std::uint32_t> {
    using type = std::uint64_t;
};
template <> constexpr inline std::size_t atomic::alignment_of<std::int32_t> = 16;
#endif

namespace conc_stub {
// supplied by the driver
void before(int mo);                               // scheduling point
auto shadow(void const *p, std::size_t n) -> void *; // where the value really is
template <typename T> auto get(T const &t) -> T {
    T v;
    std::memcpy(&v, shadow(&t, sizeof(T)), sizeof(T));
    return v;
}
template <typename T> void put(T &t, T const &v) { std::memcpy(shadow(&t, sizeof(T)), &v, sizeof(T)); }
template <typename T, typename F> auto rmw(T &t, std::memory_order mo, F f) -> T {
    before(static_cast<int>(mo));
    T const old = get(t);
    put(t, static_cast<T>(f(old)));
    return old;
}
template <typename T> constexpr auto u(T v) {
    if constexpr (std::is_same_v<T, bool>) {
        return static_cast<unsigned>(v);
    } else {
        return static_cast<std::uint64_t>(static_cast<std::make_unsigned_t<T>>(v));
    }
}
} // namespace conc_stub

namespace atomic {
using mo_t = std::memory_order;
template <typename T>
[[nodiscard]] auto load(T const &t, mo_t mo = std::memory_order_seq_cst) -> T {
    conc_stub::before(static_cast<int>(mo));
    return conc_stub::get(t);
}
template <typename T> void store(T &t, std::type_identity_t<T> v, mo_t mo = std::memory_order_seq_cst) {
    conc_stub::before(static_cast<int>(mo));
    conc_stub::put(t, v);
}
template <typename T>
[[nodiscard]] auto exchange(T &t, std::type_identity_t<T> v, mo_t mo = std::memory_order_seq_cst) -> T {
    return conc_stub::rmw(t, mo, [&](T) { return v; });
}
template <typename T> auto fetch_add(T &t, std::type_identity_t<T> v, mo_t mo = std::memory_order_seq_cst) -> T {
    return conc_stub::rmw(t, mo, [&](T o) { return static_cast<T>(conc_stub::u(o) + conc_stub::u(v)); });
}
template <typename T> auto fetch_sub(T &t, std::type_identity_t<T> v, mo_t mo = std::memory_order_seq_cst) -> T {
    return conc_stub::rmw(t, mo, [&](T o) { return static_cast<T>(conc_stub::u(o) - conc_stub::u(v)); });
}
template <typename T> auto fetch_and(T &t, std::type_identity_t<T> v, mo_t mo = std::memory_order_seq_cst) -> T {
    return conc_stub::rmw(t, mo, [&](T o) { return static_cast<T>(conc_stub::u(o) & conc_stub::u(v)); });
}
template <typename T> auto fetch_or(T &t, std::type_identity_t<T> v, mo_t mo = std::memory_order_seq_cst) -> T {
    return conc_stub::rmw(t, mo, [&](T o) { return static_cast<T>(conc_stub::u(o) | conc_stub::u(v)); });
}
template <typename T> auto fetch_xor(T &t, std::type_identity_t<T> v, mo_t mo = std::memory_order_seq_cst) -> T {
    return conc_stub::rmw(t, mo, [&](T o) { return static_cast<T>(conc_stub::u(o) ^ conc_stub::u(v)); });
}
} // namespace atomic
