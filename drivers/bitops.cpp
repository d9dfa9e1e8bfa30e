// Drives the bit utilities.  With FALLBACK, the standard library's versions are hidden so
// that the library's own replacements are used; with NO_BYTESWAP, that of byteswap alone.
#include "drv.hpp"

#if defined(FALLBACK) || defined(NO_BYTESWAP)
#include <bit>
#include <version>
#undef __cpp_lib_byteswap
#endif
#ifdef FALLBACK
#undef __cpp_lib_bitops
#undef __cpp_lib_int_pow2
#endif
#include <stdx/bit.hpp>

#include <array>
#include GENERATED

namespace {
template <typename T> struct id {
    using type = T;
};
template <typename F> constexpr void by_width(std::size_t w, F f) {
    switch (w) {
    case 8: return f(id<std::uint8_t>{});
    case 16: return f(id<std::uint16_t>{});
    case 32: return f(id<std::uint32_t>{});
    case 64: return f(id<std::uint64_t>{});
    default: drv::protocol("width");
    }
}
template <typename F> constexpr void by_type(std::size_t k, F f) {
    switch (k) {
    case 0: return f(id<std::uint8_t>{});
    case 1: return f(id<std::uint16_t>{});
    case 2: return f(id<std::uint32_t>{});
    case 3: return f(id<std::uint64_t>{});
    case 4: return f(id<std::array<std::uint8_t, 3>>{});
    case 5: return f(id<std::array<std::uint16_t, 2>>{});
    case 6: return f(id<std::array<std::uint64_t, 2>>{});
    case 7: return f(id<std::array<std::array<std::uint8_t, 2>, 2>>{});
    case 8: return f(id<std::array<std::uint8_t, 9>>{});
    case 9: return f(id<std::array<std::uint32_t, 5>>{});
    case 10: return f(id<std::array<std::array<std::uint16_t, 2>, 3>>{});
    default: drv::protocol("type");
    }
}
using bits_t = std::vector<int>;
template <typename T> constexpr void add(bits_t &b, int &base, T v) {
    for (auto p : drv::bits_of(v)) {
        b.push_back(base + p);
    }
    base += static_cast<int>(8 * sizeof(T));
}
template <typename T, std::size_t N> constexpr void add(bits_t &b, int &base, std::array<T, N> const &v) {
    for (auto const &x : v) {
        add(b, base, x);
    }
}
template <typename T> constexpr auto all_bits(T const &v) -> bits_t {
    bits_t b;
    int base{};
    add(b, base, v);
    return b;
}
template <typename T> constexpr auto width() -> std::size_t { return sizeof(T) * 8; }

// every compile-time mask of a type
template <typename T, std::size_t I> constexpr auto one_mask() -> T {
    constexpr auto msb = I / width<T>();
    constexpr auto lsb = I % width<T>();
    if constexpr (lsb > msb) {
        return T{};
    } else if constexpr (msb == width<T>() - 1 and lsb == 0) {
        return stdx::bit_mask<T>();
    } else if constexpr (lsb == 0) {
        return stdx::bit_mask<T, msb>();
    } else {
        return stdx::bit_mask<T, msb, lsb>();
    }
}
template <typename T, std::size_t... Is> constexpr auto all_masks(std::index_sequence<Is...>) {
    return std::array<T, sizeof...(Is)>{one_mask<T, Is>()...};
}
template <typename T> constexpr auto masks = all_masks<T>(std::make_index_sequence<width<T>() * width<T>()>{});
template <std::size_t... Ns> constexpr auto suint(std::index_sequence<Ns...>) -> std::vector<std::vector<int>> {
    return {std::vector<int>{8 * sizeof(stdx::smallest_uint_t<Ns>),
                             static_cast<int>(stdx::bit_size<decltype(stdx::smallest_uint<Ns>())>())}...};
}
struct machine {
    constexpr void exec(drv::in &i) {
        auto const &op = i.op;
        std::string res = "[]";
        if (op == "new") {
        } else if (op == "un") {
            auto const f = i.str();
            by_width(i.n(), [&](auto t) {
                using T = typename decltype(t)::type;
                auto const v = static_cast<T>(drv::from_bits(i.list()));
                auto n = [&](int x) { res = drv::js(std::vector<int>{x}); };
                auto b = [&](T x) { res = drv::js(drv::bits_of(x)); };
                f == "clz"       ? n(stdx::countl_zero(v))
                : f == "ctz"     ? n(stdx::countr_zero(v))
                : f == "clo"     ? n(stdx::countl_one(v))
                : f == "cto"     ? n(stdx::countr_one(v))
                : f == "pop"     ? n(stdx::popcount(v))
                : f == "single"  ? n(stdx::has_single_bit(v))
                : f == "width"   ? n(stdx::bit_width(v))
                : f == "floor"   ? b(stdx::bit_floor(v))
                : f == "ceil"    ? b(stdx::bit_ceil(v))
                : f == "bswap"   ? b(stdx::byteswap(v))
                : f == "to_le"   ? b(stdx::to_le(v))
                : f == "to_be"   ? b(stdx::to_be(v))
                : f == "from_le" ? b(stdx::from_le(v))
                : f == "from_be" ? b(stdx::from_be(v))
                                 : drv::protocol(f);
            });
        } else if (op == "rotl" or op == "rotr") {
            by_width(i.n(), [&](auto t) {
                using T = typename decltype(t)::type;
                auto const v = static_cast<T>(drv::from_bits(i.list()));
                auto const s = static_cast<int>(i.num());
                res = drv::js(drv::bits_of(op == "rotl" ? stdx::rotl(v, s) : stdx::rotr(v, s)));
            });
        } else if (op == "mask" or op == "maskt") {
            auto const k = i.n();
            auto const msb = i.n();
            auto const lsb = i.n();
            by_type(k, [&](auto t) {
                using T = typename decltype(t)::type;
                if (op == "maskt") {
                    if constexpr (width<T>() <= 64) {
                        res = drv::js(all_bits(masks<T>[msb * width<T>() + lsb]));
                    }
                } else {
                    auto const m = lsb == 0 ? stdx::bit_mask<T>(msb) : stdx::bit_mask<T>(msb, lsb);
                    res = drv::js(all_bits(m));
                }
            });
        } else if (op == "pack") {
            auto const w = i.n();
            auto const k = i.n();
            auto const cnt = i.n();
            std::vector<std::uint64_t> p;
            for (std::size_t j = 0; j < cnt; ++j) {
                p.push_back(drv::from_bits(i.list()));
            }
            using std::uint16_t, std::uint32_t, std::uint64_t, std::uint8_t;
            std::uint64_t r{};
            auto b = [&](std::size_t j) { return static_cast<uint8_t>(p[j]); };
            auto h = [&](std::size_t j) { return static_cast<uint16_t>(p[j]); };
            auto x = [&](std::size_t j) { return static_cast<uint32_t>(p[j]); };
            if (w == 16) {
                r = stdx::bit_pack<uint16_t>(b(0), b(1));
            } else if (w == 32 and k == 16) {
                r = stdx::bit_pack<uint32_t>(h(0), h(1));
            } else if (w == 32) {
                r = stdx::bit_pack<uint32_t>(b(0), b(1), b(2), b(3));
            } else if (k == 32) {
                r = stdx::bit_pack<uint64_t>(x(0), x(1));
            } else if (k == 16) {
                r = stdx::bit_pack<uint64_t>(h(0), h(1), h(2), h(3));
            } else {
                r = stdx::bit_pack<uint64_t>(b(0), b(1), b(2), b(3), b(4), b(5), b(6), b(7));
            }
            res = drv::js(drv::bits_of(r));
        } else if (op == "unpack") {
            auto const w = i.n();
            auto const k = i.n();
            auto const v = drv::from_bits(i.list());
            by_width(w, [&](auto t) {
                by_width(k, [&](auto u) {
                    using T = typename decltype(t)::type;
                    using U = typename decltype(u)::type;
                    if constexpr (sizeof(U) <= sizeof(T)) {
                        std::vector<std::vector<int>> r;
                        for (auto e : stdx::bit_unpack<U>(static_cast<T>(v))) {
                            static_assert(std::is_same_v<decltype(e), U>);
                            r.push_back(drv::bits_of(e));
                        }
                        res = drv::js(r);
                    }
                });
            });
        } else if (op == "destr") {
            auto const w = i.n();
            auto const off = i.list();
            auto const v = drv::from_bits(i.list());
            std::vector<std::vector<int>> r;
            bool known = false;
            auto take = [&](auto const &a) {
                known = true;
                for (auto e : a) {
                    r.push_back(drv::bits_of(e));
                }
            };
#define DESTR(T, ...)                                                                              \
    if (w == 8 * sizeof(T) and off == std::vector<long long>{__VA_ARGS__}) {                       \
        take(stdx::bit_destructure<__VA_ARGS__>(static_cast<T>(v)));                               \
    }
            GENERATED_DESTRUCTURES
            if (not known) {
                drv::protocol("offsets");
            }
            res = drv::js(r);
        } else if (op == "suint") {
            res = drv::js(suint(std::make_index_sequence<71>{}).at(i.n()));
        } else {
            drv::protocol(op);
        }
        i.answer(res, "[]");
    }
};
} // namespace
#ifndef DRV_CX
int main() {
    static_assert(stdx::endian::native == stdx::endian::little);
    machine m{};
    return drv::loop([&](drv::in &i) { m.exec(i); });
}
#endif
