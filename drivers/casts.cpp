// Drives saturate_cast, as_signed/as_unsigned and the size conversions.
#include "drv.hpp"

#include <stdx/numeric.hpp>
#include <stdx/utility.hpp>

#include <array>
#include <limits>

namespace {
template <typename T> struct id {
    using type = T;
};
template <typename F> constexpr void by_type(std::string const &t, F f) {
    if (t == "bool") { f(id<bool>{}); }
    else if (t == "char") { f(id<char>{}); }
    else if (t == "schar") { f(id<signed char>{}); }
    else if (t == "uchar") { f(id<unsigned char>{}); }
    else if (t == "short") { f(id<short>{}); }
    else if (t == "ushort") { f(id<unsigned short>{}); }
    else if (t == "int") { f(id<int>{}); }
    else if (t == "uint") { f(id<unsigned>{}); }
    else if (t == "long") { f(id<long>{}); }
    else if (t == "ulong") { f(id<unsigned long>{}); }
    else if (t == "llong") { f(id<long long>{}); }
    else if (t == "ullong") { f(id<unsigned long long>{}); }
    else if (t == "wchar") { f(id<wchar_t>{}); }
    else if (t == "char8") { f(id<char8_t>{}); }
    else if (t == "char16") { f(id<char16_t>{}); }
    else if (t == "char32") { f(id<char32_t>{}); }
    else { drv::protocol(t); }
}
template <typename T> constexpr auto out(T v) -> std::vector<int> {
    std::uint64_t u = static_cast<std::uint64_t>(v);
    std::vector<int> r;
    for (std::size_t i = 0; i < sizeof(T); ++i) {
        r.push_back(static_cast<int>((u >> (8 * i)) & 0xff));
    }
    return r;
}
template <typename T> constexpr auto from(std::vector<long long> const &l) -> T {
    std::uint64_t v{};
    for (std::size_t i = 0; i < l.size(); ++i) {
        v |= static_cast<std::uint64_t>(l[i]) << (8 * i);
    }
    return static_cast<T>(v);
}
template <std::size_t N> struct elem {
    char c[N];
};
template <typename F> constexpr void by_size(std::size_t n, F f) {
    switch (n) {
    case 1: return f(id<std::uint8_t>{});
    case 2: return f(id<std::uint16_t>{});
    case 3: return f(id<elem<3>>{});
    case 4: return f(id<std::uint32_t>{});
    case 5: return f(id<elem<5>>{});
    case 6: return f(id<elem<6>>{});
    case 7: return f(id<elem<7>>{});
    case 8: return f(id<std::uint64_t>{});
    case 12: return f(id<elem<12>>{});
    case 16: return f(id<elem<16>>{});
    default: drv::protocol("size");
    }
}
using row_t = std::array<std::size_t, 5>;
template <typename T, typename U, std::size_t... Ns> constexpr auto table(std::index_sequence<Ns...>) {
    return std::vector<row_t>{row_t{stdx::udl_sized<T, Ns>{}->z8, stdx::udl_sized<T, Ns>{}->z16,
                                    stdx::udl_sized<T, Ns>{}->z32, stdx::udl_sized<T, Ns>{}->z64,
                                    stdx::udl_sized<T, Ns>::template in<U>}...};
}
struct machine {
    constexpr void exec(drv::in &i) {
        std::string res = "[]";
        if (i.op == "sat") {
            auto const f = i.str();
            auto const t = i.str();
            auto const l = i.list();
            by_type(f, [&](auto F) {
                by_type(t, [&](auto T) {
                    using From = typename decltype(F)::type;
                    using To = typename decltype(T)::type;
                    auto const r = stdx::saturate_cast<To>(from<From>(l));
                    static_assert(std::is_same_v<decltype(r), To const>);
                    res = drv::js(out<To>(r));
                });
            });
        } else if (i.op == "satrow") {
            auto const f = i.str();
            auto const t = i.str();
            std::vector<std::vector<int>> rows;
            by_type(f, [&](auto F) {
                by_type(t, [&](auto T) {
                    using From = typename decltype(F)::type;
                    using To = typename decltype(T)::type;
                    for (int v = 0; v < (std::is_same_v<From, bool> ? 2 : 256); ++v) {
                        rows.push_back(out<To>(stdx::saturate_cast<To>(static_cast<From>(v))));
                    }
                });
            });
            res = drv::js(rows);
        } else if (i.op == "size") {
            auto const s = i.n();
            auto const u = i.n();
            auto const k = from<std::size_t>(i.list());
            by_size(s, [&](auto S) {
                by_size(u, [&](auto U) {
                    using TS = typename decltype(S)::type;
                    using TU = typename decltype(U)::type;
                    auto const r = stdx::sized<TS>{k}.template in<TU>();
                    if constexpr (sizeof(TU) == 1) {
                        if (r != stdx::sized<TS>{k}.in()) {
                            drv::protocol("the default unit is not a byte");
                        }
                    }
                    res = drv::js(out(r));
                });
            });
        } else if (i.op == "static") {
            auto const s = i.n();
            auto const u = i.n();
            auto const k = i.n();
            by_size(s, [&](auto S) {
                using TS = typename decltype(S)::type;
                if constexpr (std::is_integral_v<TS>) {
                    auto seq = std::make_index_sequence<33>{};
                    auto const r = u == 1   ? table<TS, std::uint8_t>(seq)
                                   : u == 3 ? table<TS, elem<3>>(seq)
                                            : table<TS, std::uint64_t>(seq);
                    std::vector<std::vector<int>> o;
                    for (auto x : r.at(k)) {
                        o.push_back(out(x));
                    }
                    res = drv::js(o);
                }
            });
        } else if (i.op == "unsign" or i.op == "sign") {
            auto const f = i.str();
            auto const l = i.list();
            by_type(f, [&](auto F) {
                using From = typename decltype(F)::type;
                if constexpr (not std::is_same_v<From, bool>) {
                    auto a = stdx::as_unsigned(from<From>(l));
                    auto b = stdx::as_signed(from<From>(l));
                    res = i.op == "unsign" ? "[" + drv::js(out(a)) + "," + drv::js(int{std::is_signed_v<decltype(a)>}) + "]"
                                           : "[" + drv::js(out(b)) + "," + drv::js(int{std::is_signed_v<decltype(b)>}) + "]";
                }
            });
        }
        i.answer(res, "[]");
    }
};
} // namespace
#ifndef DRV_CX
int main() {
    machine m{};
    return drv::loop([&](drv::in &i) { m.exec(i); });
}
#endif
