// Drives stdx::bitset: two registers of one type per configuration.
#include "drv.hpp"

#include <stdx/bitset.hpp>

#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace {
enum struct E5 : std::uint8_t { a, b, c, d, e, max };
enum struct E70 : std::uint16_t { max = 70 };

struct base {
    constexpr virtual ~base() = default;
    constexpr virtual void exec(drv::in &i) = 0;
};

template <typename BS, typename Idx> struct impl : base {
    constexpr static std::size_t N = BS::capacity();
    drv::two<BS> reg;
    constexpr auto kept() const { return reg; }
    constexpr void restore(auto const &x) { reg = x; }

    constexpr static auto ix(std::size_t i) { return static_cast<Idx>(i); }

    constexpr auto obs(BS const &b) -> std::string {
        drv::obj o;
        std::vector<std::size_t> bits, vs, vu, red;
        for (std::size_t i = 0; i < N; ++i) {
            if (b[ix(i)]) {
                bits.push_back(i);
            }
        }
        stdx::for_each([&](auto i) { vs.push_back(static_cast<std::size_t>(i)); }, b);
        stdx::for_each<stdx::unset_bit>([&](auto i) { vu.push_back(static_cast<std::size_t>(i)); }, b);
        std::vector<std::pair<std::size_t, int>> vb;
        stdx::for_each<stdx::bit>(
            [&](auto i, bool v) { vb.emplace_back(static_cast<std::size_t>(i), v ? 1 : 0); }, b);
        red = stdx::transform_reduce(
            [](auto i) { return std::vector<std::size_t>{static_cast<std::size_t>(i)}; },
            [](std::vector<std::size_t> a, std::vector<std::size_t> const &c) {
                a.insert(a.end(), c.begin(), c.end());
                return a;
            },
            std::vector<std::size_t>{}, b);
        std::vector<int> nat;
        if constexpr (N <= 64) {
            nat = drv::bits_of(b.to_natural());
            auto const n2 = drv::bits_of(b.template to<std::uint64_t>());
            if (n2 != nat) {
                nat.push_back(-1);
            }
        }
        o("bits", bits)("cnt", b.count())("size", b.size())("cap", N)("all", b.all())("any", b.any());
        o("none", b.none())("empty", b.empty())("low", static_cast<std::size_t>(b.lowest_unset()));
        o("vset", vs)("vunset", vu)("vbit", vb)("red", red)("nat", nat);
        return o.done();
    }
    constexpr auto bits(BS const &b) -> std::vector<std::size_t> {
        std::vector<std::size_t> r;
        for (std::size_t i = 0; i < N; ++i) {
            if (b[ix(i)]) {
                r.push_back(i);
            }
        }
        return r;
    }
    constexpr void done(drv::in &i, std::size_t r) {
        drv::obj o;
        o.raw("x", obs(reg[r]))("other", bits(reg[1 - r]))("eq", reg[0] == reg[1]);
        i.answer("0", o.done());
    }

    constexpr void exec(drv::in &i) override {
        auto const &op = i.op;
        if (op == "new") {
            return done(i, 0);
        }
        auto const r = i.n() - 1;
        auto &x = reg[r];
        auto L = [&] { return static_cast<stdx::lsb_t>(i.n()); };
        auto M = [&] { return static_cast<stdx::msb_t>(i.n()); };
        auto LEN = [&] { return static_cast<stdx::length_t>(i.n()); };
        auto other = [&]() -> BS & { return reg[i.n() - 1]; };
        if (op == "ctor_u64") {
            x = BS{drv::from_bits(i.list())};
        } else if (op == "ctor_all") {
            x = BS{stdx::all_bits};
        } else if (op == "ctor_none") {
            x = BS{};
        } else if (op == "ctor_places") {
            auto l = i.list();
            switch (l.size()) {
            case 0: x = BS{stdx::place_bits}; break;
            case 1: x = BS{stdx::place_bits, ix(l[0])}; break;
            case 2: x = BS{stdx::place_bits, ix(l[0]), ix(l[1])}; break;
            default: x = BS{stdx::place_bits, ix(l[0]), ix(l[1]), ix(l[2])}; break;
            }
        } else if (op == "ctor_str" or op == "ctor_strx") {
            auto l = i.list();
            auto pos = i.n();
            auto n = i.num();
            std::string s;
            bool const x_ = op == "ctor_strx";
            for (auto c : l) {
                s += x_ ? (c ? 'A' : '1') : (c ? '1' : '0');
            }
            auto const nn = n < 0 ? std::string_view::npos : static_cast<std::size_t>(n);
            if (x_) {
                x = BS{std::string_view{s}, pos, nn, 'A'};
            } else if (n < 0 and pos == 0) {
                x = BS{std::string_view{s}};
            } else {
                x = BS{std::string_view{s}, pos, nn};
            }
        } else if (op == "ctor_cts") {
            auto l = i.list();
            stdx::ct_string<N + 1> s{};
            for (std::size_t k = 0; k < N; ++k) {
                s.value[k] = l.at(k) ? '1' : '0';
            }
            x = BS{s};
            stdx::bitset const d{s};
            static_assert(decltype(d)::capacity() == N);
            for (std::size_t k = 0; k < N; ++k) {
                if (d[k] != x[ix(static_cast<long long>(k))]) {
                    drv::fail("a bitset of deduced size differs");
                }
            }
        } else if (op == "copy") {
            x = other();
        } else if (op == "set") {
            auto p = i.n();
            x.set(ix(p), i.b());
        } else if (op == "set1") {
            x.set(ix(i.n()));
        } else if (op == "set_range") {
            auto l = L();
            auto m = M();
            i.b() ? x.set(l, m) : x.set(l, m, false);
        } else if (op == "set_len") {
            auto l = L();
            auto m = LEN();
            i.b() ? x.set(l, m) : x.set(l, m, false);
        } else if (op == "set_all") {
            x.set();
        } else if (op == "reset") {
            x.reset(ix(i.n()));
        } else if (op == "clear") {
            x.clear(ix(i.n()));
        } else if (op == "reset_range") {
            auto l = L();
            x.reset(l, M());
        } else if (op == "clear_range") {
            auto l = L();
            x.clear(l, M());
        } else if (op == "reset_len") {
            auto l = L();
            x.reset(l, LEN());
        } else if (op == "clear_len") {
            auto l = L();
            x.clear(l, LEN());
        } else if (op == "reset_all") {
            x.reset();
        } else if (op == "clear_all") {
            x.clear();
        } else if (op == "flip") {
            x.flip(ix(i.n()));
        } else if (op == "flip_all") {
            x.flip();
        } else if (op == "or_as") {
            x |= other();
        } else if (op == "and_as") {
            x &= other();
        } else if (op == "xor_as") {
            x ^= other();
        } else if (op == "or" or op == "and" or op == "xor" or op == "minus") {
            auto &a = other();
            auto &b = other();
            x = op == "or" ? a | b : op == "and" ? a & b : op == "xor" ? a ^ b : a - b;
        } else if (op == "not") {
            x = ~other();
        } else if (op == "shl_as") {
            x <<= i.n();
        } else if (op == "shr_as") {
            x >>= i.n();
        } else if (op == "shl") {
            auto &a = other();
            x = a << i.n();
        } else if (op == "shr") {
            auto &a = other();
            x = a >> i.n();
        } else {
            drv::protocol(op);
        }
        done(i, r);
    }
};

using maker = std::function<std::unique_ptr<base>()>;
constexpr auto registry() -> std::map<std::pair<std::size_t, std::size_t>, maker> & {
    static std::map<std::pair<std::size_t, std::size_t>, maker> m;
    return m;
}
template <std::size_t W> struct elem;
template <> struct elem<8> { using type = std::uint8_t; };
template <> struct elem<16> { using type = std::uint16_t; };
template <> struct elem<32> { using type = std::uint32_t; };
template <> struct elem<64> { using type = std::uint64_t; };

template <std::size_t N, std::size_t W> constexpr void reg() {
    if constexpr (W == 0) {
        registry()[{N, W}] = [] { return std::make_unique<impl<stdx::bitset<N>, std::size_t>>(); };
    } else if constexpr (W == 1) {
        static_assert(N == 5 or N == 70);
        if constexpr (N == 5) {
            registry()[{N, W}] = [] { return std::make_unique<impl<stdx::bitset<E5::max>, E5>>(); };
        } else {
            registry()[{N, W}] = [] { return std::make_unique<impl<stdx::bitset<E70::max>, E70>>(); };
        }
    } else {
        registry()[{N, W}] = [] {
            return std::make_unique<impl<stdx::bitset<N, typename elem<W>::type>, std::size_t>>();
        };
    }
}
} // namespace

#ifndef DRV_CX
int main() {
#define C(N, W) reg<N, W>();
    CONFIGS
    std::unique_ptr<base> cur;
    return drv::loop([&](drv::in &i) {
        if (i.op == "new") {
            auto n = i.n();
            auto w = i.n();
            auto it = registry().find({n, w});
            if (it == registry().end()) {
                drv::protocol("no such configuration");
            }
            cur = it->second();
        }
        cur->exec(i);
    });
}
#endif
