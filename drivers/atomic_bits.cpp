// Drives stdx::atomic_bitset: concurrent programs over one bit set.
#include "sched.hpp"

#include <stdx/atomic_bitset.hpp>

#include <new>

namespace {
enum struct E5 : std::uint8_t { max = 5 };
enum struct E16 : std::uint32_t { max = 16 };

template <typename A, typename Idx, std::size_t N> struct target {
    alignas(64) inline static unsigned char mem[sizeof(A)];
    inline static A *obj{};
    using bits_t = decltype(std::declval<A const &>().load());

    static auto pos(bits_t const &b) -> std::vector<long long> {
        std::vector<long long> r;
        for (std::size_t i = 0; i < N; ++i) {
            if (b[static_cast<Idx>(i)]) {
                r.push_back(static_cast<long long>(i));
            }
        }
        return r;
    }
    static auto num(auto v) -> std::vector<long long> {
        auto const b = drv::bits_of(v);
        return {b.begin(), b.end()};
    }
    static auto ix(long long i) { return static_cast<Idx>(i); }
    template <typename F, typename G> static auto mo(long long m, F with, G without) {
        return m < 0 ? without() : with(static_cast<std::memory_order>(m));
    }
    static void make(std::string const &kind, std::vector<long long> const &l) {
        static_assert(A::size() == N);
        if (kind == "none") {
            obj = ::new (mem) A{};
        } else if (kind == "all") {
            obj = ::new (mem) A{stdx::all_bits};
        } else if (kind == "value") {
            obj = ::new (mem) A{drv::from_bits(l)};
        } else if (kind == "places") {
            switch (l.size()) {
            case 0: obj = ::new (mem) A{stdx::place_bits}; break;
            case 1: obj = ::new (mem) A{stdx::place_bits, ix(l[0])}; break;
            case 2: obj = ::new (mem) A{stdx::place_bits, ix(l[0]), ix(l[1])}; break;
            default: obj = ::new (mem) A{stdx::place_bits, ix(l[0]), ix(l[1]), ix(l[2])}; break;
            }
        } else if (kind == "str") {
            std::string s;
            for (auto c : l) {
                s += c ? '1' : '0';
            }
            obj = ::new (mem) A{std::string_view{s}};
        } else if (kind == "part") {
            std::string s;
            for (std::size_t k = 2; k < l.size(); ++k) {
                s += l[k] ? 'x' : '1';
            }
            obj = ::new (mem) A{std::string_view{s}, static_cast<std::size_t>(l.at(0)), static_cast<std::size_t>(l.at(1)), 'x'};
        } else if (kind == "ctstr") {
            stdx::ct_string<N + 1> s{};
            for (std::size_t k = 0; k < N; ++k) {
                s.value[k] = l.at(k) ? '1' : '0';
            }
            static_assert(decltype(stdx::atomic_bitset{s})::size() == N);
            obj = ::new (mem) A{s};
        } else {
            drv::protocol(kind);
        }
        sched::image.adopt(mem, sizeof(A));
    }
    static auto exec(sched::call const &c) -> std::vector<long long> {
        A &x = *obj;
        A const &cx = x;
        auto const &op = c.op;
        auto const &a = c.a;
        auto const m = a.empty() ? -1 : a[0];
        using R = std::vector<long long>;
        auto L = [&] { return static_cast<stdx::lsb_t>(a.at(1)); };
        auto M = [&] { return static_cast<stdx::msb_t>(a.at(2)); };
        auto LEN = [&] { return static_cast<stdx::length_t>(a.at(2)); };
#define EITHER(W, WO)                                                                                                  \
    mo(                                                                                                                \
        m, [&](auto o) -> R { return W; }, [&]() -> R { return WO; })
        if (op == "load") {
            return EITHER(pos(cx.load(o)), pos(cx.load()));
        }
        if (op == "conv") {
            bits_t b = cx;
            return pos(b);
        }
        if (op == "to") {
            return EITHER(num(cx.template to<std::uint64_t>(o)), num(cx.template to<std::uint64_t>()));
        }
        if (op == "nat") {
            return EITHER(num(cx.to_natural(o)), num(cx.to_natural()));
        }
        if (op == "idx") {
            return {cx[ix(a.at(0))]};
        }
        if (op == "all") {
            return EITHER(R{cx.all(o)}, R{cx.all()});
        }
        if (op == "any") {
            return EITHER(R{cx.any(o)}, R{cx.any()});
        }
        if (op == "none") {
            return EITHER(R{cx.none(o)}, R{cx.none()});
        }
        if (op == "count") {
            return EITHER(R{static_cast<long long>(cx.count(o))}, R{static_cast<long long>(cx.count())});
        }
        if (op == "store") {
            bits_t b{};
            for (std::size_t k = 1; k < a.size(); ++k) {
                b.set(ix(a[k]));
            }
            return EITHER((x.store(b, o), R{}), (x.store(b), R{}));
        }
        if (op == "set") {
            return EITHER(pos(x.set(ix(a.at(1)), a.at(2) != 0, o)), pos(x.set(ix(a.at(1)), a.at(2) != 0)));
        }
        if (op == "set1") {
            return pos(x.set(ix(a.at(0))));
        }
        if (op == "setr") {
            return EITHER(pos(x.set(L(), M(), a.at(3) != 0, o)), pos(a.at(3) ? x.set(L(), M()) : x.set(L(), M(), false)));
        }
        if (op == "setl") {
            return EITHER(pos(x.set(L(), LEN(), a.at(3) != 0, o)),
                          pos(a.at(3) ? x.set(L(), LEN()) : x.set(L(), LEN(), false)));
        }
        if (op == "seta") {
            return EITHER((&x.set(o) == &x ? R{} : R{-1}), (&x.set() == &x ? R{} : R{-1}));
        }
        if (op == "reset") {
            return EITHER(pos(x.reset(ix(a.at(1)), o)), pos(x.reset(ix(a.at(1)))));
        }
        if (op == "resetr") {
            return EITHER(pos(x.reset(L(), M(), o)), pos(x.reset(L(), M())));
        }
        if (op == "resetl") {
            return EITHER(pos(x.reset(L(), LEN(), o)), pos(x.reset(L(), LEN())));
        }
        if (op == "reseta") {
            return EITHER((&x.reset(o) == &x ? R{} : R{-1}), (&x.reset() == &x ? R{} : R{-1}));
        }
        if (op == "flip") {
            return EITHER(pos(x.flip(ix(a.at(1)), o)), pos(x.flip(ix(a.at(1)))));
        }
        if (op == "flipr") {
            return EITHER(pos(x.flip(L(), M(), o)), pos(x.flip(L(), M())));
        }
        if (op == "flipl") {
            return EITHER(pos(x.flip(L(), LEN(), o)), pos(x.flip(L(), LEN())));
        }
        if (op == "flipa") {
            return EITHER(pos(x.flip(o)), pos(x.flip()));
        }
        drv::protocol(op);
    }
};
struct entry {
    std::function<void(std::string const &, std::vector<long long> const &)> make;
    sched::exec_t exec;
};
std::map<std::string, entry> reg;
template <typename A, typename Idx, std::size_t N> void add(std::string const &n) {
    reg[n] = {target<A, Idx, N>::make, target<A, Idx, N>::exec};
}
template <std::size_t... Ns> void sizes() {
    (add<stdx::atomic_bitset<Ns>, std::size_t, Ns>("d" + std::to_string(Ns)), ...);
}
} // namespace

int main() {
    sizes<1, 2, 3, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64>();
    add<stdx::atomic_bitset<3, std::uint32_t>, std::size_t, 3>("w3");
    add<stdx::atomic_bitset<8, std::uint64_t>, std::size_t, 8>("w8");
    add<stdx::atomic_bitset<E5::max>, E5, 5>("e5");
    add<stdx::atomic_bitset<E16::max>, E16, 16>("e16");
    return drv::loop([&](drv::in &i) {
        auto it = reg.find(i.str());
        if (it == reg.end()) {
            drv::protocol("type");
        }
        auto const kind = i.str();
        auto const init = i.list();
        auto const limit = i.n();
        std::vector<std::vector<sched::call>> prog(i.n());
        for (auto &t : prog) {
            t.resize(i.n());
            for (auto &c : t) {
                i.num();
                c.op = i.str();
                c.a = i.list();
            }
        }
        std::size_t runs{};
        auto hs = sched::all(prog, [&] { it->second.make(kind, init); }, it->second.exec, limit, runs);
        std::string r = "[";
        for (auto const &h : hs) {
            r += r.size() > 1 ? ",[" : "[";
            for (std::size_t k = 0; k < h.size(); ++k) {
                r += (k ? "," : "") + h[k];
            }
            r += "]";
        }
        drv::answer(r + "]", drv::js(runs));
    });
}
