// Drives stdx::type_bitset.  The generated header defines
//   LIST(index, types...)           for every type list
//   SEL(index, types...)            for every selection of types used with it
#include "drv.hpp"

#include <stdx/bitset.hpp>
#include <stdx/type_traits.hpp>

#include <functional>
#include <map>
#include <memory>

namespace {
struct incomplete;
template <int I> struct tag {
    using type = tag;
};
template <int I> struct ty_ {
    using type = tag<I>;
};
template <> struct ty_<0> { using type = int; };
template <> struct ty_<1> { using type = int const; };
template <> struct ty_<2> { using type = int &; };
template <> struct ty_<3> { using type = incomplete; };
template <> struct ty_<4> { using type = void; };
template <int I> using ty = typename ty_<I>::type;
template <typename T> constexpr int id_of = T::type::no_such;
template <int I> constexpr int id_of<tag<I>> = I;
template <> constexpr int id_of<int> = 0;
template <> constexpr int id_of<int const> = 1;
template <> constexpr int id_of<int &> = 2;
template <> constexpr int id_of<incomplete> = 3;
template <> constexpr int id_of<void> = 4;

using sel_t = std::vector<long long>;
struct base {
    constexpr virtual ~base() = default;
    constexpr virtual void exec(drv::in &i) = 0;
};
template <int L> struct lst;
#define LIST(k, ...)                                                                                                   \
    template <> struct lst<k> {                                                                                        \
        template <template <int...> typename F> using apply = F<__VA_ARGS__>;                                          \
    };
#define SEL(...)
#include GENERATED
#undef LIST
#undef SEL

template <int... Is> using bs_of = stdx::type_bitset<ty<Is>...>;
template <int... Is> struct ids {
    template <typename F> constexpr static void each(F f) { (f.template operator()<Is>(), ...); }
};
struct collect {
    std::vector<std::pair<int, int>> v{};
    template <typename T, std::size_t I> constexpr void operator()() { v.emplace_back(id_of<T>, static_cast<int>(I)); }
};

template <typename B, int... Us> constexpr auto apply_sel(std::string const &op, B &b, bool v) -> bool {
    if (op == "ctor") {
        b = B{stdx::type_list<ty<Us>...>{}};
    } else if (op == "set") {
        b.template set<ty<Us>...>();
    } else if (op == "setv") {
        b.template set<ty<Us>...>(v);
    } else if (op == "reset") {
        b.template reset<ty<Us>...>();
    } else if (op == "clear") {
        b.template clear<ty<Us>...>();
    } else {
        b.template flip<ty<Us>...>();
    }
    return true;
}
template <int K, typename B> constexpr auto choose(std::string const &op, sel_t const &s, B &b, bool v) -> bool {
#define LIST(...)
#define SEL(k, ...)                                                                                                    \
    if constexpr (K == k) {                                                                                            \
        if (s == sel_t{__VA_ARGS__}) {                                                                                 \
            return apply_sel<B __VA_OPT__(, ) __VA_ARGS__>(op, b, v);                                                  \
        }                                                                                                              \
    }
#include GENERATED
#undef LIST
#undef SEL
    return false;
}

template <int K> struct impl : base {
    using B = typename lst<K>::template apply<bs_of>;
    using Ids = typename lst<K>::template apply<ids>;
    drv::two<B> reg;
    constexpr auto kept() const { return reg; }
    constexpr void restore(auto const &x) { reg = x; }
    constexpr auto obs(std::size_t r) -> std::string {
        B const &b = reg[r];
        std::vector<int> has;
        std::vector<bool> seen(200);
        Ids::each([&]<int I>() {
            if (not seen[I]) {
                seen[I] = true;
                if (b[stdx::type_identity_v<ty<I>>]) {
                    has.push_back(I);
                }
            }
        });
        std::vector<int> nat;
        if constexpr (B::capacity() <= 64) {
            nat = drv::bits_of(b.to_natural());
            if (drv::bits_of(b.template to<std::uint64_t>()) != nat) {
                nat.push_back(-99);
            }
        }
        auto vs = b.for_each(collect{});
        collect vu{};
        auto vu2 = b.template for_each<stdx::unset_bit>(vu);
        return drv::obj{}("has", has)("cap", std::size_t{B::capacity()})("cnt", b.count())("size", b.size())(
                   "empty", b.empty())("all", b.all())("any", b.any())("none", b.none())("vset", vs.v)(
                   "vunset", vu2.v.empty() ? vu.v : vu2.v)("nat", nat)("eq", reg[0] == reg[1])
            .done();
    }
    constexpr void exec(drv::in &i) override {
        auto const &op = i.op;
        if (op == "new") {
            return i.answer("0", obs(0));
        }
        auto const r = i.n() - 1;
        B &x = reg[r];
        auto other = [&]() -> B const & { return reg[i.n() - 1]; };
        if (op == "ctor" or op == "set" or op == "setv" or op == "reset" or op == "clear" or op == "flip") {
            auto s = i.list();
            auto v = op == "setv" ? i.b() : true;
            if (not choose<K>(op, s, x, v)) {
                drv::protocol("selection");
            }
        } else if (op == "ctor_all") {
            x = B{stdx::all_bits};
        } else if (op == "ctor_u64") {
            x = B{drv::from_bits(i.list())};
        } else if (op == "set_all") {
            x.set();
        } else if (op == "reset_all") {
            x.reset();
        } else if (op == "clear_all") {
            x.clear();
        } else if (op == "flip_all") {
            x.flip();
        } else if (op == "or") {
            x = x | other();
        } else if (op == "and") {
            x = x & other();
        } else if (op == "xor") {
            x = x ^ other();
        } else if (op == "minus") {
            x = x - other();
        } else if (op == "or_as") {
            x |= other();
        } else if (op == "and_as") {
            x &= other();
        } else if (op == "xor_as") {
            x ^= other();
        } else if (op == "not") {
            x = ~other();
        } else if (op == "copy") {
            B t{other()};
            x = t;
        } else {
            drv::protocol(op);
        }
        i.answer("0", obs(r));
    }
};
std::map<long long, std::function<std::unique_ptr<base>()>> lists;
template <int K> constexpr void add_list() {
    lists[K] = [] { return std::make_unique<impl<K>>(); };
}
} // namespace
#ifndef DRV_CX
int main() {
#define LIST(k, ...) add_list<k>();
#define SEL(...)
#include GENERATED
    std::unique_ptr<base> cur;
    return drv::loop([&](drv::in &i) {
        if (i.op == "new") {
            auto it = lists.find(i.num());
            if (it == lists.end()) {
                drv::protocol("list");
            }
            cur = it->second();
        }
        cur->exec(i);
    });
}
#endif
