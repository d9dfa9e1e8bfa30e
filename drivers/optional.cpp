// Drives stdx::optional over several value types; 0 is the sentinel of each.
#include "drv.hpp"

#include <stdx/optional.hpp>
#include <tuple>

#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>

namespace {
// ---- values that know which objects are alive
std::set<void const *> live;
[[noreturn]] void broken(char const *what) {
    std::fprintf(stderr, "terminate called: lifetime: %s\n", what);
    std::abort();
}
// (evaluation by the compiler checks lifetimes itself)
struct tracker {
    constexpr tracker() {
        if not consteval {
            if (not live.insert(this).second) {
                broken("constructed over a live object");
            }
        }
    }
    constexpr ~tracker() {
        if not consteval {
            if (live.erase(this) != 1) {
                broken("destroyed an object that is not alive");
            }
        }
    }
    constexpr void use() const {
        if not consteval {
            if (not live.contains(this)) {
                broken("used an object that is not alive");
            }
        }
    }
};
constexpr auto alive() -> std::size_t {
    if consteval {
        return 0;
    } else {
        return live.size();
    }
}
template <bool Copy> struct obj_t : private tracker {
    int v;
    constexpr explicit(false) obj_t(int x) : v{x} {}
    constexpr obj_t(obj_t const &o)
        requires Copy
        : tracker{}, v{o.get()} {}
    constexpr obj_t(obj_t &&o) : tracker{}, v{o.get()} { o.v = -5; }
    constexpr auto operator=(obj_t const &o) -> obj_t &
        requires Copy
    {
        use();
        v = o.get();
        return *this;
    }
    constexpr auto operator=(obj_t &&o) -> obj_t & {
        use();
        v = o.get();
        if (this != &o) {
            o.v = -5;
        }
        return *this;
    }
    constexpr auto operator=(int x) -> obj_t & {
        use();
        v = x;
        return *this;
    }
    constexpr auto get() const -> int {
        use();
        return v;
    }
    constexpr friend auto operator==(obj_t const &a, obj_t const &b) -> bool { return a.get() == b.get(); }
    constexpr friend auto operator<(obj_t const &a, obj_t const &b) -> bool { return a.get() < b.get(); }
};
#ifdef DRV_LIFE
template <bool Copy> using subject = life::obj<Copy>;
#else
template <bool Copy> using subject = obj_t<Copy>;
#endif
using S = subject<true>;
using MO = subject<false>;
int arr[16];

template <typename T> struct conv;
template <bool C> struct conv<subject<C>> {
    constexpr static auto make(int v) -> subject<C> { return subject<C>{v}; }
    constexpr static auto num(subject<C> const &v) -> int { return v.get(); }
};
template <> struct conv<int> {
    constexpr static auto make(int v) -> int { return v == 0 ? -7 : v; }
    constexpr static auto num(int v) -> int { return v == -7 ? 0 : v; }
};
template <> struct conv<float> {
    constexpr static auto make(int v) -> float { return v == 0 ? std::numeric_limits<float>::infinity() : static_cast<float>(v); }
    constexpr static auto num(float v) -> int { return v == std::numeric_limits<float>::infinity() ? 0 : static_cast<int>(v); }
};
template <> struct conv<int *> {
    constexpr static auto make(int v) -> int * { return v == 0 ? nullptr : &arr[v]; }
    constexpr static auto num(int *v) -> int { return v == nullptr ? 0 : static_cast<int>(v - arr); }
};
template <> struct conv<std::pair<float, float>> {
    using C = conv<float>;
    constexpr static auto make(int v) -> std::pair<float, float> { return {C::make(v / 4), C::make(v % 4)}; }
    constexpr static auto num(std::pair<float, float> const &v) -> int { return C::num(v.first) * 4 + C::num(v.second); }
};
template <> struct conv<std::tuple<float, float>> {
    using C = conv<float>;
    constexpr static auto make(int v) -> std::tuple<float, float> { return {C::make(v / 4), C::make(v % 4)}; }
    constexpr static auto num(std::tuple<float, float> const &v) -> int { return C::num(std::get<0>(v)) * 4 + C::num(std::get<1>(v)); }
};
} // namespace

template <> struct stdx::tombstone_traits<S> {
    constexpr auto operator()() const -> S { return S{0}; }
};
template <> struct stdx::tombstone_traits<MO> {
    constexpr auto operator()() const -> MO { return MO{0}; }
};

namespace {
struct base {
    constexpr virtual ~base() = default;
    constexpr virtual void exec(drv::in &i) = 0;
};
// value category of a forwarded reference: 0 &, 1 const &, 2 &&, 3 const &&
template <typename T> constexpr int cat_of = (std::is_lvalue_reference_v<T> ? 0 : 2) +
                                             (std::is_const_v<std::remove_reference_t<T>> ? 1 : 0);

template <typename O> struct impl : base {
    constexpr ~impl() override {}
    using T = typename O::value_type;
    using C = conv<T>;
    constexpr static bool copyable = std::is_copy_constructible_v<T>;
    constexpr static bool two = requires(T t) { std::get<1>(t); };
    drv::two<std::unique_ptr<O>> reg{std::make_unique<O>(), std::make_unique<O>()};
    using calls_t = std::vector<std::pair<int, int>>;

    constexpr static auto mk(int v) -> O { return O{std::in_place, C::make(v)}; }
    constexpr static auto num(O const &o) -> int { return o.has_value() ? C::num(*o) : 0; }

    constexpr auto obs() -> std::string {
        life::look();
        O &x = *reg[0];
        O &y = *reg[1];
        std::vector<int> has{x.has_value(), y.has_value()};
        std::vector<int> bl{static_cast<bool>(x), static_cast<bool>(y)};
        std::vector<std::vector<int>> val(2);
        for (std::size_t j = 0; j < 2; ++j) {
            O &o = *reg[j];
            O const &c = o;
            if (o.has_value()) {
                val[j] = {C::num(o.value()), C::num(c.value()), C::num(*c), C::num(*o.operator->()),
                          C::num(*c.operator->())};
            }
        }
        O const &a = x;
        O const &b = y;
        std::vector<int> cmp{a == b, a != b, a < b, a <= b, a > b, a >= b};
        return drv::obj{}("has", has)("bool", bl)("val", val)("cmp", cmp)("live", alive()).done();
    }
    // a function object that logs the category and value it is called with
    template <typename R> constexpr auto fn(calls_t &calls, int k) {
        if constexpr (two) {
            return [&calls, k]<typename A, typename B>(A &&a, B &&b) -> R {
                auto const v = conv<float>::num(a) * 4 + conv<float>::num(b);
                calls.emplace_back(cat_of<A &&> == cat_of<B &&> ? cat_of<A &&> : -1, v);
                return R{S{(v + k) % 16}};
            };
        } else {
            return [&calls, k]<typename A>(A &&a) -> R {
                auto const v = C::num(a);
                calls.emplace_back(cat_of<A &&>, v);
                return R{S{(v + k) % 16}};
            };
        }
    }
    // calls op(o) with register o in the given value category
    template <typename F> constexpr auto with(std::size_t r, int cat, F op) {
        O &o = *reg[r];
        O tmp = mk(num(o));
        switch (cat) {
        case 0: return op(o);
        case 1: return op(std::as_const(o));
        case 2: return op(std::move(tmp));
        default: return op(std::move(std::as_const(tmp)));
        }
    }
    constexpr static auto so(stdx::optional<S> const &o) -> int { return o.has_value() ? o->get() : 0; }

    constexpr void exec(drv::in &i) override {
        auto const &op = i.op;
        std::string res = "[]";
        auto out = [&](calls_t const &c, int v) { res = "[" + drv::js(c) + "," + drv::js(v) + "]"; };
        if (op == "new") {
        } else if (op == "mtransform") {
            auto const n = i.n();
            std::vector<std::pair<std::size_t, int>> args;
            for (std::size_t k = 0; k < n; ++k) {
                i.num();
                auto r = i.n() - 1;
                args.emplace_back(r, static_cast<int>(i.num()));
            }
            auto const k = static_cast<int>(i.num());
            calls_t calls;
            auto f = [&]<typename... A>(A &&...a) -> S {
                (calls.emplace_back(cat_of<A &&>, C::num(a)), ...);
                return S{((C::num(a) + ... + 0) + k) % 16};
            };
            int v{};
            if (n == 1) {
                v = with(args[0].first, args[0].second,
                         [&]<typename A>(A &&a) { return so(stdx::transform(f, std::forward<A>(a))); });
            } else if (n == 2) {
                v = with(args[0].first, args[0].second, [&]<typename A>(A &&a) {
                    return with(args[1].first, args[1].second, [&]<typename B>(B &&b) {
                        return so(stdx::transform(f, std::forward<A>(a), std::forward<B>(b)));
                    });
                });
            } else if (n > 3) { // many optionals, all of the same category
                v = with(args[0].first, args[0].second, [&]<typename A>(A &&) {
                    auto const call = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
                        return so(stdx::transform(f, static_cast<A &&>(*reg[args[Is].first])...));
                    };
                    switch (n) {
                    case 4: return call(std::make_index_sequence<4>{});
                    case 5: return call(std::make_index_sequence<5>{});
                    case 7: return call(std::make_index_sequence<7>{});
                    default: drv::protocol("number of optionals");
                    }
                });
            } else {
                v = with(args[0].first, args[0].second, [&]<typename A>(A &&a) {
                    return with(args[1].first, args[1].second, [&]<typename B>(B &&b) {
                        return with(args[2].first, args[2].second, [&]<typename D>(D &&d) {
                            return so(stdx::transform(f, std::forward<A>(a), std::forward<B>(b), std::forward<D>(d)));
                        });
                    });
                });
            }
            out(calls, v);
        } else if (op == "mstd") {
            auto l = i.list();
            auto k = static_cast<int>(i.num());
            std::vector<int> calls;
            auto f = [&](auto... a) -> int {
                calls.push_back(1);
                return static_cast<int>((a + ... + 0)) + k;
            };
            std::vector<std::optional<int>> o;
            for (auto x : l) {
                o.push_back(x == 0 ? std::optional<int>{} : std::optional<int>{static_cast<int>(x)});
            }
            std::optional<int> v = l.size() == 1   ? stdx::transform(f, o[0])
                                   : l.size() == 2 ? stdx::transform(f, o[0], o[1])
                                   : l.size() == 3 ? stdx::transform(f, o[0], o[1], o[2])
                                   : l.size() == 4 ? stdx::transform(f, o[0], o[1], o[2], o[3])
                                                   : stdx::transform(f, o[0], o[1], o[2], o[3], o[4], o[5]);
            res = "[" + drv::js(calls) + "," + drv::js(v.value_or(-1)) + "]";
        } else {
            auto const r = i.n() - 1;
            O &o = *reg[r];
            auto val = [&] { return static_cast<int>(i.num()); };
            if (op == "ctor_none") {
                reg[r] = std::make_unique<O>();
            } else if (op == "ctor_nullopt") {
                reg[r] = std::make_unique<O>(std::nullopt);
            } else if (op == "ctor_val") {
                auto const v = val();
                reg[r] = std::make_unique<O>(C::make(v));
            } else if (op == "ctor_inplace") {
                auto const v = val();
                if constexpr (std::is_same_v<T, S> or std::is_same_v<T, MO>) {
                    reg[r] = std::make_unique<O>(std::in_place, v);
                } else if constexpr (two) {
                    reg[r] = std::make_unique<O>(std::in_place, conv<float>::make(v / 4), conv<float>::make(v % 4));
                } else {
                    reg[r] = std::make_unique<O>(std::in_place, C::make(v));
                }
            } else if (op == "assign_nullopt") {
                o = std::nullopt;
            } else if (op == "assign_val") {
                auto const v = val();
                if constexpr (std::is_scalar_v<T>) {
                    o = C::make(v);
                } else if constexpr (two) {
                    o = O{C::make(v)};
                } else {
                    o = v;
                }
            } else if (op == "emplace") {
                auto const v = val();
                if constexpr (std::is_same_v<T, S> or std::is_same_v<T, MO>) {
                    res = drv::js(std::vector<int>{C::num(o.emplace(v))});
                } else {
                    res = drv::js(std::vector<int>{C::num(o.emplace(C::make(v)))});
                }
            } else if (op == "reset") {
                o.reset();
            } else if (op == "write") {
                auto const v = val();
                auto const how = val();
                if (how == 0) {
                    *o = C::make(v);
                } else if (how == 1) {
                    o.value() = C::make(v);
                } else {
                    *o.operator->() = C::make(v);
                }
            } else if (op == "copy_ctor" or op == "copy_assign") {
                if constexpr (copyable) {
                    auto const q = i.n() - 1;
                    if (op == "copy_ctor") {
                        reg[r] = std::make_unique<O>(std::as_const(*reg[q]));
                    } else {
                        o = std::as_const(*reg[q]);
                    }
                }
            } else if (op == "move_ctor") {
                auto const q = i.n() - 1;
                reg[r] = std::make_unique<O>(std::move(*reg[q]));
                *reg[q] = std::nullopt;
            } else if (op == "move_assign") {
                auto const q = i.n() - 1;
                o = std::move(*reg[q]);
                *reg[q] = std::nullopt;
            } else if (op == "value_or") {
                auto const rv = val();
                auto const d = val();
                O tmp = mk(num(o));
                int x{};
                if (rv) {
                    x = C::num(std::move(tmp).value_or(C::make(d)));
                } else if constexpr (copyable) {
                    x = C::num(std::as_const(o).value_or(C::make(d)));
                }
                res = drv::js(std::vector<int>{x});
            } else if (op == "or_else") {
                auto const rv = val();
                auto const d = val();
                int n{};
                auto f = [&] {
                    ++n;
                    return mk(d);
                };
                O tmp = mk(num(o));
                int x{};
                if (rv) {
                    x = num(std::move(tmp).or_else(f));
                } else if constexpr (copyable) {
                    x = num(std::as_const(o).or_else(f));
                }
                res = drv::js(std::vector<int>{n, x});
            } else if (op == "transform" or op == "and_then" or op == "pipe") {
                auto const cat = val();
                auto const k = val();
                calls_t calls;
                int x{};
                if (op == "transform") {
                    x = with(r, cat, [&]<typename A>(A &&a) { return so(std::forward<A>(a).transform(fn<S>(calls, k))); });
                } else if (op == "and_then") {
                    x = with(r, cat, [&]<typename A>(A &&a) {
                        return so(std::forward<A>(a).and_then(fn<stdx::optional<S>>(calls, k)));
                    });
                } else {
                    x = with(r, cat, [&]<typename A>(A &&a) { return so(std::forward<A>(a) | fn<stdx::optional<S>>(calls, k)); });
                }
                out(calls, x);
            } else {
                drv::protocol(op);
            }
        }
        i.answer(res, obs());
    }
};
constexpr auto make(std::size_t k) -> std::unique_ptr<base> {
    switch (k) {
    case 0: return std::make_unique<impl<stdx::optional<S>>>();
    case 1: return std::make_unique<impl<stdx::optional<int, stdx::tombstone_value<-7>>>>();
    case 2: return std::make_unique<impl<stdx::optional<float>>>();
    case 3: return std::make_unique<impl<stdx::optional<int *>>>();
    case 4: return std::make_unique<impl<stdx::optional<std::pair<float, float>>>>();
    case 5: return std::make_unique<impl<stdx::optional<std::tuple<float, float>>>>();
    case 6: return std::make_unique<impl<stdx::optional<MO>>>();
    default: drv::protocol("kind");
    }
}
} // namespace
#ifndef DRV_CX
int main() {
    {
        auto d = stdx::optional{1.5f};
        static_assert(std::is_same_v<decltype(d), stdx::optional<float>>);
    }
    std::unique_ptr<base> cur;
    return drv::loop([&](drv::in &i) {
        if (i.op == "end") {
            cur.reset();
            return i.answer("[]", "[]");
        }
        if (i.op == "new") {
            cur.reset();
            cur = make(i.n());
        }
        cur->exec(i);
    });
}
#endif
