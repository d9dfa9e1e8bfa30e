// Drives stdx::span over arrays and vectors of 16-bit elements.
#include "drv.hpp"

#include <stdx/span.hpp>

#include <array>
#include <cstring>
#include <memory>
#include <vector>

namespace {
using E = std::uint16_t;
constexpr int max_static = 6;
constexpr auto dyn = stdx::dynamic_extent;

// ---- storage
struct storage {
    constexpr virtual ~storage() = default;
    constexpr virtual auto data() -> E * = 0;
    constexpr virtual auto size() -> std::size_t = 0;
};
struct view {
    constexpr virtual ~view() = default;
    constexpr virtual auto obs(storage &) -> std::string = 0;
    constexpr virtual auto step(drv::in &i, std::string &res) -> std::unique_ptr<view> = 0;
};
template <typename T, std::size_t X> constexpr auto mk(stdx::span<T, X> s) -> std::unique_ptr<view>;

template <typename F> constexpr void with_static(std::size_t n, F f) {
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        ((n == Is ? f(std::integral_constant<std::size_t, Is>{}) : void()), ...);
    }(std::make_index_sequence<max_static + 1>{});
}

template <typename T, std::size_t X> struct view_t : view {
    constexpr ~view_t() override {}
    stdx::span<T, X> s;
    constexpr explicit view_t(stdx::span<T, X> x) : s{x} {}
    using S = stdx::span<T, X>;
    constexpr static bool cst = std::is_const_v<T>;

    constexpr auto obs(storage &st) -> std::string override {
        static_assert(S::extent == X);
        static_assert(std::is_same_v<typename S::element_type, T> and std::is_same_v<typename S::value_type, E>);
        using V = std::vector<int>;
        auto const n = s.size();
        V fwd(s.begin(), s.end());
        V cfwd(s.cbegin(), s.cend());
        V idx;
        for (std::size_t k = 0; k < n; ++k) {
            idx.push_back(s[k]);
        }
        V rev(s.rbegin(), s.rend());
        V crev(s.crbegin(), s.crend());
        V ends;
        if (not s.empty()) {
            ends = {s.front(), s.back()};
        }
        V raw;
        if consteval { // where there are no bytes to see
            for (auto x : fwd) {
                raw.push_back(x % 256);
                raw.push_back(x / 256);
            }
        } else {
            auto const b = stdx::as_bytes(s);
            static_assert(b.extent == (X == dyn ? dyn : X * sizeof(E)));
            for (auto x : b) {
                raw.push_back(static_cast<int>(x));
            }
            if constexpr (not cst) {
                auto const w = stdx::as_writable_bytes(s);
                static_assert(w.extent == b.extent);
                if (w.size() != b.size() or static_cast<void const *>(w.data()) != b.data()) {
                    drv::fail("the byte views differ");
                }
            }
        }
        return drv::obj{}("ext", X == dyn ? -1 : static_cast<int>(X))("size", n)("bytes", s.size_bytes())(
                   "empty", int{s.empty()})("off", s.data() == nullptr ? -1 : static_cast<int>(s.data() - st.data()))(
                   "cst", int{cst})("fwd", fwd)("cfwd", cfwd)("idx", idx)("rev", rev)("crev", crev)("ends", ends)(
                   "raw", raw)("data", V(st.data(), st.data() + st.size()))
            .done();
    }
    constexpr auto step(drv::in &i, std::string &res) -> std::unique_ptr<view> override {
        auto const &op = i.op;
        std::unique_ptr<view> r;
        if (op == "first" or op == "last") {
            auto const n = i.n();
            if (i.num()) {
                with_static(n, [&](auto c) {
                    constexpr std::size_t N = decltype(c)::value;
                    if constexpr (X == dyn or N <= X) {
                        r = op == "first" ? mk(s.template first<N>()) : mk(s.template last<N>());
                    }
                });
            } else {
                r = op == "first" ? mk(s.first(n)) : mk(s.last(n));
            }
        } else if (op == "sub") {
            auto const o = i.n();
            auto const n = i.num();
            if (i.num()) {
                with_static(o, [&](auto oc) {
                    constexpr std::size_t O = decltype(oc)::value;
                    if constexpr (X == dyn or O <= X) {
                        if (n < 0) {
                            r = mk(s.template subspan<O>());
                        } else {
                            with_static(static_cast<std::size_t>(n), [&](auto c) {
                                constexpr std::size_t N = decltype(c)::value;
                                if constexpr (X == dyn or O + N <= X) {
                                    r = mk(s.template subspan<O, N>());
                                }
                            });
                        }
                    }
                });
            } else {
                r = n < 0 ? mk(s.subspan(o)) : mk(s.subspan(o, static_cast<std::size_t>(n)));
            }
        } else if (op == "todyn") {
            if (i.num() or cst) {
                stdx::span<E const> d = s;
                r = mk(d);
            } else if constexpr (not cst) {
                stdx::span<E> d = s;
                r = mk(d);
            }
        } else if (op == "tostat") {
            bool const c = i.num() or cst;
            with_static(s.size(), [&](auto k) {
                constexpr std::size_t N = decltype(k)::value;
                if constexpr (X == dyn or X == N) {
                    if (c) {
                        r = mk(stdx::span<E const, N>{s});
                    } else if constexpr (not cst) {
                        r = mk(stdx::span<E, N>{s});
                    }
                }
            });
        } else if (op == "write") {
            auto const k = i.n() - 1;
            auto const v = static_cast<E>(i.num());
            auto const how = i.num();
            if constexpr (not cst) {
                auto const n = s.size();
                if (how == 1) {
                    *(s.begin() + static_cast<std::ptrdiff_t>(k)) = v;
                } else if (how == 2 and k == 0) {
                    s.front() = v;
                } else if (how == 3 and k == n - 1) {
                    s.back() = v;
                } else if (how == 4) {
                    *(s.rbegin() + static_cast<std::ptrdiff_t>(n - 1 - k)) = v;
                } else if (how == 5) {
                    s.data()[k] = v;
                } else {
                    s[k] = v;
                }
            }
        } else if (op == "wbyte") {
            auto const k = i.n() - 1;
            auto const v = static_cast<std::byte>(i.num());
            if constexpr (not cst) {
                stdx::as_writable_bytes(s)[k] = v;
            }
        } else if (op == "get") {
            with_static(i.n(), [&](auto k) {
                constexpr std::size_t K = decltype(k)::value;
                if constexpr (X == dyn or K < X) {
                    res = drv::js(std::vector<int>{get<K>(s)});
                }
            });
        } else if (op == "cap") {
            if constexpr (X != dyn) {
                res = drv::js(std::vector<int>{static_cast<int>(stdx::ct_capacity_v<S>)});
            }
        } else {
            drv::protocol(op);
        }
        return r;
    }
};
template <typename T, std::size_t X> constexpr auto mk(stdx::span<T, X> s) -> std::unique_ptr<view> {
    if constexpr (X == dyn or X <= max_static) {
        return std::make_unique<view_t<T, X>>(s);
    } else {
        drv::protocol("extent");
    }
}

struct base {
    constexpr virtual ~base() = default;
    constexpr virtual void exec(drv::in &i) = 0;
};
template <typename C> struct impl : base, storage {
    std::unique_ptr<C> c = std::make_unique<C>();
    std::unique_ptr<view> v;
    constexpr auto data() -> E * override { return std::data(*c); }
    constexpr auto size() -> std::size_t override { return std::size(*c); }
    constexpr static bool vec = std::is_same_v<C, std::vector<E>>;

    template <typename T, std::size_t X> constexpr auto whole(int how) -> std::unique_ptr<view> {
        using Q = std::conditional_t<std::is_const_v<T>, C const, C>;
        Q &q = *c;
        if constexpr (vec) {
            if (how == 0) {
                return mk(stdx::span<T, X>{q});
            }
        } else if constexpr (X == dyn or X <= sizeof(C) / sizeof(E)) {
            if (how == 0) {
                stdx::span<T, X> s = q;
                return mk(s);
            }
        }
        auto const n = X == dyn ? std::size(q) : X;
        if (how == 1) {
            return mk(stdx::span<T, X>{std::begin(q), std::begin(q) + static_cast<std::ptrdiff_t>(n)});
        }
        return mk(stdx::span<T, X>{std::data(q), n});
    }
    template <typename T, std::size_t X> constexpr auto part(std::size_t o, std::size_t n, int how) -> std::unique_ptr<view> {
        auto b = std::data(*c) + o;
        if (how == 1) {
            return mk(stdx::span<T, X>{b, b + n});
        }
        return mk(stdx::span<T, X>{b, static_cast<int>(n)});
    }
    constexpr void exec(drv::in &i) override {
        auto const &op = i.op;
        std::string res = "[]";
        if (op == "new") {
            auto const l = i.list();
            if constexpr (vec) {
                c->resize(l.size());
                c->reserve(1); // so that an empty vector has storage to point at
            }
            for (std::size_t k = 0; k < l.size(); ++k) {
                (*c)[k] = static_cast<E>(l[k]);
            }
            v = mk(stdx::span<E>{});
        } else if (op == "none") {
            auto const x = i.num();
            bool const cs = i.num();
            v = x < 0 ? (cs ? mk(stdx::span<E const>{}) : mk(stdx::span<E>{}))
                      : (cs ? mk(stdx::span<E const, 0>{}) : mk(stdx::span<E, 0>{}));
        } else if (op == "whole") {
            auto const x = i.num();
            bool const cs = i.num();
            auto const how = static_cast<int>(i.num());
            if (x < 0) {
                v = cs ? whole<E const, dyn>(how) : whole<E, dyn>(how);
            } else {
                with_static(static_cast<std::size_t>(x), [&](auto k) {
                    constexpr std::size_t X = decltype(k)::value;
                    v = cs ? whole<E const, X>(how) : whole<E, X>(how);
                });
            }
        } else if (op == "deduce") {
            v = i.num() ? mk(stdx::span{std::as_const(*c)}) : mk(stdx::span{*c});
        } else if (op == "part") {
            auto const o = i.n();
            auto const n = i.n();
            auto const x = i.num();
            bool const cs = i.num();
            auto const how = static_cast<int>(i.num());
            if (x < 0) {
                v = cs ? part<E const, dyn>(o, n, how) : part<E, dyn>(o, n, how);
            } else {
                with_static(static_cast<std::size_t>(x), [&](auto k) {
                    constexpr std::size_t X = decltype(k)::value;
                    v = cs ? part<E const, X>(o, n, how) : part<E, X>(o, n, how);
                });
            }
        } else {
            auto nv = v->step(i, res);
            if (nv) {
                v = std::move(nv);
            }
        }
        i.answer(res, v->obs(*this));
    }
};
// a class holding a built-in array, with the interface of one
template <std::size_t N> struct carray {
    E a[N];
};
template <std::size_t N> struct impl<carray<N>> : impl<std::array<E, N>> {
    // views of the built-in array overlay the std::array of the base (same representation)
    constexpr void exec(drv::in &i) override {
        if (i.op == "whole" or i.op == "deduce") {
            auto &arr = *reinterpret_cast<E(*)[N]>(this->data());
            auto const line = i.text;
            drv::in j{line};
            bool done = false;
            if (j.op == "deduce") {
                bool const cs = j.num();
                this->v = cs ? mk(stdx::span{const_cast<E const(&)[N]>(arr)}) : mk(stdx::span{arr});
                done = true;
            } else {
                auto const x = j.num();
                bool const cs = j.num();
                if (j.num() == 0) {
                    auto go = [&]<std::size_t X>(std::integral_constant<std::size_t, X>) {
                        if constexpr (X == dyn or X <= N) {
                            if (cs) {
                                stdx::span<E const, X> s = const_cast<E const(&)[N]>(arr);
                                this->v = mk(s);
                            } else {
                                stdx::span<E, X> s = arr;
                                this->v = mk(s);
                            }
                            done = true;
                        }
                    };
                    if (x < 0) {
                        go(std::integral_constant<std::size_t, dyn>{});
                    } else {
                        with_static(static_cast<std::size_t>(x), go);
                    }
                }
            }
            if (done) {
                i.answer("[]", this->v->obs(*this));
                return;
            }
        }
        impl<std::array<E, N>>::exec(i);
    }
};
template <template <std::size_t> typename C> constexpr auto sized(std::size_t n) -> std::unique_ptr<base> {
    switch (n) {
    case 1: return std::make_unique<impl<C<1>>>();
    case 4: return std::make_unique<impl<C<4>>>();
    case 6: return std::make_unique<impl<C<6>>>();
    default: drv::protocol("array size");
    }
}
template <std::size_t N> using sarray = std::array<E, N>;
} // namespace
#ifndef DRV_CX
int main() {
    std::unique_ptr<base> cur;
    return drv::loop([&](drv::in &i) {
        if (i.op == "new") {
            auto const k = i.n();
            drv::in peek{i.text};
            peek.num();
            auto const n = peek.n();
            cur = k == 0   ? sized<sarray>(n)
                  : k == 1 ? sized<carray>(n)
                           : std::unique_ptr<base>{std::make_unique<impl<std::vector<E>>>()};
        }
        cur->exec(i);
    });
}
#endif
