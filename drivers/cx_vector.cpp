// Drives stdx::cx_vector: two vectors per configuration.
#include "drv.hpp"
#include "elems.hpp"

#include <stdx/cx_vector.hpp>

#include <functional>
#include <map>
#include <memory>

namespace {
struct base {
    constexpr virtual ~base() = default;
    constexpr virtual void exec(drv::in &i) = 0;
};
template <int K, std::size_t N> struct impl : base {
    using T = typename drv::kind<K>::type;
    using E = drv::el<T>;
    using V = stdx::cx_vector<T, N>;
    drv::two<V> v;
    constexpr auto kept() const { return v; }
    constexpr void restore(auto const &x) { v = x; }

    constexpr auto obs(std::size_t x) -> std::string {
        life::look();
        V &m = v[x];
        V const &c = m;
        V const &other = v[1 - x];
        std::vector<long long> fwd, cfwd, rev, crev, idx, fb, eq;
        for (auto it = m.begin(); it != m.end(); ++it) {
            fwd.push_back(E::num(*it));
        }
        for (auto const &e : c) {
            cfwd.push_back(E::num(e));
        }
        if (c.cbegin() != c.begin() or c.cend() != c.end()) {
            cfwd.push_back(-99);
        }
        for (auto it = m.rbegin(); it != m.rend(); ++it) {
            rev.push_back(E::num(*it));
        }
        for (auto it = c.rbegin(); it != c.rend(); ++it) {
            crev.push_back(E::num(*it));
        }
        if (c.crbegin() != c.rbegin() or c.crend() != c.rend()) {
            crev.push_back(-99);
        }
        for (std::size_t i = 0; i < c.size(); ++i) {
            idx.push_back(E::num(c[i]));
        }
        if (not c.empty()) {
            fb = {E::num(m.front()), E::num(m.back()), E::num(c.front()), E::num(c.back()), E::num(get<0>(c))};
        }
        if constexpr (K != 2) {
            eq = {c == other, other == c, c != other};
        }
        drv::obj o;
        o("size", c.size())("empty", c.empty())("full", c.full())("cap", std::size_t{V::capacity()});
        o("fwd", fwd)("cfwd", cfwd)("rev", rev)("crev", crev)("idx", idx)("fb", fb)("eq", eq);
        return o.done();
    }
    template <std::size_t I> constexpr static auto getter(V &x, std::size_t i) -> T & {
        if constexpr (I + 1 < N) {
            if (i != I) {
                return getter<I + 1>(x, i);
            }
        }
        return get<I>(x);
    }
    constexpr void exec(drv::in &i) override {
        auto const &op = i.op;
        if (op == "new") {
            return i.answer("[]", obs(0));
        }
        auto const x = i.n() - 1;
        auto &m = v[x];
        std::vector<long long> r;
        auto ref = [&](auto &e) { r.push_back(E::num(e)); };
        if (op == "ctor") {
            if constexpr (K != 2) {
                auto l = i.list();
                std::vector<T> e;
                for (auto k : l) {
                    e.push_back(E::make(k));
                }
                if (l.empty()) {
                    m = V{};
                } else if (l.size() == 1) {
                    m = V{e[0]};
                }
                if constexpr (N >= 2) {
                    if (l.size() == 2) {
                        m = V{e[0], e[1]};
                    }
                }
                if constexpr (N >= 3) {
                    if (l.size() == 3) {
                        m = V{e[0], e[1], e[2]};
                    }
                }
                if constexpr (N == 3) {
                    stdx::cx_vector d{E::make(1), E::make(2), E::make(3)};
                    static_assert(std::is_same_v<decltype(d), V>);
                }
            }
        } else if (op == "push") {
            auto e = E::make(i.num());
            if constexpr (K != 2) {
                if (not i.b()) {
                    auto const &ce = e;
                    ref(m.push_back(ce));
                    return i.answer(drv::js(r), obs(x));
                }
            }
            ref(m.push_back(std::move(e)));
        } else if (op == "pushw") {
            auto &e = m.push_back(E::make(i.num()));
            e = E::make(i.num());
            ref(e);
        } else if (op == "selfpush") {
            if constexpr (K != 2) {
                ref(m.push_back(m.front()));
            }
        } else if (op == "pop") {
            if constexpr (K != 2) {
                auto e = m.pop_back();
                ref(e);
            }
        } else if (op == "clear") {
            m.clear();
        } else if (op == "write") {
            auto k = i.n();
            m[k] = E::make(i.num());
            ref(m[k]);
        } else if (op == "getw") {
            auto k = i.n();
            getter<0>(m, k) = E::make(i.num());
            ref(m[k]);
        } else if (op == "iterw") {
            auto k = i.n();
            *(m.begin() + static_cast<std::ptrdiff_t>(k)) = E::make(i.num());
            ref(m[k]);
        } else if (op == "riterw") {
            auto k = i.n();
            auto it = m.rbegin() + static_cast<std::ptrdiff_t>(k);
            *it = E::make(i.num());
            ref(*it);
        } else if (op == "frontw") {
            m.front() = E::make(i.num());
            ref(m.front());
        } else if (op == "backw") {
            m.back() = E::make(i.num());
            ref(m.back());
        } else if (op == "overwrite") {
            auto l = i.list();
            resize_and_overwrite(m, [&](T *p, std::size_t cap) {
                r.push_back(static_cast<long long>(cap));
                for (std::size_t k = 0; k < l.size(); ++k) {
                    p[k] = E::make(l[k]);
                }
                return l.size();
            });
        } else if (op == "keep") {
            auto n = i.n();
            resize_and_overwrite(m, [&](T *, std::size_t cap) {
                r.push_back(static_cast<long long>(cap));
                return n;
            });
        } else if (op == "copy") {
            if constexpr (K != 2) {
                auto const y = i.n() - 1;
                V tmp = drv::copied(v[y]);
                m = tmp;
            }
        } else {
            drv::protocol(op);
        }
        i.answer(drv::js(r), obs(x));
    }
};
std::map<std::vector<std::size_t>, std::function<std::unique_ptr<base>()>> reg;
template <int K, std::size_t... Ns> constexpr void add() {
    ((reg[{Ns, K}] = [] { return std::make_unique<impl<K, Ns>>(); }), ...);
}
} // namespace
#ifndef DRV_CX
int main() {
    add<KIND, 1, 2, 3, 4, 6, 9, 256, 300>();
    std::unique_ptr<base> cur;
    return drv::loop([&](drv::in &i) {
        if (i.op == "end") {
            cur.reset();
            return i.answer("[]", "[]");
        }
        if (i.op == "new") {
            auto n = i.n();
            auto k = i.n();
            auto it = reg.find({n, k});
            if (it == reg.end()) {
                drv::protocol("config");
            }
            cur = it->second();
        }
        cur->exec(i);
    });
}
#endif
