// Drives stdx::cx_map.
#include "drv.hpp"
#include "elems.hpp"

#include <stdx/cx_map.hpp>

#include <algorithm>
#include <functional>
#include <map>
#include <memory>

namespace {
struct base {
    constexpr virtual ~base() = default;
    constexpr virtual void exec(drv::in &i) = 0;
};
using pairs_t = std::vector<std::pair<long long, long long>>;
template <typename M, typename... As> constexpr auto make_map(pairs_t const &l, As &&...as) -> M {
    using EK = drv::el<typename M::key_type>;
    using EV = drv::el<typename M::mapped_type>;
    if constexpr (sizeof...(As) <= M::capacity()) {
        if (l.size() == sizeof...(As)) {
            return M{as...};
        }
        if constexpr (sizeof...(As) < M::capacity() and sizeof...(As) < 12) {
            auto const &[k, v] = l[sizeof...(As)];
            return make_map<M>(l, as..., typename M::value_type{EK::make(k), EV::make(v)});
        }
    }
    drv::protocol("too many");
}
template <int KK, int KV, std::size_t N> struct impl : base {
    using K = typename drv::kind<KK>::type;
    using V = typename drv::kind<KV>::type;
    using EK = drv::el<K>;
    using EV = drv::el<V>;
    using M = stdx::cx_map<K, V, N>;
    M m;
    constexpr impl() {}
    constexpr auto kept() const { return m; }
    constexpr void restore(auto const &x) { m = x; }

    constexpr auto obs() -> std::string {
        life::look();
        M const &c = m;
        pairs_t p, cp, g, cg;
        std::vector<long long> in;
        for (auto &[k, v] : m) {
            p.emplace_back(EK::num(k), EV::num(v));
        }
        for (auto it = c.cbegin(); it != c.cend(); ++it) {
            cp.emplace_back(EK::num(it->key), EV::num(it->value));
        }
        if (c.begin() != c.cbegin() or c.end() != c.cend()) {
            cp.emplace_back(-99, -99);
        }
        for (int k = 0; k < (N < 10 ? 12 : int{N} + 10); ++k) {
            auto const key = EK::make(k);
            if (c.contains(key)) {
                in.push_back(k);
                g.emplace_back(k, EV::num(m.get(key)));
                cg.emplace_back(k, EV::num(c.get(key)));
            }
        }
        std::sort(p.begin(), p.end());
        std::sort(cp.begin(), cp.end());
        return drv::obj{}("size", c.size())("empty", c.empty())("full", c.full())("cap", std::size_t{M::capacity()})(
                   "pairs", p)("cpairs", cp)("get", g)("cget", cg)("in", in)
            .done();
    }
    constexpr void exec(drv::in &i) override {
        auto const &op = i.op;
        std::vector<long long> r;
        if (op == "new") {
        } else if (op == "ctor") {
            pairs_t l(i.n());
            for (auto &[k, v] : l) {
                i.num();
                k = i.num();
                v = i.num();
            }
            m = make_map<M>(l);
        } else if (op == "insert" or op == "put") {
            auto k = EK::make(i.num());
            auto v = EV::make(i.num());
            r.push_back(op == "put" ? m.put(k, v) : m.insert_or_assign(k, v));
        } else if (op == "insfrom") {
            auto k = EK::make(i.num());
            auto j = EK::make(i.num());
            r.push_back(m.insert_or_assign(k, m.get(j)));
        } else if (op == "getw") {
            auto k = EK::make(i.num());
            auto &v = m.get(k);
            auto const &cv = std::as_const(m).get(k);
            r.push_back(EV::num(v));
            v = EV::make(i.num());
            r.push_back(EV::num(cv));
        } else if (op == "addall") {
            auto d = i.num();
            for (auto &[k, v] : m) {
                v = EV::make((EV::num(v) + d) % 100);
            }
        } else if (op == "erase") {
            r.push_back(static_cast<long long>(m.erase(EK::make(i.num()))));
        } else if (op == "eraseown") {
            auto &k = m.begin()->key;
            r.push_back(EK::num(k));
            r.push_back(static_cast<long long>(m.erase(k)));
        } else if (op == "pop") {
            auto const p = m.pop_back();
            r = {EK::num(p.key), EV::num(p.value)};
        } else if (op == "clear") {
            m.clear();
        } else if (op == "copy") {
            M t{};
            t = m;
            m.clear();
            M u = t;
            t.clear();
            m = std::move(u);
        } else {
            drv::protocol(op);
        }
        i.answer(drv::js(r), obs());
    }
};
std::map<std::vector<std::size_t>, std::function<std::unique_ptr<base>()>> reg;
template <int K, std::size_t... Ns> constexpr void add() {
    ((reg[{Ns, K}] = [] { return std::make_unique<impl<K / 2, K % 2, Ns>>(); }), ...);
}
} // namespace
#ifndef DRV_CX
int main() {
    add<KIND, 1, 2, 3, 4, 6, 9, 256, 270>();
    std::unique_ptr<base> cur;
    return drv::loop([&](drv::in &i) {
        if (i.op == "end") {
            cur.reset();
            return i.answer("[]", "[]");
        }
        if (i.op == "new") {
            auto n = i.n();
            auto k = i.n();
            auto it = reg.find({n, k});
            if (it == reg.end()) {
                drv::protocol("config");
            }
            cur = it->second();
        }
        cur->exec(i);
    });
}
#endif
