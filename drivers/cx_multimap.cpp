// Drives stdx::cx_multimap.
#include "drv.hpp"
#include "elems.hpp"

#include <stdx/cx_multimap.hpp>

#include <algorithm>
#include <functional>
#include <map>
#include <memory>

namespace {
struct base {
    constexpr virtual ~base() = default;
    constexpr virtual void exec(drv::in &i) = 0;
};
using rel_t = std::vector<std::pair<long long, std::vector<long long>>>;
template <int KK, std::size_t KN, std::size_t VN> struct impl : base {
    using T = typename drv::kind<KK>::type;
    using E = drv::el<T>;
    using M = stdx::cx_multimap<T, T, KN, VN>;
    M m;
    constexpr impl() {}
    constexpr auto kept() const { return m; }
    constexpr void restore(auto const &x) { m = x; }

    constexpr static auto values(auto const &s) -> std::vector<long long> {
        std::vector<long long> r;
        for (auto const &v : s) {
            r.push_back(E::num(v));
        }
        std::sort(r.begin(), r.end());
        return r;
    }
    constexpr auto obs() -> std::string {
        life::look();
        M const &c = m;
        rel_t rel, crel, get;
        std::vector<long long> in;
        std::vector<std::pair<long long, long long>> pin;
        for (auto &[k, vs] : m) {
            rel.emplace_back(E::num(k), values(vs));
        }
        for (auto it = c.cbegin(); it != c.cend(); ++it) {
            crel.emplace_back(E::num(it->key), values(it->value));
        }
        if (c.begin() != c.cbegin() or c.end() != c.cend()) {
            crel.emplace_back(-99, std::vector<long long>{});
        }
        for (int k = 0; k < (KN < 8 ? 8 : int{KN} + 4); ++k) {
            auto const key = E::make(k);
            if (c.contains(key)) {
                in.push_back(k);
                get.emplace_back(k, values(c.get(key)));
            }
            for (int v = 0; v < (KN < 8 ? 8 : int{KN} + 4); ++v) {
                if (c.contains(key, E::make(v))) {
                    pin.emplace_back(k, v);
                }
            }
        }
        std::sort(rel.begin(), rel.end());
        std::sort(crel.begin(), crel.end());
        return drv::obj{}("size", c.size())("empty", c.empty())("cap", std::size_t{M::capacity()})("rel", rel)(
                   "crel", crel)("get", get)("in", in)("pin", pin)
            .done();
    }
    constexpr void exec(drv::in &i) override {
        auto const &op = i.op;
        std::vector<long long> r;
        auto e = [&] { return E::make(i.num()); };
        if (op == "new") {
        } else if (op == "insert") {
            auto k = e();
            auto v = e();
            m.insert(k, v);
        } else if (op == "put") {
            auto k = e();
            auto v = e();
            m.put(k, v);
        } else if (op == "insertk") {
            m.insert(e());
        } else if (op == "putk") {
            m.put(e());
        } else if (op == "erasek") {
            r.push_back(static_cast<long long>(m.erase(e())));
        } else if (op == "erase") {
            auto k = e();
            auto v = e();
            r.push_back(static_cast<long long>(m.erase(k, v)));
        } else if (op == "eraseown") {
            auto it = m.begin();
            while (it->value.empty()) {
                ++it;
            }
            auto &k = it->key;
            auto &v = *it->value.begin();
            r = {E::num(k), E::num(v)};
            r.push_back(static_cast<long long>(m.erase(k, v)));
        } else if (op == "getins") {
            auto k = e();
            auto const &seen = std::as_const(m).get(k);
            r.push_back(m.get(k).insert(e()));
            r.push_back(static_cast<long long>(seen.size()));
        } else if (op == "getclr") {
            m.get(e()).clear();
        } else if (op == "clear") {
            m.clear();
        } else if (op == "copy") {
            M t{};
            t = m;
            m.clear();
            M u = t;
            t.clear();
            m = std::move(u);
        } else {
            drv::protocol(op);
        }
        i.answer(drv::js(r), obs());
    }
};
std::map<std::vector<std::size_t>, std::function<std::unique_ptr<base>()>> reg;
template <int K, std::size_t KN, std::size_t... Ns> constexpr void add() {
    ((reg[{KN, Ns, K}] = [] { return std::make_unique<impl<K, KN, Ns>>(); }), ...);
}
} // namespace
#ifndef DRV_CX
int main() {
    static_assert(stdx::ct_capacity_v<stdx::cx_multimap<int, int, 3>> == 3);
    add<KIND, 1, 1, 2, 3>();
    add<KIND, 2, 1, 2, 4>();
    add<KIND, 3, 1, 2, 3>();
    add<KIND, 5, 4>();
    add<KIND, 20, 17>();
    std::unique_ptr<base> cur;
    return drv::loop([&](drv::in &i) {
        if (i.op == "end") {
            cur.reset();
            return i.answer("[]", "[]");
        }
        if (i.op == "new") {
            auto n = i.n();
            auto d = i.n();
            auto k = i.n();
            auto it = reg.find({n, d, k});
            if (it == reg.end()) {
                drv::protocol("config");
            }
            cur = it->second();
        }
        cur->exec(i);
    });
}
#endif
