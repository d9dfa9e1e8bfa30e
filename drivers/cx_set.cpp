// Drives stdx::cx_set.
#include "drv.hpp"
#include "elems.hpp"

#include <stdx/cx_set.hpp>

#include <algorithm>
#include <functional>
#include <map>
#include <memory>

namespace {
struct base {
    constexpr virtual ~base() = default;
    constexpr virtual void exec(drv::in &i) = 0;
};
template <typename S, typename... As> constexpr auto make_set(std::vector<long long> const &l, As &&...as) -> S {
    using E = drv::el<typename S::key_type>;
    if constexpr (sizeof...(As) <= S::capacity()) {
        if (l.size() == sizeof...(As)) {
            return S{as...};
        }
        if constexpr (sizeof...(As) < S::capacity() and sizeof...(As) < 12) {
            return make_set<S>(l, as..., E::make(l[sizeof...(As)]));
        }
    }
    drv::protocol("too many");
}
template <int K, std::size_t N> struct impl : base {
    using T = typename drv::kind<K>::type;
    using E = drv::el<T>;
    using S = stdx::cx_set<T, N>;
    S s;
    constexpr impl() {}
    constexpr auto kept() const { return s; }
    constexpr void restore(auto const &x) { s = x; }

    constexpr auto obs() -> std::string {
        life::look();
        S const &c = s;
        std::vector<long long> m, cm, in;
        for (auto it = s.begin(); it != s.end(); ++it) {
            m.push_back(E::num(*it));
        }
        for (auto it = c.cbegin(); it != c.cend(); ++it) {
            cm.push_back(E::num(*it));
        }
        if (c.begin() != c.cbegin() or c.end() != c.cend()) {
            cm.push_back(-99);
        }
        for (int k = 0; k < (N < 10 ? 10 : int{N} + 10); ++k) {
            if (c.contains(E::make(k))) {
                in.push_back(k);
            }
        }
        std::sort(m.begin(), m.end());
        std::sort(cm.begin(), cm.end());
        return drv::obj{}("size", c.size())("empty", c.empty())("cap", std::size_t{S::capacity()})("members", m)(
                   "cmembers", cm)("in", in)
            .done();
    }
    constexpr void exec(drv::in &i) override {
        auto const &op = i.op;
        std::vector<long long> r;
        if (op == "new") {
        } else if (op == "ctor") {
            s = make_set<S>(i.list());
        } else if (op == "insert") {
            auto k = E::make(i.num());
            if (i.b()) {
                r.push_back(s.insert(std::move(k)));
            } else {
                auto const &ck = k;
                r.push_back(s.insert(ck));
            }
        } else if (op == "erase") {
            r.push_back(static_cast<long long>(s.erase(E::make(i.num()))));
        } else if (op == "reinsert") {
            r.push_back(s.insert(*s.begin()));
        } else if (op == "eraseown") {
            r.push_back(E::num(*s.begin()));
            r.push_back(static_cast<long long>(s.erase(*s.begin())));
        } else if (op == "merge") {
            auto l = i.list();
            auto m = i.n();
            auto fill = [&](auto t) {
                for (auto k : l) {
                    t.insert(E::make(k));
                }
                return t;
            };
            if (m == 0 and l.size() <= N) {
                s.merge(fill(S{}));
            } else if (m == 1) {
                auto const t = fill(stdx::cx_set<T, N + 9>{});
                s.merge(t);
            } else {
                std::vector<T> t;
                for (auto k : l) {
                    t.push_back(E::make(k));
                }
                s.merge(t);
            }
        } else if (op == "mergeself") {
            s.merge(s);
        } else if (op == "pop") {
            auto k = s.pop_back();
            r.push_back(E::num(k));
        } else if (op == "clear") {
            s.clear();
        } else if (op == "copy") {
            S t{};
            t = s;
            s.clear();
            S u = t;
            t.clear();
            s = std::move(u);
        } else {
            drv::protocol(op);
        }
        i.answer(drv::js(r), obs());
    }
};
std::map<std::vector<std::size_t>, std::function<std::unique_ptr<base>()>> reg;
template <int K, std::size_t... Ns> constexpr void add() {
    ((reg[{Ns, K}] = [] { return std::make_unique<impl<K, Ns>>(); }), ...);
}
} // namespace
#ifndef DRV_CX
int main() {
    add<KIND, 1, 2, 3, 4, 6, 9, 256, 300>();
    {
        stdx::cx_set d{1, 2, 3};
        static_assert(std::is_same_v<decltype(d), stdx::cx_set<int, 3>>);
    }
    std::unique_ptr<base> cur;
    return drv::loop([&](drv::in &i) {
        if (i.op == "end") {
            cur.reset();
            return i.answer("[]", "[]");
        }
        if (i.op == "new") {
            auto n = i.n();
            auto k = i.n();
            auto it = reg.find({n, k});
            if (it == reg.end()) {
                drv::protocol("config");
            }
            cur = it->second();
        }
        cur->exec(i);
    });
}
#endif
