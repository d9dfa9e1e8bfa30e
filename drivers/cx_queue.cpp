// Drives stdx::cx_queue.
#include "drv.hpp"
#include "elems.hpp"
#include "panics.hpp"

#include <stdx/cx_queue.hpp>

#include <functional>
#include <map>
#include <memory>
#include <optional>

namespace {
struct refused {};
std::vector<std::vector<std::size_t>> policy_log;
// (front and back were looked at twice)
constexpr void forget_second_look() {
    if not consteval {
        if (policy_log.size() == 2) {
            policy_log.pop_back();
        }
    }
}
struct custom_policy {
    constexpr static auto check_push(std::size_t size, std::size_t capacity) -> void {
        policy_log.push_back({1, size, capacity});
        if (size >= capacity) {
            throw refused{};
        }
    }
    constexpr static auto check_pop(std::size_t size) -> void {
        policy_log.push_back({2, size});
        if (size == 0) {
            throw refused{};
        }
    }
};
template <int P> struct pol;
template <> struct pol<0> { using type = stdx::unsafe_overflow_policy; };
template <> struct pol<1> { using type = stdx::safe_overflow_policy; };
template <> struct pol<2> { using type = custom_policy; };

struct base {
    constexpr virtual ~base() = default;
    constexpr virtual void exec(drv::in &i) = 0;
};
template <int K, std::size_t N, int P> struct impl : base {
    using T = typename drv::kind<K>::type;
    using E = drv::el<T>;
    using Q = stdx::cx_queue<T, N, typename pol<P>::type>;
    std::unique_ptr<Q> q{new Q};
    constexpr auto kept() const { return *q; }
    constexpr void restore(auto const &x) { *q = x; }

    constexpr auto obs() -> std::string {
        life::look();
        std::vector<std::vector<std::size_t>> log;
        if not consteval {
            log = policy_log;
        }
        auto p = drv::panics();
        std::vector<long long> c;
        if constexpr (K != 2) {
            Q copy{*q};
            for (std::size_t n = 0; n < q->size() and n < 1000; ++n) {
                c.push_back(E::num(copy.pop()));
            }
        }
        drv::obj o;
        o("size", q->size())("empty", q->empty())("full", q->full())("cap", std::size_t{Q::capacity()});
        o("c", c)("p", p)("log", log);
        return o.done();
    }
    constexpr void exec(drv::in &i) override {
        auto const &op = i.op;
        if not consteval {
            policy_log.clear();
        }
        drv::forget_panics();
        std::vector<long long> r;
        auto ref = [&](auto &x) { r.push_back(E::num(x)); };
        try {
            if (op == "push") {
                auto v = E::make(i.num());
                if constexpr (K != 2) {
                    if (not i.b()) {
                        auto const &cv = v;
                        ref(q->push(cv));
                        i.answer(drv::js(r), obs());
                        return;
                    }
                }
                ref(q->push(std::move(v)));
            } else if (op == "pushw") {
                auto v = E::make(i.num());
                auto &x = q->push(std::move(v));
                x = E::make(i.num());
                ref(x);
            } else if (op == "pop") {
                auto v = q->pop();
                ref(v);
            } else if (op == "front") {
                i.b() ? ref(std::as_const(*q).front()) : ref(q->front());
            } else if (op == "back") {
                i.b() ? ref(std::as_const(*q).back()) : ref(q->back());
            } else if (op == "frontw") {
                auto &x = q->front();
                x = E::make(i.num());
                ref(q->front());
                forget_second_look();
            } else if (op == "backw") {
                auto &x = q->back();
                x = E::make(i.num());
                ref(q->back());
                forget_second_look();
            } else if (op == "clear") {
                q->clear();
            } else if (op == "copy") {
                if constexpr (K != 2) {
                    q = std::make_unique<Q>(*q);
                }
            } else if (op == "move") {
                q = std::make_unique<Q>(std::move(*q));
            } else if (op != "new") {
                drv::protocol(op);
            }
        } catch (refused const &) {
            r.clear();
        } catch (drv::panicked const &) {
            r.clear();
        }
        i.answer(drv::js(r), obs());
    }
};
std::map<std::vector<std::size_t>, std::function<std::unique_ptr<base>()>> reg;
template <int K, std::size_t N> constexpr void add() {
    reg[{N, 0, K}] = [] { return std::make_unique<impl<K, N, 0>>(); };
    reg[{N, 1, K}] = [] { return std::make_unique<impl<K, N, 1>>(); };
    reg[{N, 2, K}] = [] { return std::make_unique<impl<K, N, 2>>(); };
}
} // namespace
#ifndef DRV_CX
int main() {
    add<KIND, 1>(), add<KIND, 2>(), add<KIND, 3>(), add<KIND, 4>(), add<KIND, 5>(), add<KIND, 7>(), add<KIND, 8>(), add<KIND, 9>(), add<KIND, 256>(), add<KIND, 300>();
    std::unique_ptr<base> cur;
    return drv::loop([&](drv::in &i) {
        if (i.op == "end") {
            cur.reset();
            return i.answer("[]", "[]");
        }
        if (i.op == "new") {
            auto n = i.n();
            auto p = i.n();
            auto k = i.n();
            auto it = reg.find({n, p, k});
            if (it == reg.end()) {
                drv::protocol("config");
            }
            cur = it->second();
        }
        cur->exec(i);
    });
}
#endif
