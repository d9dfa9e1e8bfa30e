// Drives bounded containers of any capacity through bulk operations on consecutive numbers.
#include "drv.hpp"

#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/span.hpp>

#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <string>
#include <utility>
#include <vector>

namespace {
using num = std::uint32_t;
using list = std::vector<long long>;

template <std::size_t N> struct queue {
    using type = stdx::cx_queue<num, N>;
    constexpr static auto removes_oldest = true;
    static void add(type &c, num k) { c.push(k); }
    static auto drop(type &c, num) -> num { return c.pop(); }
    static auto size(type const &c) -> std::size_t { return c.size(); }
    template <typename F> static void each(type const &c, F f) {
        auto t = std::make_unique<type>(c);
        for (auto n = std::size_t{}; n < 2 * N and not t->empty(); ++n) {
            f(t->pop());
        }
    }
};
template <std::size_t N> struct vector {
    using type = stdx::cx_vector<num, N>;
    constexpr static auto removes_oldest = false;
    static void add(type &c, num k) { c.push_back(k); }
    static auto drop(type &c, num) -> num { return c.pop_back(); }
    static auto size(type const &c) -> std::size_t { return c.size(); }
    template <typename F> static void each(type const &c, F f) { std::for_each(c.begin(), c.end(), f); }
};
template <std::size_t N> struct span {
    struct type {
        std::shared_ptr<std::array<num, N>> all{std::make_shared<std::array<num, N>>()};
        stdx::span<num> s{};
        type() {
            std::iota(all->begin(), all->end(), num{});
            s = stdx::span<num, N>{*all};
        }
        auto empty() const { return s.empty(); }
        auto front() const { return s.front(); }
        auto back() const { return s.back(); }
        auto begin() const { return s.begin(); }
        auto operator[](std::size_t k) const { return s[k]; }
        void clear() { s = {}; }
        void trim(std::size_t n) { s = s.first(s.size() - n); }
        auto lose(std::size_t n) -> list {
            auto const gone = s.subspan(0, n);
            list r{gone.front(), gone.back()};
            s = n % 2 == 0 ? s.last(s.size() - n) : s.subspan(n);
            return r;
        }
    };
    static auto size(type const &c) -> std::size_t { return c.s.size(); }
    template <typename F> static void each(type const &c, F f) { std::for_each(c.s.begin(), c.s.end(), f); }
};
template <std::size_t N> struct set {
    using type = stdx::cx_set<num, N>;
    static auto offer(type &c, num k) -> bool { return c.insert(k); }
    static auto erase(type &c, num k) -> std::size_t { return c.erase(k); }
    static auto seek(type const &c, num k) -> list { return c.contains(k) ? list{1} : list{0}; }
    static auto size(type const &c) -> std::size_t { return c.size(); }
    template <typename F> static void each(type const &c, F f) { std::for_each(c.begin(), c.end(), f); }
};
template <std::size_t N> struct map {
    using type = stdx::cx_map<num, num, N>;
    static auto offer(type &c, num k) -> bool { return c.insert_or_assign(k, k + 7); }
    static auto erase(type &c, num k) -> std::size_t { return c.erase(k); }
    static auto seek(type const &c, num k) -> list { return c.contains(k) ? list{1, c.get(k)} : list{0}; }
    static auto size(type const &c) -> std::size_t { return c.size(); }
    template <typename F> static void each(type const &c, F f) {
        for (auto const &e : c) {
            f(e.key);
        }
    }
};
template <std::size_t N> struct keys {
    using type = stdx::cx_multimap<num, num, N, 1>;
    static auto offer(type &c, num k) -> bool {
        auto const before = c.size();
        c.insert(k, 5);
        return c.size() != before;
    }
    static auto erase(type &c, num k) -> std::size_t { return c.erase(k); }
    static auto seek(type const &c, num k) -> list { return c.contains(k) and c.contains(k, 5) ? list{1} : list{0}; }
    static auto size(type const &c) -> std::size_t { return c.size(); }
    template <typename F> static void each(type const &c, F f) {
        for (auto const &e : c) {
            f(e.key);
        }
    }
};
template <std::size_t N> struct values {
    using type = stdx::cx_multimap<num, num, 1, N>;
    static auto offer(type &c, num k) -> bool {
        auto const before = size(c);
        c.insert(5, k);
        return size(c) != before;
    }
    static auto erase(type &c, num k) -> std::size_t { return c.erase(5, k); }
    static auto seek(type const &c, num k) -> list { return c.contains(5, k) ? list{1} : list{0}; }
    static auto size(type const &c) -> std::size_t { return c.contains(5) ? c.get(5).size() : 0; }
    template <typename F> static void each(type const &c, F f) {
        for (auto const &e : c) {
            std::for_each(e.value.begin(), e.value.end(), f);
        }
    }
};

struct base {
    virtual ~base() = default;
    virtual void exec(drv::in &i) = 0;
};
template <typename A, std::size_t N> struct impl : base {
    using C = typename A::type;
    std::unique_ptr<C> c{new C{}};
    num lo{}, hi{};

    auto obs() -> std::string {
        std::size_t count{};
        auto least = ~num{};
        num greatest{};
        A::each(*c, [&](num k) {
            ++count;
            least = std::min(least, k);
            greatest = std::max(greatest, k);
        });
        list full, ends;
        if constexpr (requires { c->full(); }) {
            full = {c->full()};
        }
        if constexpr (requires { c->front(); }) {
            if (not c->empty()) {
                ends = {c->front(), c->back()};
            }
        }
        drv::obj o;
        o("size", A::size(*c))("empty", static_cast<int>(c->empty()))("cap", N)("count", count);
        o("span", count == 0 ? list{} : list{least, greatest})("full", full)("ends", ends);
        return o.done();
    }
    void exec(drv::in &i) override {
        auto const &op = i.op;
        list r;
        if (op == "add") {
            for (auto n = i.n(); n > 0; --n, ++hi) {
                if constexpr (requires { A::offer(*c, hi); }) {
                    A::offer(*c, hi);
                } else if constexpr (requires { A::add(*c, hi); }) {
                    A::add(*c, hi);
                }
            }
        } else if (op == "drop") {
            auto const n = i.n();
            if constexpr (requires { c->lose(n); }) {
                r = c->lose(n);
            } else if constexpr (requires { A::erase(*c, lo); }) {
                long long erased{};
                for (auto k = n; k > 0; --k, ++lo) {
                    erased += static_cast<long long>(A::erase(*c, lo));
                }
                r = {erased};
            } else {
                for (auto k = n; k > 0; --k) {
                    r.push_back(A::drop(*c, lo));
                }
                r = {r.front(), r.back()};
                A::removes_oldest ? lo += static_cast<num>(n) : hi -= static_cast<num>(n);
            }
        } else if (op == "trim") {
            if constexpr (requires { c->trim(1); }) {
                c->trim(i.n());
            }
        } else if (op == "again") {
            if constexpr (requires { A::offer(*c, lo); }) {
                r = {A::offer(*c, lo) + A::offer(*c, lo + (hi - lo) / 2) + A::offer(*c, hi - 1)};
            }
        } else if (op == "seek") {
            if constexpr (requires { A::seek(*c, lo); }) {
                r = A::seek(*c, static_cast<num>(i.n()));
            }
        } else if (op == "at") {
            if constexpr (requires { (*c)[lo]; }) {
                auto const k = i.n();
                r = {(*c)[k], *(c->begin() + static_cast<std::ptrdiff_t>(k))};
            }
        } else if (op == "copy") {
            c = std::make_unique<C>(*c);
        } else if (op == "clear") {
            c->clear();
            lo = hi = 0;
        } else if (op != "new") {
            drv::protocol(op);
        }
        i.answer(drv::js(r), obs());
    }
};
} // namespace

int main() {
    std::map<std::pair<std::string, std::size_t>, std::function<std::unique_ptr<base>()>> reg;
#define C(K, N) reg[{#K, N}] = [] { return std::make_unique<impl<K<N>, N>>(); };
    CONFIGS
#undef C
    std::unique_ptr<base> cur;
    return drv::loop([&](drv::in &i) {
        if (i.op == "end") {
            cur.reset();
            return i.answer("[]", "[]");
        }
        if (i.op == "new") {
            auto k = i.str();
            auto it = reg.find({k, i.n()});
            if (it == reg.end()) {
                drv::protocol("config");
            }
            cur = it->second();
        }
        cur->exec(i);
    });
}
