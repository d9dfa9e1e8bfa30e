// Drives stdx::latched and stdx::cached over several value types.
#include "drv.hpp"

#include <stdx/cached.hpp>
#include <stdx/latched.hpp>

#include <memory>
#include <optional>

namespace {
struct world {
    int count{};
    bool armed{};
    int storage{};
};
int cells[4096];

template <int K> constexpr auto make_value(int n) {
    if constexpr (K == 0 or K == 6) {
        return n;
#ifdef DRV_LIFE
    } else if constexpr (K == 1 or K == 2) {
        return life::obj<K == 1>{n};
#endif
    } else if constexpr (K == 1) {
        return std::string("a string too long for the small buffer ") + std::to_string(n);
    } else if constexpr (K == 2) {
        return std::make_unique<int>(n);
    } else if constexpr (K == 3) {
        return n == 0 ? std::optional<int>{} : std::optional<int>{n};
    } else if constexpr (K == 4) {
        return n != 0;
    } else {
        return n == 0 ? static_cast<int *>(nullptr) : &cells[n];
    }
}
constexpr auto num(int v) { return v; }
constexpr auto num(bool v) { return v ? 1 : 0; }
constexpr auto num(std::string const &v) { return v.empty() ? -9 : std::stoi(v.substr(v.rfind(' ') + 1)); }
constexpr auto num(std::unique_ptr<int> const &v) { return v ? *v : -9; }
constexpr auto num(std::optional<int> const &v) { return v ? *v : 0; }
template <bool Copy> constexpr auto num(life::obj<Copy> const &v) { return v.get(); }
constexpr auto num(int *v) { return v ? static_cast<int>(v - cells) : 0; }

struct failure {};
template <int K> struct compute {
    world *w{};
    int tag = 77;
    constexpr auto run() const -> int {
        if (tag != 77) {
            drv::protocol("the computation was damaged");
        }
        ++w->count;
        if (w->armed) {
            w->armed = false;
            throw failure{};
        }
        auto const n = w->count;
        return K == 3 or K == 5 ? (n % 2 == 1 ? 0 : n) : K == 4 ? n % 2 : n;
    }
    constexpr auto operator()() const -> decltype(auto) {
        if constexpr (K == 6) {
            w->storage = run();
            return static_cast<int const &>(w->storage);
        } else {
            return make_value<K>(run());
        }
    }
};

struct base {
    constexpr virtual ~base() = default;
    constexpr virtual void exec(drv::in &i) = 0;
};
struct slot {
    void const *addr{};
    constexpr virtual ~slot() = default;
    constexpr virtual auto access(int how) -> int = 0;
    constexpr virtual auto has() const -> bool = 0;
    constexpr virtual auto conv() const -> bool = 0;
    constexpr virtual auto vals(bool &same) -> std::vector<int> = 0;
    constexpr virtual auto refresh(int) -> int = 0;
    constexpr virtual void reset() = 0;
    constexpr virtual void assign(slot const &, bool) = 0;
    constexpr virtual auto clone() const -> std::unique_ptr<slot> = 0;
    constexpr virtual auto steal() -> std::unique_ptr<slot> = 0;
    constexpr virtual void assign_move(slot &) = 0;
};
template <int K, template <typename> typename L, bool Cached> struct slot_t : slot {
    using F = compute<K>;
    using O = L<F>;
    using V = stdx::latched_value_t<O const &>;
    static_assert(std::is_same_v<V, std::remove_cvref_t<std::invoke_result_t<F>>>);
    O o;
    constexpr explicit slot_t(F const &f) : o{f} {}
    constexpr explicit slot_t(F &&f) : o{std::move(f)} {}
    constexpr explicit slot_t(O const &x)
        requires(K != 2)
        : o{x} {}
    constexpr explicit slot_t(O &&x) : o{std::move(x)} {}
    constexpr ~slot_t() override {}
    constexpr auto note(V const &v) -> int {
        addr = std::addressof(v);
        return num(v);
    }
    constexpr auto access(int how) -> int override {
        O const &c = o;
        switch (how) {
        case 0: return note(o.value());
        case 1: return note(std::move(c).value());
        case 2: return note(*o.operator->());
        case 3: return note(*c);
        case 4: return note(*std::move(c));
        default: {
            auto &&v = *std::move(o);
            return note(v);
        }
        }
    }
    constexpr auto has() const -> bool override { return o.has_value(); }
    constexpr auto conv() const -> bool override { return static_cast<bool>(o); }
    constexpr auto vals(bool &same) -> std::vector<int> override {
        O const &c = o;
        std::vector<V const *> p{&o.value(), &*c, c.operator->(), o.operator->(), &c.value()};
        std::vector<int> r;
        for (auto x : p) {
            r.push_back(num(*x));
            same = same and (addr == nullptr or x == addr);
            addr = x;
        }
        return r;
    }
    constexpr auto refresh(int w) -> int override {
        if constexpr (Cached) {
            addr = nullptr;
            auto &v = o.refresh();
            auto const r = num(v);
            if (w >= 0) {
                v = make_value<K>(w);
            }
            return r;
        }
        return w;
    }
    constexpr void reset() override {
        if constexpr (Cached) {
            addr = nullptr;
            o.reset();
        }
    }
    constexpr void assign(slot const &s, bool) override {
        addr = nullptr;
        if constexpr (K != 2) {
            o = static_cast<slot_t const &>(s).o;
        }
    }
    constexpr void assign_move(slot &s) override {
        addr = nullptr;
        o = std::move(static_cast<slot_t &>(s).o);
    }
    constexpr auto clone() const -> std::unique_ptr<slot> override {
        if constexpr (K != 2) {
            return std::make_unique<slot_t>(o);
        } else {
            drv::protocol("copy of a move-only value");
        }
    }
    constexpr auto steal() -> std::unique_ptr<slot> override { return std::make_unique<slot_t>(std::move(o)); }
};
template <int K> struct impl : base {
    constexpr ~impl() override {}
    world w{};
    drv::two<std::unique_ptr<slot>> s{};
    drv::two<int> fam{};
    constexpr void make(std::size_t j, int how) {
        compute<K> f{&w};
        if (fam[j] == 0) {
            s[j] = how ? std::make_unique<slot_t<K, stdx::latched, false>>(std::move(f))
                       : std::make_unique<slot_t<K, stdx::latched, false>>(f);
        } else {
            s[j] = how ? std::make_unique<slot_t<K, stdx::cached, true>>(std::move(f))
                       : std::make_unique<slot_t<K, stdx::cached, true>>(f);
        }
    }
    constexpr void exec(drv::in &i) override {
        auto const &op = i.op;
        std::vector<int> res;
        if (op == "new") {
            fam[0] = static_cast<int>(i.num());
            fam[1] = static_cast<int>(i.num());
            w.count = 0;
            w.armed = false;
            make(0, 0);
            make(1, 1);
        } else if (op == "arm") {
            w.armed = true;
        } else {
            auto const j = i.n() - 1;
            if (op == "make") {
                make(j, static_cast<int>(i.num()));
            } else if (op == "access") {
                try {
                    res = {s[j]->access(static_cast<int>(i.num()))};
                } catch (failure const &) {
                    res = {-1};
                }
            } else if (op == "query") {
                res = {s[j]->has() and s[j]->conv()};
            } else if (op == "reset") {
                s[j]->reset();
            } else if (op == "refresh") {
                try {
                    res = {s[j]->refresh(static_cast<int>(i.num()))};
                } catch (failure const &) {
                    res = {-1};
                }
            } else if (op == "copy") {
                if (i.num()) {
                    s[j] = s[1 - j]->clone();
                } else {
                    s[j]->assign(*s[1 - j], false);
                }
            } else if (op == "move") {
                if (i.num()) {
                    s[j] = s[1 - j]->steal();
                } else {
                    s[j]->assign_move(*s[1 - j]);
                }
                make(1 - j, 0);
            } else {
                drv::protocol(op);
            }
        }
        life::look();
        std::vector<int> has{s[0]->has(), s[1]->has()};
        std::vector<int> conv{s[0]->conv(), s[1]->conv()};
        std::vector<std::vector<int>> val(2);
        std::vector<int> same;
        for (std::size_t j = 0; j < 2; ++j) {
            bool sm = true;
            if (s[j]->has()) {
                val[j] = s[j]->vals(sm);
            }
            same.push_back(sm);
        }
        i.answer(drv::js(res), drv::obj{}("has", has)("bool", conv)("count", w.count)("val", val)("same", same).done());
    }
};
constexpr auto make(std::size_t k) -> std::unique_ptr<base> {
    switch (k) {
    case 0: return std::make_unique<impl<0>>();
    case 1: return std::make_unique<impl<1>>();
    case 2: return std::make_unique<impl<2>>();
    case 3: return std::make_unique<impl<3>>();
    case 4: return std::make_unique<impl<4>>();
    case 5: return std::make_unique<impl<5>>();
    case 6: return std::make_unique<impl<6>>();
    default: drv::protocol("kind");
    }
}
} // namespace
#ifndef DRV_CX
int main() {
    {
        auto l = stdx::latched{[] { return 1; }};
        auto c = stdx::cached{[] { return 1; }};
        static_assert(std::is_same_v<stdx::cached_value_t<decltype(c) &>, int>);
        static_assert(std::is_same_v<stdx::latched_value_t<decltype(l) const &>, int>);
    }
    std::unique_ptr<base> cur;
    return drv::loop([&](drv::in &i) {
        if (i.op == "end") {
            cur.reset();
            return i.answer("[]", "[]");
        }
        if (i.op == "new") {
            cur.reset();
            cur = make(i.n());
        }
        cur->exec(i);
    });
}
#endif
