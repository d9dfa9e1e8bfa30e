// Drives the bounded containers and optionals with elements that throw, and the algorithms with functions that throw.
#include "drv.hpp"

#include <stdx/algorithm.hpp>
#include <stdx/array.hpp>
#include <stdx/bitset.hpp>
#include <stdx/call_by_need.hpp>
#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/for_each_n_args.hpp>
#include <stdx/functional.hpp>
#include <stdx/latched.hpp>
#include <stdx/numeric.hpp>
#include <stdx/optional.hpp>
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>
#include <stdx/type_traits.hpp>

#include <algorithm>
#include <functional>
#include <memory>

namespace {
struct boom {};
int what = 0, fuse = 0;
long live = 0;
void step(bool comparing) {
    if (what == 1 or (what == 2 and comparing)) {
        if (--fuse == 0) {
            what = 0;
            throw boom{};
        }
    }
}
// An element whose operations throw when told to, before they change anything.
struct th {
    struct quiet {};
    int v{};
    unsigned alive = 0xa11e;
    th() { ++live; }
    th(int n, quiet) : v{n} { ++live; }
    th(int n) : v{(step(false), n)} { ++live; }
    th(th const &o) : v{(step(false), o.see())} { ++live; }
    th(th &&o) : v{(step(false), o.see())} {
        o.v = -7;
        ++live;
    }
    ~th() {
        see();
        alive = 0xdead;
        --live;
    }
    auto operator=(th const &o) -> th & {
        step(false);
        see();
        v = o.see();
        return *this;
    }
    auto operator=(th &&o) -> th & {
        step(false);
        see();
        auto const n = o.see();
        o.v = -7;
        v = n;
        return *this;
    }
    auto operator=(int n) -> th & {
        step(false);
        see();
        v = n;
        return *this;
    }
    auto see() const -> int {
        if (alive != 0xa11e) {
            drv::fail("an object that is not alive is used");
        }
        return v;
    }
    friend auto operator==(th const &l, th const &r) -> bool {
        step(true);
        return l.see() == r.see();
    }
};
auto num(int n) -> long long { return n; }
auto num(th const &t) -> long long { return t.see(); }
template <typename T> auto make(long long n) -> T {
    if constexpr (std::is_same_v<T, int>) {
        return static_cast<int>(n);
    } else {
        return T{static_cast<int>(n), typename T::quiet{}};
    }
}
} // namespace
template <> struct stdx::tombstone_traits<th> {
    auto operator()() const -> th { return th{0, th::quiet{}}; }
};

namespace {
using list = std::vector<long long>;
using pairs = std::vector<std::pair<long long, long long>>;
struct base {
    virtual ~base() = default;
    virtual void exec(drv::in &i) = 0;
};
// runs f armed; what it gives follows a 0, if it throws the answer is a 1
template <typename F> auto armed(drv::in &i, F f) -> list {
    auto const w = static_cast<int>(i.num());
    fuse = static_cast<int>(i.num());
    what = w;
    list r{0};
    try {
        f(r);
    } catch (boom const &) {
        r = {1};
    }
    what = 0;
    return r;
}

template <int K, std::size_t N> struct impl : base {
    using C = std::conditional_t<
        K == 1, stdx::cx_vector<th, N>,
        std::conditional_t<
            K == 2, stdx::cx_queue<th, N>,
            std::conditional_t<
                K == 3, stdx::cx_set<th, N>,
                std::conditional_t<K == 4, stdx::cx_map<int, th, N>,
                                   std::conditional_t<K == 5, stdx::cx_map<th, int, N>,
                                                      std::conditional_t<K == 6, stdx::cx_multimap<int, th, N, N>, stdx::optional<th>>>>>>>;
    using key = std::conditional_t<K == 4 or K == 6, int, th>;
    using val = std::conditional_t<K == 5, int, th>;
    C c{};

    static auto content(C const &c) -> std::string {
        list l;
        pairs p;
        if constexpr (K == 1) {
            for (auto const &e : c) {
                l.push_back(num(e));
            }
            if (c.size() != l.size()) {
                l.push_back(-99);
            }
        } else if constexpr (K == 2) {
            auto d = c;
            if (not c.empty()) {
                l = {num(c.front()), num(c.back())};
            }
            list m;
            while (not d.empty() and m.size() <= N) {
                m.push_back(num(d.pop()));
            }
            if (m.size() != c.size() or (not m.empty() and l != list{m.front(), m.back()})) {
                m.push_back(-99);
            }
            l = m;
        } else if constexpr (K == 3) {
            for (auto const &e : c) {
                l.push_back(num(e));
            }
            std::sort(l.begin(), l.end());
        } else if constexpr (K == 4 or K == 5) {
            for (auto const &e : c) {
                p.emplace_back(num(e.key), num(e.value));
            }
        } else if constexpr (K == 6) {
            for (auto const &e : c) {
                for (auto const &v : e.value) {
                    p.emplace_back(num(e.key), num(v));
                }
                if (e.value.empty()) {
                    p.emplace_back(num(e.key), -1);
                }
            }
        } else {
            if (c.has_value()) {
                l.push_back(num(*c));
            }
        }
        std::sort(p.begin(), p.end());
        return K >= 4 and K <= 6 ? drv::js(p) : drv::js(l);
    }
    void exec(drv::in &i) override {
        auto const &op = i.op;
        list r{0};
        std::string seen;
        if (op == "add") {
            if constexpr (K <= 3) {
                auto e = make<th>(i.num());
                auto const m = i.b();
                r = armed(i, [&](list &l) {
                    if constexpr (K == 1) {
                        l.push_back(num(m ? c.push_back(std::move(e)) : c.push_back(std::as_const(e))));
                    } else if constexpr (K == 2) {
                        l.push_back(num(m ? c.push(std::move(e)) : c.push(std::as_const(e))));
                    } else {
                        l.push_back(m ? c.insert(std::move(e)) : c.insert(std::as_const(e)));
                    }
                });
            } else if constexpr (K == 7) {
                auto const n = static_cast<int>(i.num());
                auto const e = make<th>(n);
                auto const m = i.b();
                r = armed(i, [&](list &l) { l.push_back(num(m ? c.emplace(e) : c.emplace(n))); });
            }
        } else if (op == "put") {
            if constexpr (K >= 4 and K <= 6) {
                auto const k = make<key>(i.num());
                auto const v = make<val>(i.num());
                r = armed(i, [&](list &l) {
                    if constexpr (K == 6) {
                        c.insert(k, v);
                    } else {
                        l.push_back(c.put(k, v));
                    }
                });
            }
        } else if (op == "take") {
            if constexpr (K <= 5) {
                r = armed(i, [&](list &l) {
                    if constexpr (K == 2) {
                        l.push_back(num(c.pop()));
                    } else if constexpr (K == 4 or K == 5) {
                        auto const p = c.pop_back();
                        l.push_back(num(p.key));
                        l.push_back(num(p.value));
                    } else {
                        l.push_back(num(c.pop_back()));
                    }
                });
            }
        } else if (op == "drop") {
            if constexpr (K >= 3 and K <= 6) {
                auto const k = make<key>(i.num());
                r = armed(i, [&](list &l) { l.push_back(static_cast<long long>(c.erase(k))); });
            }
        } else if (op == "cut") {
            if constexpr (K == 6) {
                auto const k = make<key>(i.num());
                auto const v = make<val>(i.num());
                r = armed(i, [&](list &l) { l.push_back(static_cast<long long>(c.erase(k, v))); });
            }
        } else if (op == "find") {
            if constexpr (K >= 3 and K <= 6) {
                auto const k = make<key>(i.num());
                r = armed(i, [&](list &l) { l.push_back(c.contains(k)); });
            }
        } else if (op == "assign") {
            if constexpr (K == 7) {
                auto const n = static_cast<int>(i.num());
                r = armed(i, [&](list &) { c = n; });
            }
        } else if (op == "resize") {
            if constexpr (K == 1) {
                auto const n = i.n();
                r = armed(i, [&](list &) {
                    resize_and_overwrite(c, [&](th *, std::size_t) {
                        step(false);
                        return n;
                    });
                });
            }
        } else if (op == "copy") {
            auto const how = i.b();
            r = armed(i, [&](list &) {
                if (how) {
                    C d{};
                    d = c;
                    what = 0;
                    seen = content(d);
                } else {
                    C d{c};
                    what = 0;
                    seen = content(d);
                }
            });
            if (r[0] == 0) { // [0] and the content of the copy
                i.answer("[0" + (seen == "[]" ? std::string{"]"} : "," + seen.substr(1)), content(c));
                return;
            }
        } else if (op == "clear") {
            if constexpr (K == 7) {
                c.reset();
            } else {
                c.clear();
            }
        } else if (op != "new") {
            drv::protocol(op);
        }
        i.answer(drv::js(r), content(c));
    }
};

// a function that counts its calls and throws at one of them
struct calls : base {
    static auto with(std::size_t n, auto f) {
        switch (n) {
        case 0: return f(std::integral_constant<std::size_t, 0>{});
        case 1: return f(std::integral_constant<std::size_t, 1>{});
        case 2: return f(std::integral_constant<std::size_t, 2>{});
        case 3: return f(std::integral_constant<std::size_t, 3>{});
        case 4: return f(std::integral_constant<std::size_t, 4>{});
        case 9: return f(std::integral_constant<std::size_t, 9>{});
        default: drv::protocol("number of elements");
        }
    }
    template <std::size_t N> static auto row() {
        return []<std::size_t... Is>(std::index_sequence<Is...>) { return stdx::make_tuple(static_cast<int>(Is)...); }(std::make_index_sequence<N>{});
    }
    void exec(drv::in &i) override {
        if (i.op == "new") {
            i.answer("[0]", "[]");
            return;
        }
        auto const alg = i.str();
        auto const n = i.n();
        auto const at = i.num();
        long long count = 0;
        bool threw = false;
        auto tick = [&] {
            if (++count == at) {
                throw boom{};
            }
        };
        auto f = [&](auto &&...) -> int {
            tick();
            return 0;
        };
        auto yes = [&](auto &&...) {
            tick();
            return true;
        };
        auto no = [&](auto &&...) {
            tick();
            return false;
        };
        try {
            std::vector<int> v(n), w(n);
            auto const is = [&](char const *s) { return alg == s; };
            if (is("for_each")) {
                stdx::for_each(v.begin(), v.end(), f);
            } else if (is("for_each_n")) {
                stdx::for_each_n(v.begin(), n, f);
            } else if (is("butlast")) {
                stdx::for_each_butlast(v.begin(), v.end(), f);
            } else if (is("transform")) {
                stdx::transform(v.begin(), v.end(), w.begin(), f);
            } else if (is("transform_n")) {
                stdx::transform_n(v.begin(), n, w.begin(), f);
            } else if (is("reduce")) {
                (void)stdx::transform_reduce(v.begin(), v.end(), 0, std::plus{}, f);
            } else if (is("imf")) {
                stdx::initial_medial_final(v.begin(), v.end(), f, f, f);
            } else if (is("latched")) {
                auto l = stdx::latched{[&] { return f(); }};
                (void)*l;
            } else if (is("optional")) {
                (void)stdx::optional<float>{1.0f}.transform([&](float x) {
                    tick();
                    return x;
                });
            } else if (is("or_else")) {
                (void)stdx::optional<float>{}.or_else([&] {
                    tick();
                    return stdx::optional<float>{};
                });
            } else if (is("bind")) {
                (void)stdx::bind_front(f, 1)(2);
            } else if (is("lazy")) {
                [[maybe_unused]] int x = stdx::with_result_of{f};
            } else if (is("bits") or is("bits_reduce")) {
                stdx::bitset<40, std::uint8_t> b;
                for (std::size_t k = 0; k < n; ++k) {
                    b.set((k * 7 + 3) % 40);
                }
                if (is("bits")) {
                    stdx::for_each([&](std::size_t) { tick(); }, b);
                } else {
                    (void)stdx::transform_reduce([&](std::size_t) { return f(); }, std::plus{}, 0, b);
                }
            } else {
                with(n, [&]<typename I>(I) {
                    constexpr auto seq = std::make_index_sequence<I::value>{};
                    auto t = row<I::value>();
                    if (is("tfor_each")) {
                        stdx::for_each(f, t);
                    } else if (is("ttransform")) {
                        (void)stdx::transform(f, t);
                    } else if (is("tenumerate")) {
                        stdx::enumerate([&]<std::size_t>(int) { tick(); }, t);
                    } else if (is("tfold_left")) {
                        (void)t.fold_left(0, f);
                    } else if (is("tfold_right")) {
                        (void)t.fold_right(0, f);
                    } else if (is("tall")) {
                        (void)stdx::all_of(yes, t);
                    } else if (is("tany")) {
                        (void)stdx::any_of(no, t);
                    } else if (is("tnone")) {
                        (void)stdx::none_of(no, t);
                    } else if (is("tjoin")) {
                        (void)t.join(0, f);
                    } else if (is("apply")) {
                        (void)t.apply(f);
                    } else if (is("args")) {
                        t.apply([&](auto... xs) { stdx::for_each_n_args([&](int) { tick(); }, xs...); });
                    } else if (is("types")) {
                        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
                            stdx::template_for_each<stdx::type_list<std::integral_constant<std::size_t, Is>...>>([&]<typename> { tick(); });
                        }(seq);
                    } else if (is("needs")) {
                        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
                            (void)stdx::call_by_need(stdx::make_tuple([&](int) { return static_cast<void>(Is), f(); }...), stdx::make_tuple(1));
                        }(seq);
                    } else if (is("make")) {
                        (void)stdx::make_array<I::value>([&]<auto> { return f(); });
                    } else {
                        drv::protocol(alg);
                    }
                });
            }
        } catch (boom const &) {
            threw = true;
        }
        i.answer(drv::js(list{threw, count}), "[]");
    }
};

template <int K> auto of(std::size_t n) -> std::unique_ptr<base> {
    switch (n) {
    case 1: return std::make_unique<impl<K, 1>>();
    case 2: return std::make_unique<impl<K, K == 7 ? 1 : 2>>();
    case 3: return std::make_unique<impl<K, K == 7 ? 1 : 3>>();
    case 6: return std::make_unique<impl<K, K == 7 ? 1 : 6>>();
    default: drv::protocol("capacity");
    }
}
} // namespace

int main() {
    std::unique_ptr<base> b;
    std::string line;
    while (std::getline(std::cin, line)) {
        drv::in i{line};
        if (i.op == "new") {
            b.reset();
            if (live != 0) {
                drv::fail("objects are left behind or destroyed twice");
            }
            auto const k = i.num();
            auto const n = i.n();
            b = k == 0   ? std::make_unique<calls>()
                : k == 1 ? of<1>(n)
                : k == 2 ? of<2>(n)
                : k == 3 ? of<3>(n)
                : k == 4 ? of<4>(n)
                : k == 5 ? of<5>(n)
                : k == 6 ? of<6>(n)
                         : of<7>(n);
        }
        b->exec(i);
    }
    b.reset();
    if (live != 0) {
        drv::fail("objects are left behind or destroyed twice");
    }
}
