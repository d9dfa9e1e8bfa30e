// Drives the variadic range algorithms and counting_iterator.
#include "drv.hpp"

#include <stdx/algorithm.hpp>
#include <stdx/iterator.hpp>
#include <stdx/numeric.hpp>

#include <memory>

namespace {
using L = long long;
// A range whose iterators know where they stand: reading outside it, or through a copy of an
// input iterator that has been overtaken, is reported.
struct range {
    std::vector<L> v;
    std::ptrdiff_t front = 0; // how far an input iterator over this range has come
    std::ptrdiff_t limit = 0; // positions from here on are not to be read
};
template <typename Tag> struct iter {
    using iterator_category = Tag;
    using value_type = L;
    using difference_type = std::ptrdiff_t;
    using pointer = L *;
    using reference = L &;
    range *r{};
    std::ptrdiff_t p{};
    constexpr static bool single = std::is_same_v<Tag, std::input_iterator_tag>;
    constexpr static bool rnd = std::is_same_v<Tag, std::random_access_iterator_tag>;
    constexpr static bool bid = rnd or std::is_same_v<Tag, std::bidirectional_iterator_tag>;
    constexpr void alive() const {
        if (single and p < r->front) {
            drv::fail("an input iterator was used after a copy of it had advanced");
        }
    }
    constexpr auto operator*() const -> L & {
        alive();
        if (p < 0 or p >= r->limit or p >= static_cast<std::ptrdiff_t>(r->v.size())) {
            drv::fail("an element beyond the ones to visit was read");
        }
        return r->v[static_cast<std::size_t>(p)];
    }
    constexpr auto operator++() -> iter & {
        alive();
        ++p;
        r->front = p > r->front ? p : r->front;
        if (p > static_cast<std::ptrdiff_t>(r->v.size())) {
            drv::fail("an iterator was moved past the end");
        }
        return *this;
    }
    constexpr auto operator++(int) -> iter {
        auto t = *this;
        ++*this;
        return t;
    }
    constexpr auto operator--() -> iter &
        requires bid
    {
        --p;
        return *this;
    }
    constexpr auto operator--(int) -> iter
        requires bid
    {
        auto t = *this;
        --*this;
        return t;
    }
    constexpr auto operator+=(std::ptrdiff_t d) -> iter &
        requires rnd
    {
        p += d;
        return *this;
    }
    constexpr auto operator-=(std::ptrdiff_t d) -> iter &
        requires rnd
    {
        p -= d;
        return *this;
    }
    constexpr auto operator[](std::ptrdiff_t d) const -> L &
        requires rnd
    {
        return *iter{r, p + d};
    }
    constexpr friend auto operator+(iter a, std::ptrdiff_t d) -> iter
        requires rnd
    {
        return a += d;
    }
    constexpr friend auto operator+(std::ptrdiff_t d, iter a) -> iter
        requires rnd
    {
        return a += d;
    }
    constexpr friend auto operator-(iter a, std::ptrdiff_t d) -> iter
        requires rnd
    {
        return a -= d;
    }
    constexpr friend auto operator-(iter a, iter b) -> std::ptrdiff_t
        requires rnd
    {
        return a.p - b.p;
    }
    constexpr friend auto operator==(iter a, iter b) -> bool { return a.p == b.p; }
    constexpr friend auto operator!=(iter a, iter b) -> bool { return a.p != b.p; }
    constexpr friend auto operator<(iter a, iter b) -> bool
        requires rnd
    {
        return a.p < b.p;
    }
    constexpr friend auto operator>(iter a, iter b) -> bool
        requires rnd
    {
        return a.p > b.p;
    }
    constexpr friend auto operator<=(iter a, iter b) -> bool
        requires rnd
    {
        return a.p <= b.p;
    }
    constexpr friend auto operator>=(iter a, iter b) -> bool
        requires rnd
    {
        return a.p >= b.p;
    }
};
using inp = iter<std::input_iterator_tag>;
using fwd = iter<std::forward_iterator_tag>;
using bid = iter<std::bidirectional_iterator_tag>;
using rnd = iter<std::random_access_iterator_tag>;
using cnt = stdx::counting_iterator<int>;

// what an algorithm was seen to do
struct record {
    std::vector<std::vector<L>> calls{};
    std::vector<L> ends{};
};
struct fn {
    record *rec;
    L n = 0;
    constexpr auto operator()(auto const &...xs) -> L {
        rec->calls.push_back({static_cast<L>(xs)...});
        L w = 1;
        L s = 1000 * n++;
        ((s += w * static_cast<L>(xs), w *= 3), ...);
        return s;
    }
};
template <typename T> constexpr auto pos(iter<T> i) -> L { return i.p; }
constexpr auto pos(cnt i) -> L { return *i; }

// output iterator, or the first range itself
struct sink {
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    std::vector<L> *out{};
    L p = 0;
    struct proxy {
        sink const *s;
        constexpr auto operator=(L v) const -> proxy const & {
            if (s->p != static_cast<L>(s->out->size())) {
                drv::fail("a result was not written at its place");
            }
            s->out->push_back(v);
            return *this;
        }
    };
    constexpr auto operator*() const -> proxy { return {this}; }
    constexpr auto operator++() -> sink & {
        ++p;
        return *this;
    }
    constexpr auto operator++(int) -> sink {
        auto t = *this;
        ++p;
        return t;
    }
};
constexpr auto pos(sink s) -> L { return s.p; }

template <std::size_t From, typename R> constexpr void note_ends(record &rec, R const &r) {
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        (rec.ends.push_back(pos(stdx::get<Is + From>(r))), ...);
    }(std::make_index_sequence<stdx::tuple_size_v<R> - From>{});
}
template <typename F> constexpr void counted(L n, L t, F f) {
    switch (t) {
    case 0: return f(static_cast<int>(n));
    case 1: return f(static_cast<unsigned>(n));
    case 2: return f(static_cast<unsigned char>(n));
    default: return f(n);
    }
}

template <typename I, typename... Rs>
constexpr void call(drv::in &i, std::string const &seen, range &first, std::size_t visited, L n, L t, L dest, std::vector<range *> const &all,
          Rs... rs) {
    auto const &op = i.op;
    record rec{};
    first.limit = static_cast<std::ptrdiff_t>(visited);
    for (auto r : all) {
        r->limit = first.limit;
    }
    auto const b = I{&first, 0};
    auto const e = I{&first, static_cast<std::ptrdiff_t>(first.v.size())};
    std::vector<L> out;
    L state{};
    auto rop = [state = 0](L acc, L v) mutable {
        ++state;
        return ((7 * acc + v) % 10007 + 10007) % 10007;
    };
    if (op == "each") {
        auto r = stdx::for_each(b, e, fn{&rec}, rs...);
        state = stdx::get<0>(r).n;
        note_ends<1>(rec, r);
    } else if (op == "eachn") {
        counted(n, t, [&](auto c) {
            auto r = stdx::for_each_n(b, c, fn{&rec}, rs...);
            state = stdx::get<0>(r).n;
            note_ends<1>(rec, r);
        });
    } else if (op == "butlast" or op == "but1") {
        if constexpr (not I::single) {
            auto see = [&](auto const &r) {
                state = stdx::get<0>(r).n;
                note_ends<1>(rec, r);
            };
            if (op == "but1") {
                see(stdx::for_each_butlast(b, e, fn{&rec}, rs...));
            } else {
                counted(n, t, [&](auto c) { see(stdx::for_each_butlastn(b, e, c, fn{&rec}, rs...)); });
            }
        }
    } else if (op == "trans" or op == "transn") {
        auto see = [&](auto const &r) { note_ends<0>(rec, r); };
        fn f{&rec};
        auto g = [&](auto const &...xs) { return f(xs...); };
        if (op == "trans") {
            if (dest == 0) {
                see(stdx::transform(b, e, sink{&out}, g, rs...));
            } else {
                see(stdx::transform(b, e, rnd{&first, 0}, g, rs...));
            }
        } else {
            counted(n, t, [&](auto c) {
                if (dest == 0) {
                    see(stdx::transform_n(b, c, sink{&out}, g, rs...));
                } else {
                    see(stdx::transform_n(b, c, rnd{&first, 0}, g, rs...));
                }
            });
        }
        state = f.n;
        if (dest != 0) {
            out.assign(first.v.begin(), first.v.begin() + static_cast<std::ptrdiff_t>(visited));
        }
    } else if (op == "reduce" or op == "reducen") {
        fn f{&rec};
        auto g = [&](auto const &...xs) { return f(xs...); };
        if (op == "reduce") {
            out.push_back(stdx::transform_reduce(b, e, L{5}, rop, g, rs...));
        } else {
            counted(n, t, [&](auto c) { out.push_back(stdx::transform_reduce_n(b, c, L{5}, rop, g, rs...)); });
        }
        state = f.n;
    } else {
        drv::protocol(op);
    }
    drv::obj o{};
    o("calls", rec.calls)("state", state)("ends", rec.ends)("out", out);
    i.answer(o.done(), seen);
}

struct base {
    constexpr virtual ~base() = default;
    constexpr virtual void exec(drv::in &i) = 0;
    constexpr virtual auto obs() -> std::string = 0;
};
template <typename T> struct counters : base {
    using C = stdx::counting_iterator<T>;
    C x{};
    C y{};
    using D = typename C::difference_type;
    constexpr ~counters() override {}
    constexpr counters(L a, L b) : x{static_cast<T>(a)}, y{static_cast<T>(b)} {}
    constexpr auto obs() -> std::string override { return drv::js(std::vector<L>{static_cast<L>(*x), static_cast<L>(*y)}); }
    constexpr void exec(drv::in &i) override {
        auto const &op = i.op;
        std::vector<L> r;
        auto one = [&](C c) { r = {static_cast<L>(*c)}; };
        if (op == "inc") {
            one(++x);
        } else if (op == "pinc") {
            one(x++);
        } else if (op == "dec") {
            one(--x);
        } else if (op == "pdec") {
            one(x--);
        } else if (op == "add") {
            auto const d = static_cast<D>(i.num());
            one(i.num() ? (x += d) : x.advance(d));
        } else if (op == "sub") {
            one(x -= static_cast<D>(i.num()));
            i.num();
        } else if (op == "plus") {
            auto const d = static_cast<D>(i.num());
            y = i.num() ? x + d : d + x;
        } else if (op == "minus") {
            y = x - static_cast<D>(i.num());
            i.num();
        } else if (op == "diff") {
            r = {static_cast<L>(x - y)};
        } else if (op == "cmp") {
            r = {x == y, x != y, x < y, x <= y, x > y, x >= y};
        } else if (op == "swap") {
            std::swap(x, y);
        } else if (op != "new") {
            drv::protocol(op);
        }
        i.answer(drv::js(r), obs());
    }
};
constexpr auto make(L t, L a, L b) -> std::unique_ptr<base> {
    switch (t) {
    case 0: return std::make_unique<counters<int>>(a, b);
    case 1: return std::make_unique<counters<char>>(a, b);
    case 2: return std::make_unique<counters<unsigned char>>(a, b);
    case 3: return std::make_unique<counters<short>>(a, b);
    case 4: return std::make_unique<counters<long long>>(a, b);
    default: return std::make_unique<counters<unsigned>>(a, b);
    }
}
struct machine {
    std::unique_ptr<base> cur{};
    constexpr void exec(drv::in &i) {
        if (i.op == "new") {
            auto const t = i.num();
            auto const a = i.num();
            cur = make(t, a, i.num());
            cur->exec(i);
            return;
        }
        bool const alg = i.op == "each" or i.op == "eachn" or i.op == "butlast" or i.op == "but1" or i.op == "trans" or
                         i.op == "transn" or i.op == "reduce" or i.op == "reducen" or i.op == "imf";
        if (not alg) {
            cur->exec(i);
            return;
        }
        auto const seen = cur->obs();
        auto const k = i.num();
        auto first = std::make_unique<range>(range{i.list()});
        auto const m = i.n();
        std::vector<std::unique_ptr<range>> own;
        std::vector<L> kinds;
        std::vector<range *> all;
        for (std::size_t j = 0; j < m; ++j) {
            i.num(); // each further range is a pair
            kinds.push_back(i.num());
            own.push_back(std::make_unique<range>(range{i.list()}));
            all.push_back(own.back().get());
        }
        auto const n = i.num();
        auto const t = i.num();
        auto const dest = i.num();
        auto const len = static_cast<L>(first->v.size());
        auto const vis = i.op == "eachn" or i.op == "transn" or i.op == "reducen" ? n
                         : i.op == "butlast"                                        ? len - n
                         : i.op == "but1"                                           ? len - 1
                                                                                    : len;
        auto const visited = static_cast<std::size_t>(vis < 0 ? 0 : vis);
        auto with_first = [&](auto f) {
            switch (k) {
            case 0: return f(inp{});
            case 1: return f(fwd{});
            case 2: return f(bid{});
            default: return f(rnd{});
            }
        };
        if (i.op == "imf") {
            with_first([&](auto it) {
                using I = decltype(it);
                if constexpr (not I::single) {
                    record rec{};
                    first->limit = len;
                    auto mk = [&](L which) {
                        return [&rec, which, c = L{0}](L v, bool count = false) mutable -> L {
                            if (count) {
                                return c;
                            }
                            ++c;
                            rec.calls.push_back({which, v});
                            return 0;
                        };
                    };
                    auto r = stdx::initial_medial_final(I{first.get(), 0}, I{first.get(), len}, mk(1), mk(2), mk(3));
                    std::vector<L> st{stdx::get<0>(r)(0, true), stdx::get<1>(r)(0, true), stdx::get<2>(r)(0, true)};
                    i.answer(drv::obj{}("calls", rec.calls)("state", st).done(), seen);
                }
            });
            return;
        }
        with_first([&](auto it) {
            using I = decltype(it);
            auto go = [&](auto... rs) { call<I>(i, seen, *first, visited, n, t, dest, all, rs...); };
            auto c = [&](std::size_t j) { return cnt{static_cast<int>(own[j]->v[0])}; };
            auto const is = [&](std::vector<L> const &w) { return kinds == w; };
            if (is({})) {
                go();
            } else if (is({3})) {
                go(rnd{all[0], 0});
            } else if (is({0})) {
                go(inp{all[0], 0});
            } else if (is({4})) {
                go(c(0));
            } else if (is({1, 4})) {
                go(fwd{all[0], 0}, c(1));
            } else if (is({0, 3, 4})) {
                go(inp{all[0], 0}, rnd{all[1], 0}, c(2));
            } else {
                drv::protocol("ranges");
            }
        });
    }
};
} // namespace
#ifndef DRV_CX
int main() {
    machine m{};
    return drv::loop([&](drv::in &i) { m.exec(i); });
}
#endif
