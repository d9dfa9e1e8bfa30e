// Drives stdx::byterator over buffers of several element types.
#include "drv.hpp"

#include <stdx/byterator.hpp>

#include <array>
#include <cstring>
#include <memory>
#include <vector>

namespace {
constexpr int cap = 64;   // bytes
constexpr int guard = 64; // untouched bytes on either side
alignas(64) unsigned char arena[guard + cap + guard];
struct packed4 {
    std::uint16_t a;
    std::uint8_t b;
    std::uint8_t c;
    friend auto operator==(packed4, packed4) -> bool = default;
};
struct s3 {
    std::uint8_t b[3];
};
// a class iterator, to see that any contiguous iterator works
template <typename T> struct wrapped {
    using difference_type = std::ptrdiff_t;
    using value_type = std::remove_const_t<T>;
    using element_type = T;
    using pointer = T *;
    using reference = T &;
    using iterator_category = std::random_access_iterator_tag;
    T *p;
    auto operator*() const -> T & { return *p; }
    auto operator->() const -> T * { return p; }
};

struct base {
    virtual ~base() = default;
    virtual void exec(drv::in &i) = 0;
};
template <typename T, typename It> struct impl : base {
    using B = stdx::byterator<T>;
    std::size_t n{};
    int base_{};
    std::unique_ptr<B> cur[2];

    auto elem(std::ptrdiff_t k) -> It {
        if constexpr (std::is_pointer_v<It>) {
            return reinterpret_cast<T *>(arena + guard + base_) + k;
        } else {
            return It{reinterpret_cast<T *>(arena + guard + base_) + k};
        }
    }
    auto start() -> B { return B{elem(0)}; }
    auto where(B const &b) -> int { return static_cast<int>(b - start()); }

    auto obs() -> std::string {
        bool intact = true;
        for (int j = 0; j < guard; ++j) {
            intact = intact and arena[j] == 0xa5 and arena[guard + cap + j] == 0xa5;
        }
        for (int j = 0; j < base_; ++j) {
            intact = intact and arena[guard + j] == 0xa5;
        }
        for (std::size_t j = n + static_cast<std::size_t>(base_); j < cap; ++j) {
            intact = intact and arena[guard + j] == 0xa5;
        }
        std::vector<int> b(arena + guard + base_, arena + guard + base_ + n);
        return drv::obj{}("pos", std::vector<int>{where(*cur[0]), where(*cur[1])})("buf", b)("intact", int{intact}).done();
    }
    template <typename V> static auto bytes(V const &v) -> std::string {
        std::vector<int> r(sizeof(V));
        unsigned char raw[sizeof(V)];
        std::memcpy(raw, &v, sizeof(V));
        for (std::size_t j = 0; j < sizeof(V); ++j) {
            r[j] = raw[j];
        }
        return drv::js(r);
    }
    template <typename F> static void by_val(std::string const &v, F f) {
        if (v == "u8") { f(std::uint8_t{}); }
        else if (v == "i8") { f(std::int8_t{}); }
        else if (v == "u16") { f(std::uint16_t{}); }
        else if (v == "i16") { f(std::int16_t{}); }
        else if (v == "s3") { f(s3{}); }
        else if (v == "u32") { f(std::uint32_t{}); }
        else if (v == "u64") { f(std::uint64_t{}); }
        else { drv::protocol(v); }
    }
    enum struct e32 : std::uint32_t {};
    template <typename V, typename R> void get(std::string &res, B &b, bool read) {
        res = bytes(read ? b.template read<V, R>() : b.template peek<V, R>());
    }
    void load(drv::in &i, B &b, bool read, std::string &res) {
        auto const v = i.str();
        auto const r = i.str();
        auto const how = i.num();
        if (how == 1 and r == "same") {
            if (v == "u8") { res = bytes(read ? b.readu8() : b.peeku8()); return; }
            if (v == "u16") { res = bytes(read ? b.readu16() : b.peeku16()); return; }
            if (v == "u32") { res = bytes(read ? b.readu32() : b.peeku32()); return; }
            if (v == "u64") { res = bytes(read ? b.readu64() : b.peeku64()); return; }
        }
        if (how == 1 and r == "u32") {
            if (v == "u8") { res = bytes(read ? b.template readu8<e32>() : b.template peeku8<e32>()); return; }
            if (v == "u16") { res = bytes(read ? b.template readu16<e32>() : b.template peeku16<e32>()); return; }
            if (v == "u32") { res = bytes(read ? b.template readu32<e32>() : b.template peeku32<e32>()); return; }
            if (v == "u64") { res = bytes(read ? b.template readu64<e32>() : b.template peeku64<e32>()); return; }
        }
        by_val(v, [&](auto x) {
            using V = decltype(x);
            if (r == "same") {
                if constexpr (std::is_same_v<V, std::uint8_t>) {
                    if (how == 2) {
                        res = bytes(read ? b.read() : b.peek());
                        return;
                    }
                }
                res = bytes(read ? b.template read<V>() : b.template peek<V>());
            } else if constexpr (std::is_integral_v<V>) {
                by_val(r, [&](auto y) {
                    using R = decltype(y);
                    if constexpr (std::is_integral_v<R>) {
                        get<V, R>(res, b, read);
                    }
                });
            }
        });
    }
    void store(drv::in &i, B &b) {
        auto const v = i.str();
        auto const l = i.list();
        auto const how = i.num();
        if constexpr (not std::is_const_v<T>) {
            auto const u = drv::from_limbs<std::uint64_t>(l);
            if (how == 1) { // the argument is wider than what is written
                if (v == "u8") { b.writeu8(u); return; }
                if (v == "u16") { b.writeu16(u); return; }
                if (v == "u32") { b.writeu32(u); return; }
                if (v == "u64") { b.writeu64(u); return; }
            }
            by_val(v, [&](auto x) {
                using V = decltype(x);
                unsigned char raw[8];
                std::memcpy(raw, &u, 8);
                std::memcpy(&x, raw, sizeof(V));
                if (how == 2) {
                    b.write(std::move(x));
                } else {
                    V const c = x;
                    b.write(c);
                }
            });
        }
    }
    void exec(drv::in &i) override {
        auto const &op = i.op;
        std::vector<int> r;
        std::string res;
        if (op == "new") {
            auto const l = i.list();
            n = l.size();
            base_ = static_cast<int>(i.num());
            std::memset(arena, 0xa5, sizeof(arena));
            for (std::size_t j = 0; j < n; ++j) {
                arena[guard + base_ + j] = static_cast<unsigned char>(l[j]);
            }
            cur[0] = std::make_unique<B>(elem(0));
            cur[1] = std::make_unique<B>(elem(0));
        } else {
            auto const c = i.n() - 1;
            B &b = *cur[c];
            B const &k = b;
            if (op == "at") {
                cur[c] = std::make_unique<B>(stdx::byterator{elem(i.num())});
            } else if (op == "copy") {
                b = *cur[1 - c];
            } else if (op == "prei") {
                r = {where(++b)};
            } else if (op == "posti") {
                r = {where(b++)};
            } else if (op == "pred") {
                r = {where(--b)};
            } else if (op == "postd") {
                r = {where(b--)};
            } else if (op == "add") {
                auto const d = i.num();
                r = {where(i.num() ? b.advance(d) : (b += d))};
            } else if (op == "sub") {
                r = {where(b -= i.num())};
            } else if (op == "plus") {
                auto const d = i.num();
                r = {where(k + d), where(d + k)};
            } else if (op == "minus") {
                r = {where(k - i.num())};
            } else if (op == "diff") {
                r = {static_cast<int>(*cur[0] - *cur[1])};
            } else if (op == "rel") {
                B const &x = *cur[0];
                B const &y = *cur[1];
                auto const o = x <=> y;
                r = {x == y, x != y, x < y, x <= y, x > y, x >= y, o < 0 ? -1 : o == 0 ? 0 : 1};
            } else if (op == "relit") {
                auto const y = elem(i.num());
                auto const o = k <=> y;
                r = {k == y, k != y, k < y, k <= y, k > y, k >= y, o < 0 ? -1 : o == 0 ? 0 : 1};
                bool const rev = (y == k) == (k == y) and (y != k) == (k != y) and (y < k) == (k > y) and
                                 (y >= k) == (k <= y);
                if (not rev) {
                    r.push_back(-9);
                }
            } else if (op == "skip") {
                auto const v = i.str();
                if (i.num() == 1) {
                    r = {where(v == "u8"    ? b.advanceu8()
                               : v == "u16" ? b.advanceu16()
                               : v == "u32" ? b.advanceu32()
                                            : b.advanceu64())};
                } else {
                    by_val(v, [&](auto x) { r = {where(b.template advance<decltype(x)>())}; });
                }
            } else if (op == "align") {
                auto const v = i.str();
                auto const d = i.num();
                by_val(v, [&](auto x) {
                    r = {where(d == 0 ? b.template advance_to_alignment<decltype(x)>()
                                      : b.template advance_to_alignment<decltype(x)>(d))};
                });
            } else if (op == "get") {
                r = {static_cast<int>(*k), static_cast<int>(*k.operator->())};
            } else if (op == "index") {
                auto const d = i.num();
                r = {static_cast<int>(k[d]), static_cast<int>(b[d])};
            } else if (op == "put") {
                auto const d = i.num();
                auto const v = static_cast<std::byte>(i.num());
                if constexpr (not std::is_const_v<T>) {
                    if (d == 0) {
                        *b = v;
                    } else {
                        b[d] = v;
                    }
                }
            } else if (op == "peek" or op == "read") {
                load(i, b, op == "read", res);
            } else if (op == "write") {
                store(i, b);
            } else {
                drv::protocol(op);
            }
        }
        drv::answer(res.empty() ? drv::js(r) : res, obs());
    }
};
auto make(std::size_t k) -> std::unique_ptr<base> {
    switch (k) {
    case 0: return std::make_unique<impl<std::uint8_t, std::uint8_t *>>();
    case 1: return std::make_unique<impl<std::uint16_t, wrapped<std::uint16_t>>>();
    case 2: return std::make_unique<impl<std::uint32_t, std::uint32_t *>>();
    case 3: return std::make_unique<impl<std::uint64_t, std::uint64_t *>>();
    case 4: return std::make_unique<impl<std::uint32_t const, std::uint32_t const *>>();
    case 5: return std::make_unique<impl<packed4, wrapped<packed4>>>();
    default: drv::protocol("kind");
    }
}
} // namespace
int main() {
    std::unique_ptr<base> cur;
    return drv::loop([&](drv::in &i) {
        if (i.op == "new") {
            cur = make(i.n());
        }
        cur->exec(i);
    });
}
