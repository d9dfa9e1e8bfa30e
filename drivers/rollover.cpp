// Drives stdx::rollover_t at every width.
#include "drv.hpp"

#include <stdx/rollover.hpp>

#include <memory>
#include <type_traits>

namespace {
struct base {
    constexpr virtual ~base() = default;
    constexpr virtual void exec(drv::in &i) = 0;
};
template <typename> constexpr bool is_roll = false;
template <typename T> constexpr bool is_roll<stdx::rollover_t<T>> = true;

template <typename T> struct impl : base {
    constexpr ~impl() override {}
    using R = stdx::rollover_t<T>;
    R reg{};
    constexpr static auto l(R r) -> std::vector<int> {
        if (r.as_underlying() != static_cast<T>(r)) {
            drv::protocol("two conversions disagree");
        }
        return drv::limbs(r.as_underlying());
    }
    template <typename F> constexpr static void bin(std::string const &f, F fn) {
        if (f == "add") {
            fn([](R x, R y) { return x + y; }, [](R &x, R const &y) -> R & { return x += y; });
        } else if (f == "sub") {
            fn([](R x, R y) { return x - y; }, [](R &x, R const &y) -> R & { return x -= y; });
        } else if (f == "mul") {
            fn([](R x, R y) { return x * y; }, [](R &x, R const &y) -> R & { return x *= y; });
        } else if (f == "div") {
            fn([](R x, R y) { return x / y; }, [](R &x, R const &y) -> R & { return x /= y; });
        } else if (f == "mod") {
            fn([](R x, R y) { return x % y; }, [](R &x, R const &y) -> R & { return x %= y; });
        } else {
            drv::protocol(f);
        }
    }
    template <typename U> constexpr void conv(std::vector<long long> const &v, bool roll) {
        auto const u = drv::from_limbs<U>(v);
        if constexpr (std::is_unsigned_v<U>) {
            if (roll) {
                reg = R{stdx::rollover_t<U>{u}};
                return;
            }
        }
        reg = R{u};
    }
    template <typename U> constexpr static auto common() -> std::vector<int> {
        if constexpr (sizeof(T) < 4 and sizeof(U) < 4 and sizeof(T) != sizeof(U)) {
            drv::protocol("common type of two narrow types");
        } else {
            using A = std::common_type_t<R, stdx::rollover_t<U>>;
            using B = std::common_type_t<R, std::make_signed_t<U>>;
            return {sizeof(A), sizeof(B), is_roll<A> and is_roll<B>};
        }
    }
    constexpr void exec(drv::in &i) override {
        auto const &op = i.op;
        std::string res = "[]";
        if (op == "new") {
            reg = R{};
        } else if (op == "set") {
            reg = stdx::rollover_t{drv::from_limbs<T>(i.list())};
        } else if (op == "row") {
            auto const f = i.str();
            auto const x = R{static_cast<T>(i.num())};
            std::vector<int> r;
            for (int y = 0; y < 256; ++y) {
                auto const Y = R{static_cast<T>(y)};
                if (f == "less") {
                    r.push_back(cmp_less(x, Y));
                } else if (f == "eq") {
                    r.push_back(x == Y and not(x != Y));
                } else if (f == "neg") {
                    r.push_back(static_cast<int>((-x).as_underlying()));
                } else if (y == 0 and (f == "div" or f == "mod")) {
                    r.push_back(-1);
                } else {
                    bin(f, [&](auto b, auto c) {
                        auto z = x;
                        auto const &ret = c(z, Y);
                        auto const v = b(x, Y);
                        r.push_back(v == z and &ret == &z ? static_cast<int>(v.as_underlying()) : -2);
                    });
                }
            }
            res = drv::js(r);
        } else if (op == "conv") {
            auto const v = i.list();
            bool const sgn = i.b();
            bool const roll = i.b();
            switch (v.size()) {
            case 1: sgn ? conv<std::int8_t>(v, roll) : conv<std::uint8_t>(v, roll); break;
            case 2: sgn ? conv<std::int16_t>(v, roll) : conv<std::uint16_t>(v, roll); break;
            case 4: sgn ? conv<std::int32_t>(v, roll) : conv<std::uint32_t>(v, roll); break;
            default: sgn ? conv<std::int64_t>(v, roll) : conv<std::uint64_t>(v, roll); break;
            }
        } else if (op == "bin" or op == "cmpd") {
            auto const f = i.str();
            auto const y = R{drv::from_limbs<T>(i.list())};
            bin(f, [&](auto b, auto c) { res = drv::js(l(op == "bin" ? b(reg, y) : R{c(reg, y)})); });
        } else if (op == "self") {
            bin(i.str(), [&](auto, auto c) { res = drv::js(l(R{c(reg, reg)})); });
        } else if (op == "un") {
            auto const f = i.str();
            res = drv::js(l(f == "pos"     ? +reg
                            : f == "neg"   ? -reg
                            : f == "prei"  ? R{++reg}
                            : f == "posti" ? reg++
                            : f == "pred"  ? R{--reg}
                                           : reg--));
        } else if (op == "rel") {
            auto const y = R{drv::from_limbs<T>(i.list())};
            res = drv::js(std::vector<int>{reg == y, reg != y, cmp_less(reg, y), cmp_less(y, reg)});
        } else if (op == "common") {
            switch (i.n()) {
            case 1: res = drv::js(common<std::uint8_t>()); break;
            case 2: res = drv::js(common<std::uint16_t>()); break;
            case 4: res = drv::js(common<std::uint32_t>()); break;
            default: res = drv::js(common<std::uint64_t>()); break;
            }
        } else {
            drv::protocol(op);
        }
        i.answer(res, drv::js(l(reg)));
    }
};
constexpr auto make(std::size_t k) -> std::unique_ptr<base> {
    switch (k) {
    case 1: return std::make_unique<impl<std::uint8_t>>();
    case 2: return std::make_unique<impl<std::uint16_t>>();
    case 4: return std::make_unique<impl<std::uint32_t>>();
    default: return std::make_unique<impl<std::uint64_t>>();
    }
}
} // namespace
#ifndef DRV_CX
int main() {
    std::unique_ptr<base> cur;
    return drv::loop([&](drv::in &i) {
        if (i.op == "new") {
            cur = make(i.n());
        }
        cur->exec(i);
    });
}
#endif
