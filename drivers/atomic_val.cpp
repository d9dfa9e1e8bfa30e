// Drives stdx::atomic: concurrent programs over one atomic value.
#include "sched.hpp"

#include <stdx/atomic.hpp>

#include <cstring>
#include <new>

namespace {
template <typename T> auto limbs(T const &v) -> std::vector<long long> {
    unsigned char b[sizeof(T)];
    std::memcpy(b, &v, sizeof(T));
    return {b, b + sizeof(T)};
}
template <typename T> auto value(std::vector<long long> const &l, std::size_t from) -> T {
    unsigned char b[sizeof(T)]{};
    for (std::size_t i = 0; i < sizeof(T); ++i) {
        b[i] = static_cast<unsigned char>(l.at(from + i));
    }
    T v;
    std::memcpy(&v, b, sizeof(T));
    return v;
}
enum struct en : std::uint16_t {};
struct pod {
    std::uint8_t a;
    std::uint8_t b;
    std::uint8_t c;
    std::uint8_t d;
};

template <typename T> struct target {
    using A = stdx::atomic<T>;
    alignas(64) inline static unsigned char mem[sizeof(A)];
    inline static A *obj{};

    template <typename F, typename G> static auto mo(long long m, F with, G without) {
        return m < 0 ? without() : with(static_cast<std::memory_order>(m));
    }
    static void make(bool dflt, std::vector<long long> const &init) {
        obj = dflt ? ::new (mem) A{} : ::new (mem) A{value<T>(init, 0)};
        sched::image.adopt(mem, sizeof(A));
    }
    static auto exec(sched::call const &c) -> std::vector<long long> {
        A &x = *obj;
        A const &cx = x;
        auto const &op = c.op;
        auto v = [&](std::size_t k) { return value<T>(c.a, k); };
        auto const m = c.a.empty() ? -1 : c.a[0];
#define FORM(name)                                                                                                     \
    mo(                                                                                                                \
        m, [&](auto o) -> T { return x.name(v(1), o); }, [&]() -> T { return x.name(v(1)); })
        if (op == "load") {
            return limbs<T>(mo(
                m, [&](auto o) -> T { return cx.load(o); }, [&]() -> T { return cx.load(); }));
        }
        if (op == "conv") {
            T t = cx;
            return limbs(t);
        }
        if (op == "store") {
            mo(
                m, [&](auto o) -> int { return x.store(v(1), o), 0; }, [&]() -> int { return x.store(v(1)), 0; });
            return {};
        }
        if (op == "assign") {
            return limbs<T>(x = v(0));
        }
        if (op == "xchg") {
            return limbs<T>(FORM(exchange));
        }
        if constexpr (std::is_integral_v<T>) {
            if (op == "fand") {
                return limbs<T>(FORM(fetch_and));
            }
            if (op == "for") {
                return limbs<T>(FORM(fetch_or));
            }
            if (op == "fxor") {
                return limbs<T>(FORM(fetch_xor));
            }
            if (op == "andeq") {
                return limbs<T>(x &= v(0));
            }
            if (op == "oreq") {
                return limbs<T>(x |= v(0));
            }
            if (op == "xoreq") {
                return limbs<T>(x ^= v(0));
            }
        }
        if constexpr (std::is_integral_v<T> and not std::is_same_v<T, bool>) {
            if (op == "fadd") {
                return limbs<T>(FORM(fetch_add));
            }
            if (op == "fsub") {
                return limbs<T>(FORM(fetch_sub));
            }
            if (op == "addeq") {
                return limbs<T>(x += v(0));
            }
            if (op == "subeq") {
                return limbs<T>(x -= v(0));
            }
            if (op == "preinc") {
                return limbs<T>(++x);
            }
            if (op == "postinc") {
                return limbs<T>(x++);
            }
            if (op == "predec") {
                return limbs<T>(--x);
            }
            if (op == "postdec") {
                return limbs<T>(x--);
            }
        }
        drv::protocol(op);
    }
};
struct entry {
    std::function<void(bool, std::vector<long long> const &)> make;
    sched::exec_t exec;
};
std::map<std::string, entry> reg;
template <typename T> void add(char const *n) { reg[n] = {target<T>::make, target<T>::exec}; }
} // namespace

int main() {
    add<bool>("bool");
    add<char>("char");
    add<std::uint8_t>("u8");
    add<std::int8_t>("i8");
    add<std::uint16_t>("u16");
    add<std::int16_t>("i16");
    add<std::uint32_t>("u32");
    add<std::int32_t>("i32");
    add<std::uint64_t>("u64");
    add<std::int64_t>("i64");
    add<en>("enum");
    add<pod>("pod");
    add<float>("float");
    return drv::loop([&](drv::in &i) {
        auto it = reg.find(i.str());
        if (it == reg.end()) {
            drv::protocol("type");
        }
        auto const dflt = i.b();
        auto const init = i.list();
        auto const limit = i.n();
        std::vector<std::vector<sched::call>> prog(i.n());
        for (auto &t : prog) {
            t.resize(i.n());
            for (auto &c : t) {
                i.num(); // pair length
                c.op = i.str();
                c.a = i.list();
            }
        }
        std::size_t runs{};
        auto hs = sched::all(prog, [&] { it->second.make(dflt, init); }, it->second.exec, limit, runs);
        std::string r = "[";
        for (auto const &h : hs) {
            r += r.size() > 1 ? ",[" : "[";
            for (std::size_t k = 0; k < h.size(); ++k) {
                r += (k ? "," : "") + h[k];
            }
            r += "]";
        }
        drv::answer(r + "]", drv::js(runs));
    });
}
