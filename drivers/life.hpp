// Objects that record what happens to them: every construction, copy, move, assignment, read and
// destruction, with the objects numbered by where they are. Only drivers built with DRV_LIFE record.
#pragma once
#include <map>
#include <string>
#include <vector>

namespace life {
#ifdef DRV_LIFE
inline std::map<void const *, int> places;
inline std::vector<std::string> done;    // by the operation
inline std::vector<std::string> seen;    // while looking at the result
inline bool looking = false;
inline auto at(void const *p) -> std::string {
    auto const n = static_cast<int>(places.size()) + 1;
    return std::to_string(places.try_emplace(p, n).first->second);
}
inline void note(char what, void const *p, std::string const &x = "0") {
    (looking ? seen : done).push_back(std::string{"[\""} + what + "\"," + at(p) + "," + x + "]");
}
inline auto list(std::vector<std::string> &v) -> std::string {
    std::string r = "[";
    for (auto const &x : v) {
        r += (r.size() == 1 ? "" : ",") + x;
    }
    v.clear();
    return r + "]";
}
inline auto taken() -> std::string {
    looking = false;
    auto a = list(done);
    return "[" + a + "," + list(seen) + "]";
}
#endif
// what follows only looks
constexpr void look() {
#ifdef DRV_LIFE
    looking = true;
#endif
}
constexpr void made([[maybe_unused]] void const *p, [[maybe_unused]] long v) {
#ifdef DRV_LIFE
    note('n', p, std::to_string(v));
#endif
}
constexpr void took([[maybe_unused]] char how, [[maybe_unused]] void const *p, [[maybe_unused]] void const *from) {
#ifdef DRV_LIFE
    note(how, p, at(from));
#endif
}
constexpr void read([[maybe_unused]] void const *p, [[maybe_unused]] long v) {
#ifdef DRV_LIFE
    note('r', p, std::to_string(v));
#endif
}
constexpr void wrote([[maybe_unused]] void const *p, [[maybe_unused]] long v) {
#ifdef DRV_LIFE
    note('w', p, std::to_string(v));
#endif
}
constexpr void gone([[maybe_unused]] void const *p) {
#ifdef DRV_LIFE
    note('d', p);
#endif
}
template <bool Copy> class obj {
    long v;

  public:
    obj() : v{0} { made(this, 0); }
    explicit(false) obj(long x) : v{x} { made(this, x); }
    explicit(false) obj(int x) : obj{long{x}} {}
    explicit(false) obj(long long x) : obj{static_cast<long>(x)} {}
    obj(obj const &o)
        requires Copy
        : v{o.v} {
        took('c', this, &o);
    }
    obj(obj &&o) noexcept : v{o.v} {
        took('m', this, &o);
        o.v = -5;
    }
    auto operator=(obj const &o) -> obj &
        requires Copy
    {
        took('C', this, &o);
        v = o.v;
        return *this;
    }
    auto operator=(obj &&o) noexcept -> obj & {
        took('M', this, &o);
        v = o.v;
        if (this != &o) {
            o.v = -5;
        }
        return *this;
    }
    auto operator=(int x) -> obj & {
        wrote(this, x);
        v = x;
        return *this;
    }
    ~obj() {
        gone(this);
        v = -6;
    }
    auto get() const -> int {
        read(this, v);
        return static_cast<int>(v);
    }
    friend auto operator==(obj const &a, obj const &b) -> bool { return a.get() == b.get(); }
    friend auto operator<(obj const &a, obj const &b) -> bool { return a.get() < b.get(); }
};
} // namespace life
