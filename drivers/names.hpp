// Types and enumerators to be named.
#pragma once
#include <stdx/ct_conversions.hpp>
#include <stdx/ct_format.hpp>
#include <stdx/type_traits.hpp>

#include <string>
#include <string_view>

namespace mk {
template <typename T> auto make() {
    struct local {};
    enum struct e { x, y };
    struct types {
        using local_t = local;
        using e_t = e;
    };
    return types{};
}
} // namespace mk
namespace nm {
struct pt {};
enum struct en { one, two };
enum un { ua, ub };
template <typename...> struct box {};
template <typename...> struct bag {};
template <auto> struct val {};
template <auto...> struct vals {};
template <typename, auto> struct both {};
namespace deep {
struct pt {};
template <typename...> struct box {};
} // namespace deep
template <typename T> struct outer {
    struct in {};
    enum struct e { x, y };
};
// a space before a closing bracket is left to the compiler
inline auto text(std::string_view v) -> std::string {
    std::string r = "\"";
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (v[i] == ' ' and i + 1 < v.size() and v[i + 1] == '>') {
            continue;
        }
        if (v[i] == '"' or v[i] == '\\') {
            r += '\\';
        }
        r += v[i];
    }
    return r + "\"";
}
} // namespace nm
