// Installs a panic handler that logs and then throws (so that control leaves the
// operation that panicked, as a real handler would make it).
#pragma once
#include <stdx/ct_string.hpp>
#include <stdx/panic.hpp>

#include <cstddef>
#include <string>
#include <string_view>
#include <vector>

namespace drv {
struct panicked {};
inline std::vector<std::string> panic_log;
inline bool panic_throws = true;
// the log, which evaluation by the compiler cannot reach (and cannot have added to)
constexpr auto panics() -> std::size_t {
    if consteval {
        return 0;
    } else {
        return panic_log.size();
    }
}
constexpr void forget_panics() {
    if not consteval {
        panic_log.clear();
    }
}
struct logging_handler {
    template <typename... Args> static auto panic(Args &&...) -> void {
        panic_log.emplace_back("(runtime)");
        if (panic_throws) {
            throw panicked{};
        }
    }
    template <stdx::ct_string Why, typename... Args> static auto panic(Args &&...) -> void {
        panic_log.emplace_back(std::string_view{Why});
        if (panic_throws) {
            throw panicked{};
        }
    }
};
} // namespace drv
template <> inline auto stdx::panic_handler<> = drv::logging_handler{};
