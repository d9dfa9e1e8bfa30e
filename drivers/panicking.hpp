// Handlers that record every call they get, for no tag, one tag and two tags.
#pragma once
#include "calls.hpp"
#include <stdx/ct_string.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>
#include <stdx/panic.hpp>

namespace pn {
struct T1;
struct T2;
struct thrown {};
inline std::vector<std::string> calls{};
inline bool throws = false;
inline auto quoted(std::string_view s) -> std::string {
    std::string r{'"'};
    for (auto c : s) {
        if (c == '"' or c == '\\') {
            r += '\\';
        }
        r += c;
    }
    return r + '"';
}
inline void record(int h, int ct, std::string_view msg,
                   std::vector<std::string> const &args) {
    calls.push_back("{\"h\":" + std::to_string(h) + ",\"ct\":" +
                    std::to_string(ct) + ",\"msg\":" + quoted(msg) +
                    ",\"args\":" + tv::join(args) + "}");
    if (throws) {
        throw thrown{};
    }
}
template <int H> struct handler {
    template <typename... Args> static auto panic(Args &&...args) -> void {
        record(H, 0, "", {ca::seen(std::forward<Args>(args))...});
    }
    template <stdx::ct_string Why, typename... Args>
    static auto panic(Args &&...args) -> void {
        record(H, 1, std::string_view{Why},
               {ca::seen(std::forward<Args>(args))...});
    }
};
struct dnode {
    int id;
    dnode *prev{};
    dnode *next{};
};
struct snode {
    int id;
    snode *next{};
};
inline int made = 0;
template <std::size_t Cap> struct state {
    stdx::cx_queue<int, Cap> q{};
    stdx::intrusive_list<dnode> l{};
    stdx::intrusive_forward_list<snode> f{};
    std::array<dnode, 3> d{{{1}, {2}, {3}}};
    std::array<snode, 3> s{{{1}, {2}, {3}}};
    auto at(int p) {
        auto i = l.begin();
        for (; p > 0; --p) {
            ++i;
        }
        return i;
    }
};
template <typename L> auto ids(L const &l) -> std::string {
    std::vector<std::string> v;
    for (auto const &n : l) {
        v.push_back(std::to_string(n.id));
        if (v.size() > 10) {
            drv::fail("endless list");
        }
    }
    return tv::join(v);
}
template <typename F> void step(auto &st, F f, auto left) {
    calls.clear();
    std::string got = "[]";
    int threw = 0;
    try {
        if constexpr (std::is_void_v<decltype(f())>) {
            f();
            got = left();
        } else {
            got = "[" + std::to_string(f()) + "]";
        }
    } catch (thrown const &) {
        threw = 1;
        got = left();
    }
    drv::answer("{\"calls\":" + tv::join(calls) + ",\"threw\":" +
                    std::to_string(threw) + ",\"left\":" + got + "}",
                "{\"q\":" + std::to_string(st.q.size()) + ",\"l\":" + ids(st.l) +
                    ",\"f\":" + ids(st.f) + "}");
}
} // namespace pn
#ifndef NO_HANDLER
template <> inline auto stdx::panic_handler<> = pn::handler<0>{};
template <> inline auto stdx::panic_handler<pn::T1> = pn::handler<1>{};
template <> inline auto stdx::panic_handler<pn::T1, pn::T2> = pn::handler<3>{};
#endif
