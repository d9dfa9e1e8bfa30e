// Library objects shared by the units of one program. All of them are there before any code runs.
#pragma once
#include <stdx/atomic.hpp>
#include <stdx/atomic_bitset.hpp>
#include <stdx/bitset.hpp>
#include <stdx/cached.hpp>
#include <stdx/ct_string.hpp>
#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>
#include <stdx/latched.hpp>
#include <stdx/optional.hpp>
#include <stdx/panic.hpp>
#include <stdx/rollover.hpp>
#include <stdx/tuple.hpp>

#include <cstdint>
#include <string_view>

namespace un {
inline int panics{};
struct handler {
    template <stdx::ct_string, typename... Args>
    static auto panic(Args &&...) -> void {
        ++panics;
    }
};
} // namespace un
template <> inline auto stdx::panic_handler<> = un::handler{};

namespace un {
struct node {
    int id{};
    node *prev{};
    node *next{};
};
struct fnode {
    int id{};
    fnode *next{};
};
inline int computed{};
struct compute {
    auto operator()() const -> int { return 41 + ++computed; }
};
inline int renewed{};
struct renew {
    auto operator()() const -> int { return ++renewed; }
};

inline constinit stdx::bitset<70> bits{stdx::place_bits};
inline constinit stdx::cx_vector<int, 90> vec{};
inline constinit stdx::cx_queue<int, 90> queue{};
inline constinit stdx::cx_set<int, 90> keys{};
inline constinit stdx::cx_map<int, int, 20> pairs{};
inline constinit stdx::cx_multimap<int, int, 20, 20> rel{};
inline constinit stdx::optional<int, stdx::tombstone_value<-1>> opt{};
inline constinit stdx::rollover_t<std::uint8_t> roll{std::uint8_t{}};
inline constinit node nodes[90]{};
inline constinit fnode fnodes[90]{};
inline constinit stdx::intrusive_list<node> list{};
inline constinit stdx::intrusive_forward_list<fnode> chain{};
inline constinit stdx::atomic<int> count{0};
inline constinit stdx::atomic_bitset<30> marks{0u};
inline constinit stdx::latched<compute> lazy{compute{}};
inline constinit stdx::cached<renew> fresh{renew{}};
inline constinit stdx::tuple<int, char, int> three{0, 'x', 0};
template <stdx::ct_string S> inline int tags{};
template <typename T> inline int kinds{};

// compiled in every unit with the unit's own flags
[[maybe_unused]] static auto act(std::string_view op, int n) -> int {
    using namespace stdx::literals;
    if (op == "bit") {
        bits.set(static_cast<std::size_t>(n));
        return static_cast<int>(bits.count());
    }
    if (op == "push") {
        vec.push_back(n);
        return vec.back();
    }
    if (op == "enq") {
        queue.push(n);
        return queue.back();
    }
    if (op == "deq") {
        return queue.pop();
    }
    if (op == "key") {
        return keys.insert(n) ? 1 : 0;
    }
    if (op == "pair") {
        return pairs.insert_or_assign(n % 10, n) ? 1 : 0;
    }
    if (op == "relate") {
        rel.insert(n % 5, n);
        return rel.contains(n % 5, n) ? 1 : 0;
    }
    if (op == "opt") {
        auto const had = opt.has_value();
        opt = n;
        return had ? 1 : 0;
    }
    if (op == "roll") {
        roll += stdx::rollover_t<std::uint8_t>{static_cast<std::uint8_t>(n)};
        return roll.as_underlying();
    }
    if (op == "link") {
        nodes[n].id = n;
        list.push_back(&nodes[n]);
        return list.back().id;
    }
    if (op == "unlink") {
        auto *p = list.pop_front();
        return p->id;
    }
    if (op == "chain") {
        fnodes[n].id = n;
        chain.push_front(&fnodes[n]);
        return chain.front().id;
    }
    if (op == "fetch") {
        return count.fetch_add(n);
    }
    if (op == "mark") {
        return static_cast<int>(marks.set(n).count());
    }
    if (op == "lazy") {
        return *lazy;
    }
    if (op == "renew") {
        fresh.refresh();
        return *fresh;
    }
    if (op == "three") {
        stdx::get<2>(three) += n;
        return stdx::get<2>(three);
    }
    if (op == "tag") {
        // the same name, written in different ways
        switch (n) {
        case 0:
            return ++tags<"zero">;
        case 1:
            return ++tags<stdx::ct_string{"one"}>;
        case 2:
            return ++tags<"one"_cts>;
        case 3:
            return ++tags<stdx::ct_string{"ze"} + stdx::ct_string{"ro"}>;
        case 4:
            return ++kinds<stdx::cts_t<"zero">>;
        default:
            return ++kinds<stdx::tuple<stdx::bitset<3>, stdx::cx_vector<int, 2>>>;
        }
    }
    if (op == "panic") {
        if (n % 2 == 0) {
            stdx::panic<"in a unit">(n);
        } else {
            STDX_PANIC("in a unit");
        }
        return panics;
    }
    return -1;
}
} // namespace un
