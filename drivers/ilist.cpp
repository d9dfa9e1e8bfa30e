// Drives the intrusive lists: two lists over a set of nodes.
// KIND 0 doubly linked, 1 singly linked, 2 singly linked with nodes that also have prev.
#include "drv.hpp"
#include "panics.hpp"

#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>

#include <memory>

namespace {
struct node1 {
    int id{};
    node1 *next{};
};
struct node2 {
    node2 *prev{};
    int id{};
    node2 *next{};
};
struct base {
    constexpr virtual ~base() = default;
    constexpr virtual void exec(drv::in &i) = 0;
};
constexpr std::size_t cap = 40;

template <typename N, typename L, bool Dbl> struct impl : base {
    constexpr ~impl() override {}
    bool full;
    std::vector<N> nodes;
    drv::two<L> l{};

    constexpr impl(bool f, std::size_t n) : full{f}, nodes(n + 1) {
        for (std::size_t k = 0; k <= n; ++k) {
            nodes[k].id = static_cast<int>(k);
        }
    }
    constexpr static auto id(N const *n) -> long long { return n == nullptr ? 0 : n->id; }
    constexpr auto ptr(long long k) -> N * { return k == 0 ? nullptr : &nodes[static_cast<std::size_t>(k)]; }

    constexpr auto obs() -> std::string {
        std::vector<std::vector<long long>> fwd(2), cfwd(2), back(2), fb(2);
        std::vector<std::vector<long long>> links;
        std::vector<int> em;
        std::vector<bool> member(nodes.size());
        for (int j = 0; j < 2; ++j) {
            L const &c = l[j];
            for (auto it = l[j].begin(); it != l[j].end() and fwd[j].size() < cap; ++it) {
                fwd[j].push_back(it->id);
                member[static_cast<std::size_t>(it->id)] = true;
            }
            for (auto it = c.cbegin(); it != c.cend() and cfwd[j].size() < cap;) {
                auto old = it++;
                cfwd[j].push_back((*old).id);
            }
            if (not(c.begin() == c.cbegin()) or not(c.end() == c.cend())) {
                cfwd[j].push_back(-99);
            }
            em.push_back(c.empty());
            if (not c.empty()) {
                fb[j] = {c.front().id, c.back().id};
                if constexpr (Dbl) {
                    for (N const *p = &c.back(); p != nullptr and back[j].size() < cap; p = p->prev) {
                        back[j].push_back(p->id);
                    }
                }
            }
        }
        for (std::size_t k = 1; k < nodes.size(); ++k) {
            auto const &n = nodes[k];
            std::vector<long long> x{0, 0};
            if (member[k] or full) {
                x[0] = id(n.next);
                if constexpr (requires { n.prev; }) {
                    if (Dbl or full) {
                        x[1] = id(n.prev);
                    }
                }
            }
            links.push_back(x);
        }
        return drv::obj{}("fwd", fwd)("cfwd", cfwd)("empty", em)("fb", fb)("back", back)("links", links).done();
    }
    constexpr void exec(drv::in &i) override {
        auto const &op = i.op;
        std::vector<long long> r;
        auto add = [&](auto f) {
            drv::forget_panics();
            try {
                f();
            } catch (drv::panicked const &) {
            }
            r.push_back(static_cast<long long>(drv::panics()));
            drv::forget_panics();
        };
        if (op == "new") {
        } else if (op == "dirty") {
            auto *n = ptr(i.num());
            n->next = ptr(i.num());
            auto *p = ptr(i.num());
            if constexpr (requires { n->prev; }) {
                n->prev = p;
            }
        } else {
            auto &x = l[i.n() - 1];
            if (op == "pushf") {
                auto *n = ptr(i.num());
                add([&] { x.push_front(n); });
            } else if (op == "pushb") {
                auto *n = ptr(i.num());
                add([&] { x.push_back(n); });
            } else if (op == "popf") {
                r.push_back(id(x.pop_front()));
            } else if (op == "clear") {
                x.clear();
            } else if constexpr (Dbl) {
                if (op == "ins") {
                    auto pos = i.n();
                    auto *n = ptr(i.num());
                    auto it = x.begin();
                    for (std::size_t k = 0; k < pos and it != x.end(); ++k) {
                        ++it;
                    }
                    add([&] { x.insert(it, n); });
                } else if (op == "popb") {
                    r.push_back(id(x.pop_back()));
                } else if (op == "rm") {
                    x.remove(ptr(i.num()));
                } else {
                    drv::protocol(op);
                }
            } else {
                drv::protocol(op);
            }
        }
        if (drv::panics() != 0) {
            r.push_back(-77);
            drv::forget_panics();
        }
        i.answer(drv::js(r), obs());
    }
};
template <template <typename> typename P> constexpr auto make(std::size_t kind, bool full, std::size_t n) -> std::unique_ptr<base> {
    switch (kind) {
    case 0: return std::make_unique<impl<node2, stdx::intrusive_list<node2, P>, true>>(full, n);
    case 1: return std::make_unique<impl<node1, stdx::intrusive_forward_list<node1, P>, false>>(full, n);
    default: return std::make_unique<impl<node2, stdx::intrusive_forward_list<node2, P>, false>>(full, n);
    }
}
} // namespace
#ifndef DRV_CX
int main() {
    static_assert(std::is_same_v<stdx::intrusive_list<node2>, stdx::intrusive_list<node2, stdx::node_policy::checked>>);
    static_assert(std::is_same_v<stdx::intrusive_forward_list<node1>,
                                 stdx::intrusive_forward_list<node1, stdx::node_policy::checked>>);
    std::unique_ptr<base> cur;
    return drv::loop([&](drv::in &i) {
        if (i.op == "new") {
            auto kind = i.n();
            auto pol = i.n();
            auto mode = i.n();
            auto n = i.n();
            cur = pol == 0 ? make<stdx::node_policy::checked>(kind, mode == 1, n)
                           : make<stdx::node_policy::unchecked>(kind, mode == 1, n);
        }
        cur->exec(i);
    });
}
#endif
