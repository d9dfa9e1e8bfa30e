// The unit with main: calls the other units and shows the shared objects.
#include "units.hpp"

#include "drv.hpp"

#include <algorithm>

#include <sys/wait.h>
#include <unistd.h>

// one thread only: the atomic primitives are plain accesses
void conc_stub::before(int) {}
auto conc_stub::shadow(void const *p, std::size_t) -> void * { return const_cast<void *>(p); }

#define UNIT(F) auto F(char const *op, int n) -> int;
UNITS
#undef UNIT

namespace {
template <typename C> auto sorted(C const &c) {
    auto v = std::vector<int>(c.begin(), c.end());
    std::sort(v.begin(), v.end());
    return v;
}

auto show() -> std::string {
    std::vector<int> bits, queue, list, chain, marks;
    stdx::for_each([&](auto i) { bits.push_back(static_cast<int>(i)); }, un::bits);
    for (auto q = un::queue; not q.empty();) {
        queue.push_back(q.pop());
    }
    for (auto &n : un::list) {
        list.push_back(n.id);
    }
    for (auto &n : un::chain) {
        chain.push_back(n.id);
    }
    for (int i = 0; i < 30; ++i) {
        if (un::marks[i]) {
            marks.push_back(i);
        }
    }
    std::vector<std::pair<int, int>> pairs, rel;
    for (auto const &[k, v] : un::pairs) {
        pairs.emplace_back(k, v);
    }
    std::sort(pairs.begin(), pairs.end());
    for (auto const &[k, vs] : un::rel) {
        for (auto v : vs) {
            rel.emplace_back(k, v);
        }
    }
    std::sort(rel.begin(), rel.end());
    auto const opt = un::opt ? std::vector<int>{*un::opt} : std::vector<int>{};
    return "{\"bits\":" + drv::js(bits) + ",\"vec\":" + drv::js(std::vector<int>(un::vec.begin(), un::vec.end())) +
           ",\"queue\":" + drv::js(queue) + ",\"keys\":" + drv::js(sorted(un::keys)) + ",\"pairs\":" + drv::js(pairs) +
           ",\"rel\":" + drv::js(rel) + ",\"opt\":" + drv::js(opt) + ",\"roll\":" + drv::js(int{un::roll.as_underlying()}) +
           ",\"list\":" + drv::js(list) + ",\"chain\":" + drv::js(chain) + ",\"count\":" + drv::js(un::count.load()) +
           ",\"marks\":" + drv::js(marks) + ",\"lazy\":" + drv::js(un::computed) + ",\"renew\":" + drv::js(un::renewed) +
           ",\"three\":" + drv::js(stdx::get<2>(un::three)) + ",\"panics\":" + drv::js(un::panics) + ",\"tags\":" +
           drv::js(std::vector<int>{un::tags<"zero">, un::tags<"one">, un::kinds<stdx::cts_t<"zero">>,
                                    un::kinds<stdx::tuple<stdx::bitset<3>, stdx::cx_vector<int, 2>>>}) +
           "}";
}
} // namespace

auto main() -> int {
    using fn = auto (*)(char const *, int) -> int;
    std::vector<fn> units;
#define UNIT(F) units.push_back(F);
    UNITS
    // every history starts from what the units did before main: it runs in a process of its own
    std::setvbuf(stdin, nullptr, _IONBF, 0);
    auto const next = [](std::string &line) {
        line.clear();
        int c{};
        while ((c = std::getchar()) != EOF and c != '\n') {
            line += static_cast<char>(c);
        }
        return c != EOF;
    };
    constexpr auto another = 100;
    std::string line;
    if (not next(line)) {
        return 0;
    }
    while (true) {
        if (auto const child = fork(); child != 0) {
            int status{};
            waitpid(child, &status, 0);
            if (WIFSIGNALED(status)) {
                return 8;
            }
            if (WEXITSTATUS(status) != another) {
                return WEXITSTATUS(status);
            }
            line = "new";
            continue;
        }
        do {
            drv::in in{line};
            if (in.op == "new" or in.op == "plan") {
                in.answer("[]", "[]");
            } else if (in.op == "start") {
                in.answer("[]", show());
            } else if (in.op == "call") {
                auto const u = in.n();
                auto const op = in.str();
                auto const n = static_cast<int>(in.num());
                auto const r = units.at(u - 1)(op.c_str(), n);
                in.answer(drv::js(r), show());
            } else {
                drv::protocol("unknown operation " + in.op);
            }
            if (not next(line)) {
                return 0;
            }
        } while (line.substr(0, 3) != "new");
        std::_Exit(another);
    }
}
