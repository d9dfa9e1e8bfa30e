// Runs small concurrent programs under every schedule of their atomic primitives.
// Threads are fibers; a thread gives up the processor before every primitive except the
// first of an operation, and after every operation.  Each schedule yields a history of
// call and return events.
#pragma once
#include "drv.hpp"

#include <conc/atomic.hpp>

#include <ucontext.h>

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sched {
struct call {
    std::string op;
    std::vector<long long> a;
};
// executes one operation, returns its result
using exec_t = std::function<std::vector<long long>(call const &)>;

struct object_image {
    char *base{};
    std::size_t size{};
    std::map<void const *, std::vector<char>> cells{};
    std::vector<char> saved{};
    // hides the real value; every later access has to come through shadow()
    void adopt(void *p, std::size_t n) {
        base = static_cast<char *>(p);
        size = n;
        saved.assign(base, base + n);
        cells.clear();
        for (std::size_t i = 0; i < n; ++i) {
            base[i] = static_cast<char>(~base[i]);
        }
    }
};
inline object_image image;

struct fiber {
    ucontext_t ctx{};
    std::vector<char> stack = std::vector<char>(256 * 1024);
    std::vector<call> const *prog{};
    bool done{};
};
struct state {
    ucontext_t main{};
    std::vector<std::unique_ptr<fiber>> f{};
    int cur{-1};
    bool first{};
    exec_t const *exec{};
    std::vector<std::string> *hist{};
    std::vector<std::vector<int>> mos{};
};
inline state st;

inline void yield() { swapcontext(&st.f[static_cast<std::size_t>(st.cur)]->ctx, &st.main); }

inline std::vector<int> *mos_now() { return st.cur < 0 ? nullptr : &st.mos[static_cast<std::size_t>(st.cur)]; }

inline void entry() {
    auto const me = st.cur;
    auto &f = *st.f[static_cast<std::size_t>(me)];
    for (auto const &c : *f.prog) {
        std::string e = "{\"op\":\"call\",\"a\":[" + std::to_string(me + 1) + ",\"" + c.op + "\"," + drv::js(c.a) + "]}";
        st.hist->push_back(e);
        st.first = true;
        st.mos[static_cast<std::size_t>(me)].clear();
        auto const r = (*st.exec)(c);
        auto const &m = st.mos[static_cast<std::size_t>(me)];
        std::set<int> const s(m.begin(), m.end());
        st.hist->push_back("{\"op\":\"ret\",\"a\":[" + std::to_string(me + 1) + "],\"r\":" + drv::js(r) +
                           ",\"mo\":" + drv::js(std::vector<int>(s.begin(), s.end())) + "}");
        if (&c != &f.prog->back()) {
            yield();
        }
    }
    f.done = true;
    yield();
}

// one run: choices[i] selects among the runnable threads at decision i
inline auto run(std::vector<std::vector<call>> const &prog, exec_t const &exec, std::vector<std::size_t> &choices,
                std::vector<std::size_t> &width) -> std::vector<std::string> {
    std::vector<std::string> hist;
    st.f.clear();
    st.exec = &exec;
    st.hist = &hist;
    st.mos.assign(prog.size(), {});
    for (std::size_t i = 0; i < prog.size(); ++i) {
        auto f = std::make_unique<fiber>();
        f->prog = &prog[i];
        f->done = prog[i].empty();
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = f->stack.data();
        f->ctx.uc_stack.ss_size = f->stack.size();
        f->ctx.uc_link = &st.main;
        makecontext(&f->ctx, entry, 0);
        st.f.push_back(std::move(f));
    }
    width.clear();
    for (std::size_t d = 0; d < 200; ++d) {
        std::vector<int> runnable;
        for (std::size_t i = 0; i < prog.size(); ++i) {
            if (not st.f[i]->done) {
                runnable.push_back(static_cast<int>(i));
            }
        }
        if (runnable.empty()) {
            break;
        }
        if (d >= choices.size()) {
            choices.push_back(0);
        }
        width.push_back(runnable.size());
        st.cur = runnable[choices[d]];
        swapcontext(&st.main, &st.f[static_cast<std::size_t>(st.cur)]->ctx);
        st.cur = -1;
    }
    return hist;
}

// every schedule (up to a limit); distinct histories only
inline auto all(std::vector<std::vector<call>> const &prog, std::function<void()> const &reset, exec_t const &exec,
                std::size_t limit, std::size_t &runs) -> std::vector<std::vector<std::string>> {
    std::set<std::vector<std::string>> out;
    std::vector<std::size_t> choices, width;
    for (runs = 0; runs < limit;) {
        reset();
        auto h = run(prog, exec, choices, width);
        ++runs;
        // a last look at the value after everything has finished
        h.push_back("{\"op\":\"call\",\"a\":[1,\"load\",[-1]]}");
        h.push_back("{\"op\":\"ret\",\"a\":[1],\"r\":" + drv::js(exec({"load", {-1}})) + ",\"mo\":[5]}");
        out.insert(std::move(h));
        choices.resize(width.size());
        while (not choices.empty() and choices.back() + 1 >= width[choices.size() - 1]) {
            choices.pop_back();
        }
        if (choices.empty()) {
            break;
        }
        ++choices.back();
    }
    return {out.begin(), out.end()};
}
} // namespace sched

void conc_stub::before(int mo) {
    if (sched::st.cur < 0) {
        return;
    }
    if (not sched::st.first) {
        sched::yield();
    }
    sched::st.first = false;
    sched::mos_now()->push_back(mo);
}
auto conc_stub::shadow(void const *p, std::size_t n) -> void * {
    auto &im = sched::image;
    auto const *c = static_cast<char const *>(p);
    auto it = im.cells.find(p);
    if (it == im.cells.end()) {
        if (c < im.base or c + n > im.base + im.size) {
            std::fprintf(stderr, "terminate called: atomic access outside the object\n");
            std::abort();
        }
        auto const off = static_cast<std::size_t>(c - im.base);
        it = im.cells.emplace(p, std::vector<char>(im.saved.begin() + static_cast<std::ptrdiff_t>(off),
                                                   im.saved.begin() + static_cast<std::ptrdiff_t>(off + n)))
                 .first;
    }
    return it->second.data();
}
