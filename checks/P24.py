"""P24: environments against Env.tla."""
from cases import Histories

VAL = {1: "17", 2: "18", 3: "'x'", 4: '"hello"', 5: "-3", 6: "true", 7: "false", 8: "en::colour::green",
       9: "en::pair_t{4, 'q'}", 10: '"world"', 11: '""'}


def pairs(ps):
    return "".join(", en::key<%d>, %s" % (k, VAL[v]) for k, v in ps)


def coder(slots, keys):
    def code(h):
        cur = ["stdx::env<>"] * slots
        n, out = 0, []
        for op, a in h:
            r = '"[]"'
            if op in ("make", "extend", "append"):
                if op == "make":
                    t = "stdx::make_env_t<%s>" % pairs(a[1])[2:]
                elif op == "extend":
                    t = "stdx::extend_env_t<%s%s>" % (cur[a[1] - 1], pairs(a[2]))
                else:
                    t = "stdx::append_env_t<%s>" % ", ".join(cur[j - 1] for j in a[1])
                out.append("using E%d = %s; static_assert(stdx::envlike<E%d>);" % (n, t, n))
                cur[a[0] - 1] = "E%d" % n
                n += 1
            elif op == "new":
                cur = ["stdx::env<>"] * slots
            elif op == "compose":
                r = "en::all<%d, stdx::env<%s>>()" % (keys, ", ".join(cur[j - 1] for j in a[0]))
            elif op == "query":
                r = "std::to_string(en::%s<%s>(en::key<%d>))" % ("ask_query" if a[2] else "ask", cur[a[0] - 1], a[1])
            elif op == "queryd":
                d = ["77000", "std::as_const(d)", "d"][a[2]]
                out.append("{ [[maybe_unused]] int d = 77000;")
                r = "std::to_string(en::id(stdx::query<%s>(en::key<%d>, %s)))" % (cur[a[0] - 1], a[1], d)
            obs = ' + "," + '.join("en::all<%d, %s>()" % (keys, c) for c in cur)
            out.append('drv::answer(%s, "[" + %s + "]");' % (r, obs))
            if op == "queryd":
                out.append("}")
        return "\n".join(out)
    return code


def hists(rng, n, slots=4, keys=9):
    out = []
    for _ in range(n):
        h = [("new", [])]

        def ps(lo):
            ks = rng.sample(range(1, keys + 1), rng.randint(lo, keys))
            return [[k, rng.choice(list(VAL))] for k in ks]

        def s():
            return rng.randint(1, slots)
        for _ in range(rng.randint(8, 16)):
            c = rng.random()
            if c < 0.2:
                h.append(("make", [s(), ps(1)]))
            elif c < 0.5:
                h.append(("extend", [s(), s(), ps(1)]))
            elif c < 0.75:
                h.append(("append", [s(), [s() for _ in range(rng.choice([1, 2, 3, 4, 5, 9]))]]))
            elif c < 0.82:
                h.append(("compose", [[s() for _ in range(rng.choice([0, 1, 2, 3, 4, 7]))]]))
            elif c < 0.9:
                h.append(("query", [s(), rng.randint(1, keys), rng.randint(0, 1)]))
            else:
                h.append(("queryd", [s(), rng.randint(1, keys), rng.randint(0, 2)]))
        out.append(h)
    return out


def run(ctx):
    pre = '#include "envs.hpp"\n'
    g = ctx.graph("MCEnv")
    Histories(ctx, pre, coder(2, 2), ["env.hpp"]).against_model(g, "MCEnv", ctx.pick(400, 800), 40, group=8)
    Histories(ctx, pre, coder(4, 9), ["env.hpp"]).against_trace("TraceEnv", hists(ctx.rng, ctx.pick(96, 600)), group=8)
    ctx.require_ops(["make", "extend", "append", "compose", "query", "queryd"], 30)
    ctx.assumptions += ["at least one environment is appended", "no query is bound twice in one list of bindings"]
