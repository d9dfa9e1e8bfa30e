"""P29: object lifetimes against Life.tla."""
import os

from cases import Cases
from cxeval import generator


class Lives(Cases):
    """Cases of a component, each recorded as one call that begins and ends with no object alive."""

    def _source(self, part):
        head, main = super()._source(part).split("int main() {\n")
        return head + "int main() {\n" + main.replace("();\n", "();\ndrv::flush();\n")


def ended(script):
    out = []
    for o, a in script:
        if o == "new" and out:
            out.append(("end", []))
        out.append((o, a))
    return out + [("end", [])]


def run(ctx):
    m = {p: generator(p) for p in ("P08", "P09", "P10", "P11", "P12", "P13", "P14")}
    spec = [("cx_queue.cpp", "queue", 1), ("cx_queue.cpp", "queue", 2), ("cx_vector.cpp", "vector", 1), ("cx_vector.cpp", "vector", 2),
            ("cx_set.cpp", "set", 1), ("cx_map.cpp", "map", 3), ("cx_multimap.cpp", "multimap", 1),
            ("optional.cpp", "optional", 0), ("lazy.cpp", "lazy", 0)]
    heads = ["cx_queue.hpp", "cx_vector.hpp", "cx_set.hpp", "cx_map.hpp", "cx_multimap.hpp", "optional.hpp", "cached.hpp",
             "latched.hpp"]
    exes = ctx.build([dict(src=s, name="%s%d" % (c, k), defs=["KIND=%d" % k, "DRV_LIFE"]) for s, c, k in spec], heads)
    rng = ctx.rng
    f = ctx.pick(1, 5)
    scripts = [m["P08"].histories(rng, 1, f, 40), m["P08"].histories(rng, 2, f, 40),
               m["P09"].histories(rng, 1, 2 * f, 40), m["P09"].histories(rng, 2, 2 * f, 40),
               ctx.steer(exes[4], m["P10"].gen(rng, 1, 2 * f, 30)),
               ctx.steer(exes[5], m["P11"].gen(rng, 3, 2 * f, 25)),
               ctx.steer(exes[6], m["P12"].gen(rng, 1, f, 25)),
               m["P13"].histories(rng, [0, 6], 8 * f, 60), m["P14"].histories(rng, [1, 2], 8 * f, 50)]
    jobs = [lambda: ctx.model("MCLife")]
    for (_, c, k), exe, s in zip(spec, exes, scripts):
        jobs.append(lambda c=c, exe=exe, s=s: ctx.check_trace("TraceLife", exe, ended(s), env={"COMP": c}))
        ctx.configs.add((c, k))
    ctx.parallel(jobs)
    # one call (or one history of calls) per case
    os.environ["COMP"] = "call"
    for p, n, g in (("P21", 160, 27), ("P22", 160, 27), ("P23", 128, 32), ("P26", 96, 12)):
        o = generator(p)
        n = ctx.pick(n, 5 * n)
        if p == "P26":
            cases, code = [("calls", h) for h in o.hists(rng, n)], lambda op, h, o=o: o.code(h)
        else:
            cases, code = o.cases(rng, n), o.code
        k = Lives(ctx, getattr(o, "PRELUDE", '#include "calls.hpp"\n'), code, [], defs=["DRV_LIFE"])
        k.against_trace("TraceLife", cases, label=p, group=g)
        ctx.configs.add(p)
    ctx.require_ops(["push", "pop", "end", "insert", "erase", "move", "copy", "emplace", "refresh"], 10)
