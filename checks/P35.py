"""P35: elements and functions that throw, against Throws.tla."""
from vf import MachineryError

CAPS = [1, 2, 3, 6]
ALGS = ["for_each", "for_each_n", "butlast", "transform", "transform_n", "reduce", "imf", "tfor_each", "ttransform", "tenumerate", "tfold_left",
        "tfold_right", "tall", "tany", "tnone", "tjoin", "apply", "latched", "optional", "or_else", "bind", "lazy", "bits", "bits_reduce", "args",
        "types", "needs", "make"]


def gen(rng, per, length, thrown):
    for kind in range(8):
        for cap in CAPS if 0 < kind < 7 else [1]:
            for _ in range(per):
                ans = yield ("new", [kind, cap])
                for _ in range(length):
                    if ans is None:
                        return
                    o = ans["o"]
                    thrown[0] += ans["r"][0]
                    what = rng.choice([0, 1, 1, 2])
                    t = [what, rng.randint(1, rng.choice([2, 4, 12])) if what else 0]
                    careful = t if what != 1 else [2, t[1]]
                    k, v = rng.randint(1, 7), rng.randint(1, 7)
                    keys = {p[0] for p in o} if 4 <= kind <= 6 else set(o)
                    c = [("copy", [rng.randint(0, 1)] + t)]
                    if rng.random() < .1:
                        c += [("clear", [])]
                    if kind == 0:
                        c = [("tell", [rng.choice(ALGS), rng.choice([0, 1, 2, 3, 4, 9]), rng.randint(0, 10)])]
                    if kind == 7 or kind in (1, 2) and len(o) < cap or kind == 3 and (len(o) < cap or v in keys):
                        c += 4 * [("add", [v, rng.randint(0, 1)] + t)]
                    if 4 <= kind <= 6 and (len(keys) < cap or k in keys) and (kind < 6 or len({p[1] for p in o if p[0] == k} | {v}) <= cap):
                        c += 4 * [("put", [k, v] + (careful if kind == 6 and k not in keys else t))]
                    if 1 <= kind <= 5 and o:
                        c += 2 * [("take", t)]
                    if kind == 1:
                        c += [("resize", [rng.randint(0, len(o))] + t)]
                    if 3 <= kind <= 6:
                        k = rng.choice(sorted(keys)) if keys and rng.random() < .6 else k
                        c += 2 * [("drop", [k] + careful), ("find", [k] + t)]
                    if kind == 6:
                        k, v = rng.choice(o) if o and rng.random() < .6 else (k, v)
                        c += 2 * [("cut", [k, v] + careful)]
                    if kind == 7:
                        c += 2 * [("assign", [v] + t)]
                    ans = yield rng.choice(c)


def run(ctx):
    exe, = ctx.build([dict(src="throws.cpp")], ["cx_map.hpp", "optional.hpp", "tuple.hpp"])
    thrown = [0]
    s = ctx.steer(exe, gen(ctx.rng, ctx.pick(6, 40), ctx.pick(60, 200), thrown))
    ctx.parallel([lambda: ctx.walk(ctx.graph("MCThrows"), exe, ctx.pick(60000, 10 ** 6), spec="Throws"),
                  lambda: ctx.check_trace("TraceThrows", exe, s)])
    ctx.configs.update((k, c) for k in range(8) for c in (CAPS if 0 < k < 7 else [1]))
    ctx.require_ops(["add", "put", "take", "drop", "cut", "assign", "copy", "find", "resize", "clear", "tell"], 20)
    if thrown[0] < 100:
        raise MachineryError("only %d operations threw" % thrown[0])
    ctx.log("%d of %d operations threw" % (thrown[0], len(s)))
    ctx.assumptions += ["an element operation that throws changes nothing itself", "making the sentinel of an optional and default construction do not throw",
                        "erasing is asked only with comparisons that throw: how a gap is filled is left open, and so is whether a multimap adds a new key before its value"]
