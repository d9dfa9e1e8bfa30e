"""P11: bounded maps against CxMap.tla and Big.tla."""
import big

CAPS = [1, 2, 3, 4, 6, 9]


def gen(rng, kind, per, length, caps=CAPS):
    for cap in caps:
        for _ in range(per if cap < 10 else 1):
            ans = yield ("new", [cap, kind])
            keys = list(range(rng.choice([3, 6, 12, 12]) if cap < 10 else cap + 10))
            if cap > 9:
                for k in rng.sample(keys, cap):
                    ans = yield ("insert", [k, rng.randint(0, 99)])
            for _ in range(length):
                m = [p[0] for p in ans["o"]["pairs"]]
                k, v = rng.choice(keys), rng.randint(0, 99)
                c = [("erase", [k]), ("copy", []), ("addall", [rng.randint(1, 50)])]
                if len(m) < cap or k in m:
                    c += 3 * [("insert", [k, v]), ("put", [k, v])]
                    if m:
                        c += [("insfrom", [k, rng.choice(m)])]
                if m:
                    c += [("eraseown", []), ("pop", []), ("erase", [rng.choice(m)]), ("getw", [rng.choice(m), v])]
                if rng.random() < (.3 if cap < 10 else .02):
                    c += [("clear", []),
                          ("ctor", [[[rng.choice(keys), rng.randint(0, 99)] for _ in range(rng.randint(0, min(cap, 5)))]])]
                ans = yield rng.choice(c)


def run(ctx):
    kinds = (0, 1, 2, 3)
    exes = ctx.build([dict(src="cx_map.cpp", name="m%d" % k, defs=["KIND=%d" % k]) for k in kinds] + [big.build(["map"], not ctx.quick)], ["cx_map.hpp"])
    jobs = [lambda: ctx.walk(ctx.graph("MCCxMap"), exes[0], ctx.pick(20000, 10 ** 6), spec="CxMap")]
    for k in kinds:
        s = ctx.steer(exes[k], gen(ctx.rng, k, ctx.pick(6, 25), ctx.pick(70, 250), CAPS + [256, 270]))
        jobs.append(lambda k=k, s=s: ctx.check_trace("TraceCxMap", exes[k], s))
        ctx.configs.update((c, k) for c in CAPS)
    jobs += big.jobs(ctx, exes[-1], ["map"], "MCBigMap")
    ctx.parallel(jobs)
    ctx.require_ops(["add", "drop"], 10)
    ctx.require_ops(["ctor", "insert", "put", "insfrom", "getw", "addall", "erase", "eraseown", "pop", "clear", "copy"], 10)
    ctx.assumptions += ["operations stay within capacity and get() is only asked for live keys (anything else is a precondition violation)"]
