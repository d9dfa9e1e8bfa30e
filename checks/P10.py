"""P10: bounded sets against CxSet.tla and Big.tla."""
import big

CAPS = [1, 2, 3, 4, 6, 9]


def gen(rng, kind, per, length, caps=CAPS):
    for cap in caps:
        for _ in range(per if cap < 10 else 1):
            ans = yield ("new", [cap, kind])
            keys = list(range(rng.choice([3, 6, 10, 10]) if cap < 10 else cap + 10))
            if cap > 9:
                for n in (0, 150):
                    ans = yield ("merge", [rng.sample(keys[n:n + 150], 140 if n == 0 else cap - 160), rng.randint(0, 2)])
                for k in rng.sample(keys, len(keys)):
                    if len(ans["o"]["members"]) < cap:
                        ans = yield ("insert", [k, rng.randint(0, 1)])
            for _ in range(length):
                m = ans["o"]["members"]
                k = rng.choice(keys)
                c = [("erase", [k]), ("mergeself", []), ("copy", [])]
                if len(m) < cap or k in m:
                    c += 5 * [("insert", [k, rng.randint(0, 1)])]
                if m:
                    c += [("reinsert", []), ("eraseown", []), ("pop", []), ("erase", [rng.choice(m)])]
                if rng.random() < (.3 if cap < 10 else .02):
                    c += [("clear", []), ("ctor", [[rng.choice(keys) for _ in range(rng.randint(0, min(cap, 5)))]])]
                l = [rng.choice(keys) for _ in range(rng.randint(0, 5))]
                while len(set(m) | set(l)) > cap:
                    l.pop()
                c += [("merge", [l, rng.randint(0, 2)])]
                ans = yield rng.choice(c)


def run(ctx):
    exes = ctx.build([dict(src="cx_set.cpp", name="s%d" % k, defs=["KIND=%d" % k]) for k in (0, 1)] + [big.build(["set"], not ctx.quick)], ["cx_set.hpp"])
    jobs = [lambda: ctx.walk(ctx.graph("MCCxSet"), exes[0], ctx.pick(20000, 10 ** 6), spec="CxSet")]
    for k in (0, 1):
        s = ctx.steer(exes[k], gen(ctx.rng, k, ctx.pick(10, 40), ctx.pick(80, 250), CAPS + [256, 300]))
        jobs.append(lambda k=k, s=s: ctx.check_trace("TraceCxSet", exes[k], s))
        ctx.configs.update((c, k) for c in CAPS)
    jobs += big.jobs(ctx, exes[-1], ["set"], "MCBigSet")
    ctx.parallel(jobs)
    ctx.require_ops(["add", "drop"], 10)
    ctx.require_ops(["ctor", "insert", "erase", "reinsert", "eraseown", "merge", "mergeself", "pop", "clear", "copy"], 10)
    ctx.assumptions += ["operations stay within capacity (anything else is a precondition violation)"]
