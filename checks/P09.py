"""P09: bounded vectors against CxVector.tla and Big.tla."""
import big

CAPS = [1, 2, 3, 4, 6, 9]


def histories(rng, kind, per, length, caps=CAPS):
    out = []
    for cap in caps:
        for _ in range(per):
            out.append(("new", [cap, kind]))
            n = [0, 0, 0]
            vals = rng.choice([[1, 2], list(range(1, 60))])
            for _ in range(length):
                x = rng.randint(1, 2)
                y = rng.randint(1, 2)
                w = rng.choice(vals)
                c = [("clear", [x])] if rng.random() < .2 else []
                l = [rng.choice(vals) for _ in range(rng.randint(0, min(cap, 3)))]
                l2 = [rng.choice(vals) for _ in range(rng.randint(0, cap) if cap < 10 else rng.choice([cap, cap - 1, cap - 20]))]
                c += [("overwrite", [x, l2]), ("keep", [x, rng.randint(0, n[x])])] if rng.random() < .4 else []
                if kind != 2:
                    c += [("copy", [x, y])]
                    c += [("ctor", [x, l])] if rng.random() < .5 else []
                if n[x] < cap:
                    c += 2 * [("push", [x, w, 1 if kind == 2 else rng.randint(0, 1)])] + [("pushw", [x, w, rng.choice(vals)])]
                    if n[x] and kind != 2:
                        c += [("selfpush", [x])]
                if n[x]:
                    i = rng.randrange(n[x])
                    c += [("write", [x, i, w]), ("getw", [x, i, w]), ("iterw", [x, i, w]), ("riterw", [x, i, w]),
                          ("frontw", [x, w]), ("backw", [x, w])]
                    if kind != 2:
                        c += 2 * [("pop", [x])]
                if not c:
                    continue
                op, a = rng.choice(c)
                if op == "clear":
                    n[x] = 0
                elif op == "overwrite":
                    n[x] = len(l2)
                elif op == "keep":
                    n[x] = a[1]
                elif op == "copy":
                    n[x] = n[y]
                elif op == "ctor":
                    n[x] = len(l)
                elif op in ("push", "pushw", "selfpush"):
                    n[x] += 1
                elif op == "pop":
                    n[x] -= 1
                out.append((op, a))
    return out


def run(ctx):
    exes = ctx.build([dict(src="cx_vector.cpp", name="v%d" % k, defs=["KIND=%d" % k]) for k in (0, 1, 2)] + [big.build(["vector"], not ctx.quick)],
                     ["cx_vector.hpp"])
    jobs = [lambda: ctx.walk(ctx.graph("MCCxVector"), exes[0], ctx.pick(40000, 10 ** 6), spec="CxVector")]
    for k in (0, 1, 2):
        s = histories(ctx.rng, k, ctx.pick(8, 30), ctx.pick(60, 200))
        jobs.append(lambda k=k, s=s: ctx.check_trace("TraceCxVector", exes[k], s))
        s = histories(ctx.rng, k, 1, 50, [256, 300])
        jobs.append(lambda k=k, s=s: ctx.check_trace("TraceCxVector", exes[k], s))
        ctx.configs.update((c, k) for c in CAPS)
    jobs += big.jobs(ctx, exes[-1], ["vector"], "MCBigVector")
    ctx.parallel(jobs)
    ctx.require_ops(["add", "drop"], 10)
    ctx.require_ops(["ctor", "push", "pushw", "pop", "clear", "write", "getw", "iterw", "riterw", "frontw", "backw",
                     "overwrite", "keep", "copy", "selfpush"], 10)
    ctx.assumptions += ["operations stay within capacity and size (anything else is a precondition violation)"]
