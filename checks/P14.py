"""P14: latched and cached values against Lazy.tla."""


def histories(rng, kinds, per, length):
    out = []
    for k in kinds:
        for _ in range(per):
            f = rng.choice([[0, 0], [1, 1], [1, 0], [0, 1], [1, 1]])
            out.append(("new", [k] + f))
            for _ in range(length):
                j = rng.randint(1, 2)
                c = 6 * [("access", [j, rng.randint(0, 5)])] + 2 * [("query", [j])]
                c += [("arm", []), ("make", [j, rng.randint(0, 1)])]
                if f[j - 1] == 1:
                    c += 3 * [("reset", [j])] + 3 * [("refresh", [j, rng.choice([-1, -1, rng.randint(1, 9)]) if k != 4 else -1])]
                if f[0] == f[1]:
                    c += 2 * [("move", [j, rng.randint(0, 1)])]
                    if k != 2:
                        c += 2 * [("copy", [j, rng.randint(0, 1)])]
                out.append(rng.choice(c))
    return out


def run(ctx):
    exe, = ctx.build([dict(src="lazy.cpp")], ["cached.hpp", "latched.hpp"])
    jobs = [lambda: ctx.walk(ctx.graph("MCLazy"), exe, ctx.pick(40000, 200000), spec="Lazy")]
    for ks in ([0, 1, 2], [3, 4, 5, 6]):
        s = histories(ctx.rng, ks, ctx.pick(10, 40), ctx.pick(60, 300))
        jobs.append(lambda s=s: ctx.check_trace("TraceLazy", exe, s))
    ctx.configs.update((k, f) for k in range(7) for f in range(2))
    ctx.parallel(jobs)
    ctx.require_ops(["arm", "make", "access", "query", "reset", "refresh", "copy", "move"], 10)
    ctx.assumptions += ["a moved-from lazy value is replaced before it is used again",
                        "whether the old value survives a refresh whose computation throws is left open"]
