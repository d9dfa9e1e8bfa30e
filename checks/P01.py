"""P01: bit sets against Bitset.tla."""

CFG = {0: [0, 1, 2, 8, 9, 12, 20, 33, 40, 64, 65, 100, 300], 1: [5, 70],
       8: [1, 3, 5, 7, 8, 9, 15, 16, 17, 23, 24, 25, 33, 64, 65, 200],
       16: [1, 4, 5, 15, 16, 17, 31, 32, 33, 48, 50, 64],
       32: [1, 7, 31, 32, 33, 63, 64, 65, 96, 97],
       64: [1, 33, 63, 64, 65, 127, 128, 129, 200, 256]}
GROUPS = [(0,), (1, 8), (16,), (32,), (64,)]


def rnd_op(rng, n):
    r, s, t = (rng.randint(1, 2) for _ in range(3))

    def lm():
        l = rng.randrange(n)
        return l, rng.randrange(l, n)
    ks = [0, 1, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, n - 1, n, n + 1, n + 7, n + 64]
    k = abs(rng.choice(ks)) if rng.random() < .6 else rng.randrange(n + 3)
    ops = [("ctor_u64", [r, sorted(rng.sample(range(64), rng.choice([0, 1, 3, 20, 50, 64])))]),
           ("ctor_all", [r]), ("ctor_none", [r]), ("copy", [r, s]),
           ("set_all", [r]), ("reset_all", [r]), ("clear_all", [r]), ("flip_all", [r]),
           ("or_as", [r, s]), ("and_as", [r, s]), ("xor_as", [r, s]),
           ("or", [r, s, t]), ("and", [r, s, t]), ("xor", [r, s, t]), ("minus", [r, s, t]),
           ("not", [r, s]), ("shl_as", [r, k]), ("shr_as", [r, k]), ("shl", [r, s, k]), ("shr", [r, s, k])]
    ln = rng.choice([0, 1, n, n + 3, max(0, n - 1), rng.randrange(n + 5)])
    chars = [rng.randint(0, 1) for _ in range(ln)]
    pos = rng.randrange(ln + 1) if rng.random() < .5 else 0
    cnt = rng.choice([-1, -1, 0, 1, n, ln, n + 2])
    ops += [("ctor_str", [r, chars, pos, cnt]), ("ctor_strx", [r, chars, pos, cnt]), ("ctor_cts", [r, [rng.randint(0, 1) for _ in range(n)]])]
    if n:
        i = rng.randrange(n)
        l, m = lm()
        v = rng.randint(0, 1)
        ops += [("ctor_places", [r, [rng.randrange(n) for _ in range(rng.randint(0, 3))]]),
                ("set", [r, i, v]), ("set1", [r, i]), ("reset", [r, i]), ("clear", [r, i]), ("flip", [r, i]),
                ("set_range", [r, l, m, v]), ("set_len", [r, l, m - l + 1, v]), ("set_range", [r, l, m, v]),
                ("reset_range", [r, l, m]), ("clear_range", [r, l, m]),
                ("reset_len", [r, l, m - l + 1]), ("clear_len", [r, l, m - l + 1])]
    return rng.choice(ops)


def run(ctx):
    units = []
    for g in GROUPS:
        units.append(dict(src="bitset.cpp", name="bitset_%d" % g[-1],
                          defs=["CONFIGS=" + " ".join("C(%d,%d)" % (n, w) for w in g for n in CFG[w])]))
    exes = ctx.build(units, ["bitset.hpp"])
    by = {w: e for g, e in zip(GROUPS, exes) for w in g}
    jobs = []

    # spec-generated behaviours: steer the code through every transition of the model
    def small():
        g = ctx.graph("MCBitset")
        for n, w in [(1, 8), (2, 0), (3, 8)]:
            sub = g.filter_root(lambda key, n=n, w=w: '"new", [%d, %d]' % (n, w) in key)
            ctx.walk(sub, by[w], 60000, spec="Bitset")

    def nine():
        ctx.walk(ctx.graph("MCBitset", "MCBitset9"), by[8], 400000, spec="Bitset")

    def four():
        ctx.walk(ctx.graph("MCBitset", "MCBitset4"), by[16], 400000, spec="Bitset")
    jobs += [nine, small] + ([] if ctx.quick else [four])

    # recorded behaviours of the real code, validated by TLC
    for grp in GROUPS:
        script = []
        for w in grp:
            for n in CFG[w]:
                ctx.configs.add((n, w))
                for h in range(ctx.pick(2, 12)):
                    script.append(("new", [n, w]))
                    for _ in range(ctx.pick(40 if n < 70 else 25, 90)):
                        script.append(rnd_op(ctx.rng, n))
        jobs.append(lambda script=script, e=by[grp[-1]]: ctx.check_trace("TraceBitset", e, script))
    ctx.parallel(jobs)
    ctx.require_ops(["shl", "shr", "set_range", "ctor_str", "minus", "flip_all", "ctor_places"], 5)
    ctx.assumptions += ["indices, ranges and string positions lie within the bit set / string; ranges are not empty",
                        "built with g++ 13, -std=c++23, address and undefined-behaviour sanitizers"]
