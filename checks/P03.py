"""P03: atomic bit sets under every schedule, against AtomicBits.tla through Linear.tla."""
import os
import conc
import vf

SIZES = {"d%d" % n: n for n in (1, 2, 3, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64)}
SIZES.update(w3=3, w8=8, e5=5, e16=16)
LOAD, STORE, RMW = [-1, 0, 1, 2, 5], [-1, 0, 3, 5], [-1, 0, 2, 3, 4, 5]
READ = ["load", "conv", "to", "nat", "idx", "all", "any", "none", "count"]
WRITE = ["store", "seta", "reseta", "set", "set1", "setr", "setl", "reset", "resetr", "resetl", "flip", "flipr",
         "flipl", "flipa"]


def call(rng, n, op):
    i = rng.choice([0, n - 1, rng.randrange(n)])
    j = rng.choice([n - 1, rng.randrange(n)])
    lo, hi = min(i, j), max(i, j)
    v = rng.randint(0, 1)
    if op in ("conv",):
        return (op, [])
    if op in ("idx", "set1"):
        return (op, [i])
    if op in READ:
        return (op, [rng.choice(LOAD)])
    if op == "store":
        return (op, [rng.choice(STORE)] + some(rng, n))
    if op in ("seta", "reseta"):
        return (op, [rng.choice(STORE)])
    mo = rng.choice(RMW)
    if op == "set":
        return (op, [mo, i, v])
    if op == "setr":
        return (op, [mo, lo, hi, v])
    if op == "setl":
        return (op, [mo, lo, hi - lo + 1, v])
    if op in ("reset", "flip"):
        return (op, [mo, i])
    if op in ("resetr", "flipr"):
        return (op, [mo, lo, hi])
    if op in ("resetl", "flipl"):
        return (op, [mo, lo, hi - lo + 1])
    return (op, [mo])


def some(rng, n):
    k = rng.randrange(4)
    return list(range(n)) if k == 0 else [b for b in range(n) if rng.random() < .5]


def programs(rng, seq, pairs, triples, twos):
    out = []

    def add(t, th):
        n = SIZES[t]
        kind = rng.choice(["none", "all", "value", "value", "places", "str", "ctstr", "part"])
        if kind == "value":
            l = [b for b in range(64) if rng.random() < .5]
        elif kind == "places":
            l = [rng.randrange(n) for _ in range(rng.randint(0, 3))]
        elif kind == "str":
            l = [rng.randint(0, 1) for _ in range(rng.choice([0, 1, n, n + 3, rng.randint(0, n)]))]
        elif kind == "part":
            l = [rng.randint(0, 1) for _ in range(rng.choice([1, n, n + 3, rng.randint(0, n)]))]
            l = [rng.randint(0, len(l)), rng.choice([0, 1, n, n + 3, rng.randint(0, n)])] + l
        elif kind == "ctstr":
            l = [rng.randint(0, 1) for _ in range(n)]
        else:
            l = []
        out.append(([t, kind, l], [n, kind, l], th))
    every = READ + WRITE
    for t, n in SIZES.items():
        for op in every:
            for _ in range(seq):
                add(t, [[call(rng, n, op)] + [call(rng, n, rng.choice(every)) for _ in range(2)]])
        for _ in range(pairs):
            add(t, [[call(rng, n, rng.choice(every))], [call(rng, n, rng.choice(WRITE))]])
        for _ in range(triples):
            add(t, [[call(rng, n, rng.choice(every))] for _ in range(3)])
        for _ in range(twos):
            add(t, [[call(rng, n, rng.choice(every)) for _ in range(2)] for _ in range(2)])
    for t in ("d3", "d8", "w3", "e5"):       # every pair of operations
        for o1 in every:
            for o2 in WRITE:
                add(t, [[call(rng, SIZES[t], o1)], [call(rng, SIZES[t], o2)]])
    rng.shuffle(out)
    return out


def run(ctx):
    ctx.model("MCLinear")
    flags = ["-O0", "-g0", "-fsanitize=undefined", "-fno-sanitize-recover=all"]
    inc = [os.path.join(vf.DRIVERS, "conc_stub")]
    exes = ctx.build([dict(src="atomic_bits.cpp", name="plain", flags=flags, includes=inc),
                      dict(src="atomic_bits.cpp", name="wide", flags=flags, includes=inc, defs=["CONC_OVERRIDE"])],
                     ["atomic_bitset.hpp"])
    for exe in exes:
        p = programs(ctx.rng, ctx.pick(4, 20), ctx.pick(40, 300), ctx.pick(15, 120), ctx.pick(15, 120))
        conc.check(ctx, "TraceAtomicBits", exe, p, chunk=ctx.pick(1000, 4000))
        ctx.configs.update((t, exe) for t in SIZES)
    ctx.require_ops(READ + WRITE, 20)
    ctx.assumptions += ["the atomic backend is a stand-in whose primitives are indivisible; it is the library's only way to the bits",
                        "two threads of one or two calls and three threads of one call, every schedule of their primitives"]
