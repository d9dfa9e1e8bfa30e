"""P04: atomic values under every schedule, against AtomicVal.tla through Linear.tla."""
import os
import conc
import vf

W = dict(bool=1, char=1, u8=1, i8=1, u16=2, i16=2, u32=4, i32=4, u64=8, i64=8, enum=2, pod=4, float=4)
ARITH = ["char", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"]
LOAD, STORE, RMW = [-1, 0, 1, 2, 5], [-1, 0, 3, 5], [-1, 0, 2, 3, 4, 5]
BASIC = ["load", "conv", "store", "assign", "xchg"]
LOGIC = ["fand", "for", "fxor", "andeq", "oreq", "xoreq"]
NUM = ["fadd", "fsub", "addeq", "subeq", "preinc", "postinc", "predec", "postdec"]


def ops_of(t):
    return BASIC + (LOGIC if t in ARITH + ["bool"] else []) + (NUM if t in ARITH else [])


def val(rng, t):
    w = W[t]
    if t == "bool":
        return [rng.randint(0, 1)]
    if t == "float":
        return rng.choice([[0, 0, 128, 63], [0, 0, 0, 0], [1, 2, 3, 64], [0, 0, 128, 191]])
    k = rng.randrange(8)
    if k == 0:
        return [0] * w
    if k == 1:
        return [255] * w
    if k == 2:
        return [0] * (w - 1) + [128]
    if k == 3:
        return [255] * (w - 1) + [127]
    if k == 4:
        return [rng.choice([1, 2, 255])] + [0] * (w - 1)
    return [rng.randint(0, 255) for _ in range(w)]


def call(rng, t, op):
    if op == "load":
        return (op, [rng.choice(LOAD)])
    if op == "store":
        return (op, [rng.choice(STORE)] + val(rng, t))
    if op in ("xchg", "fadd", "fsub", "fand", "for", "fxor"):
        return (op, [rng.choice(RMW)] + val(rng, t))
    if op in ("assign", "addeq", "subeq", "andeq", "oreq", "xoreq"):
        return (op, val(rng, t))
    return (op, [])


def programs(rng, types, seq, pairs, triples, twos):
    out = []

    def add(t, th):
        dflt = rng.random() < .1
        init = [0] * W[t] if dflt else val(rng, t)
        out.append(([t, dflt, init], [W[t], init], th))
    for t in types:
        ops = ops_of(t)
        for op in ops:                       # one thread: values
            for _ in range(seq):
                add(t, [[call(rng, t, op)] + [call(rng, t, rng.choice(ops)) for _ in range(2)]])
        for _ in range(pairs):
            add(t, [[call(rng, t, rng.choice(ops))] for _ in range(2)])
        for _ in range(triples):
            add(t, [[call(rng, t, rng.choice(ops))] for _ in range(3)])
        for _ in range(twos):
            add(t, [[call(rng, t, rng.choice(ops)) for _ in range(2)] for _ in range(2)])
    for t in ("u32", "u8", "i16"):           # every pair of operations
        for o1 in ops_of(t):
            for o2 in ops_of(t):
                add(t, [[call(rng, t, o1)], [call(rng, t, o2)]])
    rng.shuffle(out)
    return out


def run(ctx):
    ctx.model("MCLinear")
    flags = ["-O0", "-g0", "-fsanitize=undefined", "-fno-sanitize-recover=all"]
    inc = [os.path.join(vf.DRIVERS, "conc_stub")]
    exes = ctx.build([dict(src="atomic_val.cpp", name="plain", flags=flags, includes=inc),
                      dict(src="atomic_val.cpp", name="wide", flags=flags, includes=inc, defs=["CONC_OVERRIDE"])],
                     ["atomic.hpp"])
    for exe in exes:
        p = programs(ctx.rng, list(W), ctx.pick(8, 40), ctx.pick(40, 300), ctx.pick(15, 120), ctx.pick(15, 120))
        conc.check(ctx, "TraceAtomicVal", exe, p, chunk=ctx.pick(1300, 4000))
        ctx.configs.update((t, exe) for t in W)
    ctx.require_ops(BASIC + LOGIC + NUM, 20)
    ctx.assumptions += ["the atomic backend is a stand-in whose primitives are indivisible; it is the library's only way to the value",
                        "two threads of one or two calls and three threads of one call, every schedule of their primitives"]
