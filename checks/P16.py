"""P16: saturating casts and size conversions against Casts.tla."""
from words import limbs, word

T = {"bool": 1, "char": 1, "schar": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8,
     "llong": 8, "ullong": 8, "wchar": 4, "char8": 1, "char16": 2, "char32": 4}
EDGES = sorted({e + d for b in (1, 7, 8, 15, 16, 31, 32, 63, 64) for e in (1 << b, -(1 << b)) for d in (-1, 0, 1)})


def script(rng, count):
    out = [("new", [])]
    for f, n in T.items():
        if n == 1:
            continue
        edges = sorted({e % (1 << (8 * n)) for e in EDGES})
        for t in T:
            for e in rng.sample(edges, min(len(edges), count)):
                out.append(("sat", [f, t, limbs(e, n)]))
            for _ in range(count // 3):
                out.append(("sat", [f, t, limbs(word(rng, n), n)]))
    for f, n in T.items():
        if f == "bool":
            continue
        for _ in range(8):
            out.append((rng.choice(["sign", "unsign"]), [f, limbs(word(rng, n), n)]))
    sz = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16]
    for s in sz:
        for u in sz:
            for _ in range(count // 2):
                k = word(rng, 8) % ((1 << 63) // s)
                out.append(("size", [s, u, limbs(k, 8)]))
    return out


def run(ctx):
    exe, = ctx.build([dict(src="casts.cpp")], ["numeric.hpp", "utility.hpp"])
    jobs = [lambda: ctx.walk(ctx.graph("MCCasts"), exe, 10 ** 6, spec="Casts")]
    for _ in range(4):
        s = script(ctx.rng, ctx.pick(15, 60))
        jobs.append(lambda s=s: ctx.check_trace("TraceCasts", exe, s))
    ctx.configs.update((f, t) for f in T for t in T)
    ctx.parallel(jobs)
    ctx.require_ops(["sat", "satrow", "size", "static", "sign", "unsign"], 10)
    ctx.notes["exhaustive_tables"] = "every value of every one-byte type cast to every integral type"
    ctx.assumptions += ["the converted count's size in bytes is below 2^63, as for any array"]
