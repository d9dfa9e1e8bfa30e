"""P17: bit utilities against BitOps.tla."""
import os
from words import word

W = [8, 16, 32, 64, 24, 32, 128, 32, 72, 160, 96]


def offsets(rng):
    out = [(w, [o]) for w, os_ in ((8, range(1, 8)), (16, (1, 8, 15)), (32, (1, 16, 31)), (64, (1, 31, 32, 33, 63)))
           for o in os_]
    out += [(8, list(range(1, 8))), (8, [])]
    for _ in range(14):
        w = rng.choice([8, 16, 32, 64])
        out.append((w, sorted(rng.sample(range(1, w), rng.randint(2, min(6, w - 1))))))
    return out


def bits(v):
    return [i for i in range(64) if v >> i & 1]


def script(rng, offs, count):
    un = ["clz", "ctz", "clo", "cto", "pop", "single", "width", "floor", "ceil", "bswap", "to_le", "to_be", "from_le",
          "from_be"]
    out = [("new", [])]
    for _ in range(count):
        w = rng.choice([16, 32, 64])
        v = word(rng, w // 8)
        f = rng.choice(un)
        if not (f == "ceil" and v > 1 << (w - 1)):
            out.append(("un", [f, w, bits(v)]))
        w = rng.choice([8, 16, 32, 64])
        out.append((rng.choice(["rotl", "rotr"]), [w, bits(word(rng, w // 8)), rng.choice([0, w, -w, 1, -1, w - 1,
                                                                                       rng.randint(-300, 300)])]))
        t = rng.choice([2, 3, 5, 6, 7, 8, 9, 10])
        m = rng.choice([rng.randint(0, W[t] - 1), W[t] - 1, 31, 15])
        lo = rng.choice([0, m, rng.randint(0, m)])
        out.append(("mask", [t, m, lo]))
        if W[t] <= 64:
            out.append(("maskt", [t, m, lo]))
        w, k = rng.choice([(16, 8), (32, 8), (32, 16), (64, 8), (64, 16), (64, 32)])
        out.append(("pack", [w, k, [bits(word(rng, k // 8)) for _ in range(w // k)]]))
        w, k = rng.choice([(8, 8), (16, 8), (16, 16), (32, 8), (32, 16), (32, 32), (64, 8), (64, 16), (64, 32), (64, 64)])
        out.append(("unpack", [w, k, bits(word(rng, w // 8))]))
        w, o = rng.choice(offs)
        out.append(("destr", [w, o, bits(word(rng, w // 8))]))
    return out


def run(ctx):
    offs = offsets(ctx.rng)
    gen = os.path.join(ctx.work, "gen.hpp")
    with open(gen, "w") as f:
        f.write("#define GENERATED_DESTRUCTURES \\\n" + " \\\n".join(
            "DESTR(std::uint%d_t%s)" % (w, "".join(", %d" % x for x in o)) for w, o in offs) + "\n")
    g = 'GENERATED="%s"' % gen
    exes = ctx.build([dict(src="bitops.cpp", defs=[g], name="bitops"),
                      dict(src="bitops.cpp", defs=[g, "NO_BYTESWAP"], name="bitopsnb"),
                      dict(src="bitops.cpp", defs=[g, "FALLBACK"], name="bitopsfb")],
                     ["bit.hpp"])
    gr = ctx.graph("MCBitOps")
    jobs = []
    for exe in exes:
        jobs.append(lambda exe=exe: ctx.walk(gr, exe, 10 ** 6, spec="BitOps"))
        s = script(ctx.rng, offs, ctx.pick(400, 2500))
        jobs.append(lambda s=s, exe=exe: ctx.check_trace("TraceBitOps", exe, s))
    ctx.configs.update((t, x) for t in range(len(W)) for x in ("std", "own byteswap", "own fallbacks"))
    ctx.parallel(jobs)
    ctx.require_ops(["un", "rotl", "rotr", "mask", "maskt", "pack", "unpack", "destr", "suint"], 10)
    ctx.assumptions += ["a little-endian machine", "ceiling only where the result is representable"]
