"""P19: spans against Span.tla and Big.tla."""
import big


def histories(rng, per, length):
    out = []
    for sto in (0, 1, 2):
        for _ in range(per):
            n = rng.choice([1, 4, 6]) if sto < 2 else rng.choice([0, 1, 2, 3, 5, 6, 9, 12, 40, 300])
            out.append(("new", [sto, [rng.randint(0, 65535) for _ in range(n)]]))
            ln, ext, cst = 0, -1, 0
            for _ in range(length):
                k = rng.choice(["none"] + 3 * ["whole"] + ["deduce", "part", "part", "todyn", "tostat", "get", "cap"] +
                               3 * ["first", "last", "sub"] + 4 * ["write", "wbyte"])
                c = int(rng.random() < 0.25)
                if k == "none":
                    a = [rng.choice([-1, 0]), c]
                    ln, ext, cst = 0, a[0], c
                elif k == "whole":
                    e = rng.choice([-1, n if sto == 2 else rng.randint(0, n)])
                    if e > 6:
                        continue
                    a = [e, c, rng.randint(0, 2)]
                    ln, ext, cst = (n if e < 0 else e), e, c
                elif k == "deduce":
                    a = [c]
                    ln, ext, cst = n, -1 if sto == 2 else n, c
                elif k == "part":
                    o = rng.randint(0, n)
                    m = rng.randint(0, n - o)
                    e = rng.choice([-1, m])
                    if e > 6:
                        continue
                    a = [o, m, e, c, rng.randint(0, 1)]
                    ln, ext, cst = m, e, c
                elif k in ("first", "last"):
                    m, st = rng.randint(0, ln), rng.randint(0, 1)
                    if st and m > 6:
                        continue
                    a = [m, st]
                    ln, ext = m, m if st else -1
                elif k == "sub":
                    o = rng.randint(0, ln)
                    m = rng.choice([-1, rng.randint(0, ln - o)])
                    st = rng.randint(0, 1)
                    if st == 0 and rng.random() < 0.2:
                        m = rng.choice([ln, ln - o + 1, 10 ** 6])
                    r = ln - o if m < 0 else min(m, ln - o)
                    if st and (o > 6 or r > 6):
                        continue
                    a = [o, m, st]
                    ext = -1 if st == 0 or (m < 0 and ext == -1) else r
                    ln = r
                elif k == "todyn":
                    a = [c]
                    ext, cst = -1, max(c, cst)
                elif k == "tostat":
                    if ln > 6:
                        continue
                    a = [c]
                    ext, cst = ln, max(c, cst)
                elif k == "write":
                    if cst or ln == 0:
                        continue
                    p = rng.choice([1, ln, rng.randint(1, ln)])
                    a = [p, rng.randint(0, 65535), rng.randint(0, 5)]
                elif k == "wbyte":
                    if cst or ln == 0:
                        continue
                    a = [rng.randint(1, 2 * ln), rng.randint(0, 255)]
                elif k == "get":
                    if ln == 0:
                        continue
                    a = [rng.randint(0, min(ln, 6) - 1)]
                elif k == "cap":
                    if ext < 0:
                        continue
                    a = []
                out.append((k, a))
    return out


def run(ctx):
    exe, large = ctx.build([dict(src="span.cpp"), big.build(["span"], not ctx.quick)], ["span.hpp"])
    jobs = [lambda: ctx.walk(ctx.graph("MCSpan"), exe, 10 ** 6, spec="Span")]
    for _ in range(3):
        s = histories(ctx.rng, ctx.pick(8, 40), ctx.pick(120, 400))
        jobs.append(lambda s=s: ctx.check_trace("TraceSpan", exe, s))
    ctx.configs.update([0, 1, 2])
    jobs += big.jobs(ctx, large, ["span"], "MCBigSpan")
    ctx.parallel(jobs)
    ctx.require_ops(["drop", "trim"], 10)
    ctx.require_ops(["none", "whole", "deduce", "part", "first", "last", "sub", "todyn", "tostat", "write", "wbyte",
                     "get", "cap"], 10)
    ctx.assumptions += ["requests stay within bounds", "a view with a static extent is formed from exactly that many elements, "
                        "or from the front of a longer array"]
