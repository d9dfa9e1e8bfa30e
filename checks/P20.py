"""P20: range algorithms and counting iterators against Algos.tla."""
LO = {0: -10 ** 9, 1: -128, 2: 0, 3: -32768, 4: -10 ** 9, 5: 0}
HI = {0: 10 ** 9, 1: 127, 2: 255, 3: 32767, 4: 10 ** 9, 5: 10 ** 9}
PATTERNS = [[], [3], [0], [4], [1, 4], [0, 3, 4]]


def algos(rng, n):
    out = [("new", [0, 0, 0])]
    for _ in range(n):
        op = rng.choice(["each", "eachn", "butlast", "but1", "trans", "transn", "reduce", "reducen", "imf"])
        k = rng.randint(1 if op in ("butlast", "but1", "imf") else 0, 3)
        ln = rng.choice([0, 1, 2, 3, rng.randint(4, 40), rng.choice([rng.randint(4, 40), 300])])
        t = rng.randint(0, 3)
        cnt = 0
        if op in ("eachn", "transn", "reducen"):
            cnt = rng.choice([0, ln, rng.randint(0, ln)])
            if t in (0, 3) and op != "reducen" and rng.random() < 0.1:
                cnt = -rng.randint(1, 5)
        elif op == "butlast":
            cnt = rng.choice([0, 1, ln, ln + 1, rng.randint(0, ln + 3), 200])
        else:
            t = 0
        if cnt > 255 and t == 2:              # an unsigned char
            t = 1
        pat = [] if op == "imf" else rng.choice(PATTERNS)
        extra = [[p, [rng.randint(-50, 50)] if p == 4 else
                  [rng.randint(-99, 99) for _ in range(ln + rng.choice([0, 0, 1, 3]))]] for p in pat]
        dest = rng.randint(0, 1) if op in ("trans", "transn") else 0
        out.append((op, [k, [rng.randint(-99, 99) for _ in range(ln)], extra, cnt, t, dest]))
    return out


def counters(rng, per, n):
    out = []
    for t in range(6):
        for _ in range(per):
            x, y = (min(max(rng.choice([0, LO[t], HI[t], LO[t] + 3, HI[t] - 3, rng.randint(LO[t], HI[t])]) +
                            rng.randint(-2, 2), LO[t]), HI[t]) for _ in (0, 1))
            out.append(("new", [t, x, y]))
            for _ in range(n):
                op = rng.choice(["inc", "pinc", "dec", "pdec", "diff", "cmp", "swap", "add", "sub", "plus", "minus"])
                a = []
                nx, ny = x, y
                if op in ("add", "sub", "plus", "minus"):
                    # any distance to a value the type has
                    tgt = rng.choice([LO[t], HI[t], rng.randint(LO[t], HI[t]), x, x + rng.randint(-3, 3)])
                    tgt = min(max(tgt, LO[t]), HI[t])
                    d = tgt - x if op in ("add", "plus") else x - tgt
                    if t == 5 and d < 0:
                        continue
                    a = [d, rng.randint(0, 1)]
                    if op in ("add", "sub"):
                        nx = tgt
                    else:
                        ny = tgt
                elif op in ("inc", "pinc"):
                    nx += 1
                elif op in ("dec", "pdec"):
                    nx -= 1
                elif op == "swap":
                    nx, ny = y, x
                elif op == "diff" and t == 5 and x < y:
                    continue
                if not (LO[t] <= nx <= HI[t] and LO[t] <= ny <= HI[t]):
                    continue
                x, y = nx, ny
                out.append((op, a))
    return out


def run(ctx):
    exe, = ctx.build([dict(src="algos.cpp")], ["algorithm.hpp", "iterator.hpp", "numeric.hpp"])
    jobs = [lambda: ctx.walk(ctx.graph("MCAlgos"), exe, ctx.pick(60000, 10 ** 6), spec="Algos")]
    for _ in range(2):
        s = algos(ctx.rng, ctx.pick(1500, 8000))
        jobs.append(lambda s=s: ctx.check_trace("TraceAlgos", exe, s))
    s2 = counters(ctx.rng, ctx.pick(4, 30), 100)
    jobs.append(lambda: ctx.check_trace("TraceAlgos", exe, s2))
    ctx.configs.update(range(6))
    ctx.parallel(jobs)
    ctx.require_ops(["each", "eachn", "butlast", "but1", "trans", "transn", "reduce", "reducen", "imf", "inc", "pinc",
                     "dec", "pdec", "add", "sub", "plus", "minus", "diff", "cmp"], 20)
    ctx.assumptions += ["the further ranges are at least as long as the first", "the but-last forms get forward iterators or better",
                        "counts given to transform_reduce_n are not negative", "counters stay in the range of their type"]
