"""P18: byte cursors against Byterator.tla."""
from words import limbs, word

ELEM = {0: 1, 1: 2, 2: 4, 3: 8, 4: 4, 5: 4}
SIZE = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "s3": 3, "u32": 4, "u64": 8}


def histories(rng, kinds, per, length):
    """Keeps track of the positions so that every operation stays inside the buffer."""
    out = []
    for kind in kinds:
        for _ in range(per):
            e = ELEM[kind]
            n = e * rng.randint(max(1, 8 // e), 40 // e)
            base = rng.randint(0, 15) if kind == 0 else 0
            out.append(("new", [kind, [rng.choice([0, 255, 128, rng.randint(0, 255)]) for _ in range(n)], base]))
            pos = [0, 0]
            for _ in range(length):
                c = rng.randint(1, 2)
                p = pos[c - 1]
                q = p
                v = rng.choice(list(SIZE))
                k = rng.choice(["at", "copy", "prei", "posti", "pred", "postd", "add", "sub", "plus", "minus", "diff",
                                "rel", "relit", "skip", "align", "get", "index", "put", "put", "peek", "peek", "read",
                                "read", "write", "write", "write"])
                a = [c]
                to = rng.randint(0, n)
                if k in ("at", "relit"):
                    a += [rng.randint(0, n // e)]
                    q = a[1] * e if k == "at" else p
                elif k == "copy":
                    q = pos[2 - c]
                elif k in ("prei", "posti"):
                    q = p + 1
                elif k in ("pred", "postd"):
                    q = p - 1
                elif k in ("add", "sub"):
                    q = to
                    a += [to - p, rng.randint(0, 1)] if k == "add" else [p - to]
                elif k in ("plus", "minus"):
                    a += [to - p if k == "plus" else p - to]
                elif k == "skip":
                    q = p + SIZE[v]
                    a += [v, rng.randint(0, 1) if v in ("u8", "u16", "u32", "u64") else 0]
                elif k == "align":
                    v = rng.choice(["u8", "u16", "u32", "u64", "i16"])
                    s = SIZE[v]
                    m = rng.choice([0, 0, rng.randint(-3, 3)])
                    q = (base + p + s - 1) // s * s - base + m * s
                    a += [v, m]
                elif k == "get":
                    if p >= n:
                        continue
                elif k in ("index", "put"):
                    t = rng.randint(0, n - 1)
                    a += [t - p]
                    if k == "put":
                        if kind == 4:
                            continue
                        a += [rng.randint(0, 255)]
                elif k in ("peek", "read"):
                    if p + SIZE[v] > n:
                        continue
                    r = rng.choice(["same", "same", "u32", "u64", "u8", "u16"]) if v != "s3" else "same"
                    a += [v, r, rng.randint(0, 2)]
                    if v in ("i8", "i16") and r != "same":
                        a[3] = 0
                    q = p + SIZE[v] if k == "read" else p
                elif k == "write":
                    if kind == 4 or p + SIZE[v] > n:
                        continue
                    h = rng.randint(0, 2)
                    if h == 1 and v not in ("u8", "u16", "u32", "u64"):
                        h = 0
                    a += [v, limbs(word(rng, 8), 8) if h == 1 else limbs(word(rng, SIZE[v]), SIZE[v]), h]
                    q = p + SIZE[v]
                if not 0 <= q <= n:
                    continue
                pos[c - 1] = q
                out.append((k, a))
    return out


def run(ctx):
    exe, = ctx.build([dict(src="byterator.cpp")], ["byterator.hpp"])
    jobs = [lambda: ctx.walk(ctx.graph("MCByterator"), exe, 10 ** 6, spec="Byterator")]
    for ks in ([0, 1], [2, 3], [4, 5]):
        s = histories(ctx.rng, ks, ctx.pick(12, 60), ctx.pick(150, 400))
        jobs.append(lambda s=s: ctx.check_trace("TraceByterator", exe, s))
    ctx.configs.update(range(6))
    ctx.parallel(jobs)
    ctx.require_ops(["at", "copy", "prei", "posti", "pred", "postd", "add", "sub", "plus", "minus", "diff", "rel",
                     "relit", "skip", "align", "get", "index", "put", "peek", "read", "write"], 10)
    ctx.assumptions += ["positions and accesses stay inside the buffer", "a little-endian machine"]
