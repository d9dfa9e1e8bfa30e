"""P13: tombstone optionals against Optional.tla."""


def histories(rng, kinds, per, length):
    out = []
    for k in kinds:
        for _ in range(per):
            out.append(("new", [k]))
            for _ in range(length):
                r, v, n = rng.randint(1, 2), rng.choice([0, rng.randint(0, 15)]), rng.randint(0, 15)
                q = rng.randint(1, 2)
                c = [(op, [r]) for op in ("ctor_none", "ctor_nullopt", "assign_nullopt", "reset")]
                c += 2 * [(op, [r, v]) for op in ("ctor_val", "ctor_inplace", "assign_val", "emplace")]
                c += 2 * [("write", [r, v, rng.randint(0, 2)])]
                c += [(op, [r, 3 - r]) for op in ("move_ctor", "move_assign")]
                if k != 6:
                    c += [(op, [r, q]) for op in ("copy_ctor", "copy_assign")]
                f = 1 if k == 6 else rng.randint(0, 1)
                c += 2 * [("value_or", [r, f, v]), ("or_else", [r, f, v])]
                c += 2 * [(op, [r, rng.randint(0, 3), n]) for op in ("transform", "and_then", "pipe")]
                c += 4 * [("mtransform", [[[rng.randint(1, 2), rng.randint(0, 3)] for _ in range(rng.randint(1, 3))], n])]
                m, full = rng.randint(0, 3), rng.randint(1, 2)
                c += 2 * [("mtransform", [[[full if rng.randint(0, 3) else 3 - full, m] for _ in range(rng.choice([4, 5, 7]))], n])]
                c += [("mstd", [[rng.choice([0, 1, 2, 3] if m else [1, 2]) for _ in range(rng.choice([1, 2, 3, 4, 6]))], n])]
                out.append(rng.choice(c))
    return out


def run(ctx):
    exe, = ctx.build([dict(src="optional.cpp")], ["optional.hpp"])
    jobs = [lambda: ctx.walk(ctx.graph("MCOptional"), exe, ctx.pick(60000, 10 ** 6), spec="Optional")]
    for ks in ([0, 6], [1, 2, 3], [4, 5]):
        s = histories(ctx.rng, ks, ctx.pick(10, 40), ctx.pick(80, 300))
        jobs.append(lambda s=s: ctx.check_trace("TraceOptional", exe, s))
    ctx.configs.update(range(7))
    ctx.parallel(jobs)
    ctx.require_ops(["ctor_none", "ctor_nullopt", "ctor_val", "ctor_inplace", "assign_nullopt", "assign_val", "emplace",
                     "reset", "write", "copy_ctor", "copy_assign", "move_ctor", "move_assign", "value_or", "or_else",
                     "transform", "and_then", "pipe", "mtransform", "mstd"], 10)
    ctx.assumptions += ["a moved-from optional is given a new value before it is read again"]
