"""P02: type-indexed bit sets against TypeBitset.tla."""


def distinct(l):
    return list(dict.fromkeys(l))


def table(rng):
    lists = {0: [], 1: [0], 2: [0, 0], 3: [5, 0, 5, 1], 4: [0, 1, 2, 3, 4], 5: [1, 1, 0, 4, 0, 1, 9, 3],
             6: list(range(8)), 7: list(range(9)), 8: [10, 11, 10, 12, 13, 14, 11, 15, 16, 17, 18, 10],
             9: list(range(32)) + [7, 40], 10: list(range(3, 67)), 11: list(range(70))}
    sels = {}
    for k, l in lists.items():
        d = distinct(l)
        s = [[t] for t in (d if len(d) <= 9 else d[:2] + d[-3:] + rng.sample(d, 5))]
        if d:
            s += [d] if len(d) <= 12 else []
            for _ in range(6 if len(d) > 1 else 0):
                s.append(rng.sample(d, rng.randint(2, min(4, len(d)))))
            s.append([d[-1], d[-1]])
        sels[k] = [list(x) for x in dict.fromkeys(map(tuple, s))]
    return lists, sels


def histories(rng, lists, sels, keys, per, length):
    out = []
    for k in keys:
        l, s = lists[k], sels[k]
        n = len(distinct(l))
        for _ in range(per):
            out.append(("new", [k, l]))
            for _ in range(length):
                r, q = rng.randint(1, 2), rng.randint(1, 2)
                c = [(op, [r]) for op in ("ctor_all", "set_all", "reset_all", "clear_all", "flip_all", "flip_all")]
                c += [("ctor_u64", [r, [b for b in range(64) if rng.random() < .5]])]
                c += [(op, [r, q]) for op in ("or", "and", "xor", "or_as", "and_as", "xor_as", "minus", "not", "copy")]
                if s:
                    x = rng.choice(s)
                    y = rng.choice([z for z in s if len(set(z)) == len(z)])
                    c += [(op, [r, x]) for op in ("ctor", "set", "set", "reset", "clear")] + 2 * [("setv", [r, x, rng.randint(0, 1)])]
                    c += 3 * [("flip", [r, y])]
                out.append(rng.choice(c))
    return out


def run(ctx):
    lists, sels = table(ctx.rng)
    groups = [[0, 1, 2, 3, 4, 5], [6, 7, 8], [9], [10], [11]]
    units = []
    for g, keys in enumerate(groups):
        p = ctx.uniq("gen") + ".hpp"
        with open(p, "w") as f:
            for k in keys:
                f.write("LIST(%s)\n" % ", ".join(map(str, [k] + lists[k])))
                for s in sels[k]:
                    f.write("SEL(%s)\n" % ", ".join(map(str, [k] + s)))
        units.append(dict(src="type_bitset.cpp", name="tb%d" % g, defs=['GENERATED="%s"' % p]))
    exes = ctx.build(units, ["bitset.hpp", "type_traits.hpp"])
    jobs = [lambda: ctx.walk(ctx.graph("MCTypeBitset"), exes[0], ctx.pick(20000, 10 ** 6), spec="TypeBitset")]
    for g, keys in enumerate(groups):
        s = histories(ctx.rng, lists, sels, keys, ctx.pick(8 if g < 2 else 3, 30), ctx.pick(60, 200))
        jobs.append(lambda g=g, s=s: ctx.check_trace("TraceTypeBitset", exes[g], s))
        ctx.configs.update(tuple(lists[k]) for k in keys)
    ctx.parallel(jobs)
    ctx.require_ops(["ctor", "ctor_all", "ctor_u64", "set", "setv", "reset", "clear", "flip", "set_all", "reset_all",
                     "clear_all", "flip_all", "or", "and", "xor", "or_as", "and_as", "xor_as", "minus", "not", "copy"], 10)
    ctx.assumptions += ["selections name types of the list (anything else does not compile)"]
