"""Containers whose capacity is at the edge of a byte or of two, against Big.tla."""


def histories(rng, kind, cap):
    """Fill it exactly, go round, empty it."""
    if kind == "span":
        few = rng.randint(2, 9)
        return [("new", [kind, cap]), ("at", [cap - 1]), ("trim", [0]), ("drop", [few]), ("trim", [few]), ("at", [cap - 2 * few - 1]), ("copy", []),
                ("drop", [cap // 2]), ("at", [cap // 4]), ("trim", [cap // 4]), ("drop", [1]), ("clear", []), ("trim", [0])]
    hashed = kind not in ("queue", "vector")
    out, lo, hi = [("new", [kind, cap])], 0, 0

    def ask():
        if hashed:
            out.extend(("seek", [max(0, k)]) for k in (lo - 1, lo, (lo + hi) // 2, hi - 1, hi))
            if hi > lo:
                out.append(("again", []))
        elif kind == "vector":
            out.extend(("at", [k]) for k in {0, (hi - lo) // 2, hi - lo - 1} if 0 <= k < hi - lo)

    few = rng.randint(2, 9)
    for n in (cap - few, few - 1, 1, -few, few, -(cap // 2), cap, "copy", -cap, few, "clear", few):
        if n in ("copy", "clear"):
            out.append((n, []))
            lo, hi = (0, 0) if n == "clear" else (lo, hi)
        elif n > 0:
            n = min(n, cap - (hi - lo))
            out.append(("add", [n]))
            hi += n
        else:
            n = min(few if hashed and cap > 1000 else cap, -n, hi - lo)  # erasing looks for the element
            out.append(("drop", [n]))
            lo, hi = (lo, hi - n) if kind == "vector" else (lo + n, hi)
        ask()
    return out


def sizes(kind, thorough):
    return [255, 256, 257, 65535, 65536, 65537] if thorough or kind in ("queue", "vector", "span") else [255, 256, 65536]


def build(kinds, thorough):
    configs = [(k, n) for k in kinds for n in [1, 2, 3] + sizes(k, thorough)]
    return dict(src="big.cpp", name="big", flags=["-O2"], defs=["CONFIGS=" + " ".join("C(%s,%d)" % c for c in configs)])


def jobs(ctx, exe, kinds, cfg):
    every = [x for k in kinds for n in sizes(k, not ctx.quick) for x in histories(ctx.rng, k, n)]
    ctx.configs.update((k, n) for k in kinds for n in sizes(k, not ctx.quick))
    return [lambda: ctx.walk(ctx.graph("MCBig", cfg), exe, 10 ** 5, spec="Big"), lambda: ctx.check_trace("TraceBig", exe, every)]
