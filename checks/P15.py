"""P15: rollover integers against Rollover.tla."""
from words import limbs, word


def histories(rng, per, length):
    out = []
    for n in (1, 2, 4, 8):
        for _ in range(per):
            out.append(("new", [n]))
            last = 0
            for _ in range(length):
                v = word(rng, n, [last])
                f = rng.choice(["add", "sub", "mul", "div", "mod"])
                c = 2 * [("set", [limbs(v, n)])] + 3 * [("rel", [limbs(v, n)])]
                if not (f in ("div", "mod") and v == 0):
                    c += 3 * [("bin", [f, limbs(v, n)])] + 3 * [("cmpd", [f, limbs(v, n)])]
                c += [("self", [rng.choice(["add", "sub", "mul"])])]
                c += 2 * [("un", [rng.choice(["pos", "neg", "prei", "posti", "pred", "postd"])])]
                m = rng.choice([1, 2, 4, 8])
                c += 2 * [("conv", [limbs(word(rng, m, [last]), m), rng.randint(0, 1), rng.randint(0, 1)])]
                c += [("common", [rng.choice([n, 4, 8])])]
                e = rng.choice(c)
                if e[0] == "set":
                    last = v
                out.append(e)
    return out


def run(ctx):
    exe, = ctx.build([dict(src="rollover.cpp")], ["rollover.hpp"])
    jobs = [lambda: ctx.walk(ctx.graph("MCRollover"), exe, 10 ** 6, spec="Rollover")]
    for _ in range(4):
        s = histories(ctx.rng, ctx.pick(4, 40), ctx.pick(250, 400))
        jobs.append(lambda s=s: ctx.check_trace("TraceRollover", exe, s))
    ctx.configs.update([1, 2, 4, 8])
    ctx.parallel(jobs)
    ctx.require_ops(["row", "set", "rel", "bin", "cmpd", "self", "un", "conv", "common"], 10)
    ctx.notes["exhaustive_tables"] = "all 65536 operand pairs at 8 bits for add, sub, mul, div, mod, less, equality, negation"
    ctx.assumptions += ["division and remainder by zero are excluded"]
