"""P08: bounded queues against CxQueue.tla and Big.tla."""
import big

CAPS = [1, 2, 3, 4, 5, 7, 8, 9]


def histories(rng, kind, per, length):
    out = []
    for cap in CAPS:
        for pol in (0, 1, 2):
            for _ in range(per):
                out.append(("new", [cap, pol, kind]))
                n = 0
                bias = rng.choice([.3, .5, .7])
                for _ in range(length):
                    x = rng.random()
                    v = rng.randint(1, 99)
                    full, empty = n == cap, n == 0
                    if x < .62:
                        if rng.random() < bias:
                            if pol or not full:
                                out.append(("push", [v, 1 if kind == 2 else rng.randint(0, 1)]) if rng.random() < .8
                                           else ("pushw", [v, rng.randint(1, 99)]))
                                n += not full
                        elif pol or not empty:
                            out.append(("pop", []))
                            n -= not empty
                    elif x < .9:
                        if pol or not empty:
                            out.append(rng.choice([("front", [rng.randint(0, 1)]), ("back", [rng.randint(0, 1)]),
                                                   ("frontw", [v]), ("backw", [v])]))
                    elif x < .94:
                        out.append(("clear", []))
                        n = 0
                    else:
                        out.append(("copy", []) if kind != 2 and rng.random() < .5 else ("move", []))
    return out


def large(rng, kind):
    """Queues of 256 and 300 slots, filled, and the ring of one gone round twice."""
    return ring(rng, kind, 256, (290, -60, 80, -300)) + ring(rng, kind, 300, (290, 12, 250, -280, 140, -20, 190, -320))


def ring(rng, kind, cap, phases):
    out = [("new", [cap, rng.randint(1, 2), kind])]
    for n in phases:
        for _ in range(abs(n)):
            x = rng.random()
            if x < .9:
                out.append(("push", [rng.randint(1, 99), 1]) if n > 0 else ("pop", []))
            else:
                out.append(rng.choice([("front", [0]), ("back", [1]), ("frontw", [rng.randint(1, 99)]), ("backw", [rng.randint(1, 99)])]))
    return out


def run(ctx):
    exes = ctx.build([dict(src="cx_queue.cpp", name="q%d" % k, defs=["KIND=%d" % k]) for k in (0, 1, 2)] + [big.build(["queue"], not ctx.quick)],
                     ["cx_queue.hpp"])
    jobs = [lambda: ctx.walk(ctx.graph("MCCxQueue"), exes[0], 10 ** 6, spec="CxQueue")]
    for k in (0, 1, 2):
        s = histories(ctx.rng, k, ctx.pick(3, 12), ctx.pick(60, 200))
        jobs.append(lambda k=k, s=s: ctx.check_trace("TraceCxQueue", exes[k], s))
        jobs.append(lambda k=k, s=large(ctx.rng, k): ctx.check_trace("TraceCxQueue", exes[k], s))
        ctx.configs.update((c, p, k) for c in CAPS for p in range(3))
    jobs += big.jobs(ctx, exes[-1], ["queue"], "MCBigQueue")
    ctx.parallel(jobs)
    ctx.require_ops(["add", "drop"], 10)
    ctx.require_ops(["push", "pushw", "pop", "front", "back", "frontw", "backw", "clear", "copy", "move"], 10)
    ctx.assumptions += ["with the unsafe policy, misuse is not exercised", "panic handlers and custom policies leave by exception"]
