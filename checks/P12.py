"""P12: bounded multimaps against CxMultimap.tla and Big.tla."""
import big

CFG = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 4), (3, 1), (3, 2), (3, 3), (5, 4)]


def gen(rng, kind, per, length, cfg=CFG):
    for kn, vn in cfg:
        for _ in range(per):
            ans = yield ("new", [kn, vn, kind])
            nk, nv = rng.choice([(2, 2), (3, 3), (6, 3), (8, 8)]) if kn < 20 else (23, 23)
            if kn == 20:
                for k, v in [(k, k) for k in range(19)] + [(18, v) for v in range(2, 18)]:
                    ans = yield ("insert", [k, v])
            for _ in range(length):
                rel = {k: vs for k, vs in ans["o"]["rel"]}
                k, v = rng.randrange(nk), rng.randrange(nv)
                kk = rng.choice(list(rel)) if rel else k
                c = [("erasek", [k]), ("erase", [k, v]), ("copy", [])]
                if len(rel) < kn or k in rel:
                    c += [("insertk", [k]), ("putk", [k])]
                    if v in rel.get(k, []) or len(rel.get(k, [])) < vn:
                        c += 3 * [("insert", [k, v]), ("put", [k, v])]
                if rel:
                    if v in rel[kk] or len(rel[kk]) < vn:
                        c += [("getins", [kk, v]), ("insert", [kk, v])]
                    c += [("erasek", [kk])]
                    if rel[kk]:
                        c += 2 * [("erase", [kk, rng.choice(rel[kk])])]
                    if rng.random() < .3:
                        c += [("getclr", [kk]), ("clear", [])]
                if any(rel.values()):
                    c += [("eraseown", [])]
                ans = yield rng.choice(c)


def run(ctx):
    exes = ctx.build([dict(src="cx_multimap.cpp", name="m%d" % k, defs=["KIND=%d" % k]) for k in (0, 1)] + [big.build(["keys", "values"], not ctx.quick)],
                     ["cx_multimap.hpp"])
    jobs = [lambda: ctx.walk(ctx.graph("MCCxMultimap"), exes[0], ctx.pick(60000, 10 ** 6), spec="CxMultimap")]
    for k in (0, 1):
        s = ctx.steer(exes[k], gen(ctx.rng, k, ctx.pick(6, 25), ctx.pick(70, 250), CFG + [(20, 17)]))
        jobs.append(lambda k=k, s=s: ctx.check_trace("TraceCxMultimap", exes[k], s))
        ctx.configs.update((c, k) for c in CFG)
    jobs += big.jobs(ctx, exes[-1], ["keys", "values"], "MCBigMultimap")
    ctx.parallel(jobs)
    ctx.require_ops(["add", "drop"], 10)
    ctx.require_ops(["insert", "put", "insertk", "putk", "erasek", "erase", "eraseown", "getins", "getclr", "clear",
                     "copy"], 10)
    ctx.assumptions += ["operations stay within both capacities (anything else is a precondition violation)"]
