"""P28: evaluation by the compiler against the specifications of the other checks."""
import os

from cxeval import CxCases, CxHistories, chunks, generator, split
from ilist import histories as lists


def mk(fmt):
    return lambda a: "MK(%s)" % fmt.format(*a)


def bitset_type(a):
    n, w = a
    if w == 0:
        return "MK(impl<stdx::bitset<%d>, std::size_t>)" % n
    if w == 1:
        return "MK(impl<stdx::bitset<E%d::max>, E%d>)" % (n, n)
    return "MK(impl<stdx::bitset<%d, std::uint%d_t>, std::size_t>)" % (n, w)


def span_type(a):
    t = "std::vector<E>" if a[0] == 2 else "std::array<E, %d>" % len(a[1])
    return "[](drv::in &i) { i.n(); return std::make_unique<impl<%s>>(); }" % t


def ilist_type(a):
    return "[](drv::in &i) { auto k = i.n(); i.n(); auto m = i.n(); return make<stdx::node_policy::%schecked>(k, m == 1, i.n()); }" \
        % ("un" if a[1] else "")


def run(ctx):
    rng, q = ctx.rng, ctx.pick
    g = {p: generator(p) for p in ("P01", "P02", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17",
                                   "P19", "P20", "P21", "P22")}
    jobs = []

    def add(driver, make, bare, spec, hists, defs=(), group=6, keep=None):
        c = CxHistories(ctx, driver, make, bare, defs, keep)
        hists = [h for h in hists if len(h) > 1]
        jobs.append(lambda: c.against_trace(spec, hists, label=driver.split(".")[0], group=group))
        ctx.configs.update((driver, str(h[0][1])) for h in hists)

    # containers (those with capacity to spare are steered by a running driver)
    run_exes = ctx.build([dict(src="cx_%s.cpp" % d, name="run_" + d, defs=["KIND=0"]) for d in ("set", "map", "multimap")],
                         ["cx_set.hpp", "cx_map.hpp", "cx_multimap.hpp"])
    n = q(20, 60)

    def safe(h):
        h[0] = ("new", [h[0][1][0], rng.randint(0, 1), h[0][1][2]])
        return h
    add("cx_queue.cpp", mk("impl<{2}, {0}, {1}>"), ["cx_queue.hpp"], "TraceCxQueue",
        [safe(h) for k in (0, 1, 2) for h in split(g["P08"].histories(rng, k, 1, n)) if h[0][1][1] == 0],
        keep=lambda a: a[2] == 0)
    add("cx_vector.cpp", mk("impl<{1}, {0}>"), ["cx_vector.hpp"], "TraceCxVector",
        [h for k in (0, 1, 2) for h in split(g["P09"].histories(rng, k, q(1, 4), n))], keep=lambda a: a[1] == 0)
    for exe, pid, d, sp, args in zip(run_exes, ("P10", "P11", "P12"), ("set", "map", "multimap"),
                                     ("CxSet", "CxMap", "CxMultimap"),
                                     ("impl<{1}, {0}>", "impl<{1} / 2, {1} % 2, {0}>", "impl<{2}, {0}, {1}>")):
        hs = split(ctx.steer(exe, g[pid].gen(rng, 0, q(2, 8), n)))
        for h in hs:
            # the same histories over class types (g++ cannot evaluate copies of nested arrays of them)
            h[0] = ("new", h[0][1][:-1] + [rng.choice({"set": [0, 1], "map": [0, 1, 2, 3], "multimap": [0]}[d])])
        add("cx_%s.cpp" % d, mk(args), ["cx_%s.hpp" % d], "Trace" + sp, hs, keep=lambda a: a[-1] == 0)

    # bit sets
    cfg = [(m, w) for w, ns in g["P01"].CFG.items() for m in ns]
    add("bitset.cpp", bitset_type, ["bitset.hpp"], "TraceBitset",
        [[("new", list(c))] + [g["P01"].rnd_op(rng, c[0]) for _ in range(8 if c[0] > 60 else 16)]
         for c in (rng.sample(cfg, 22) if ctx.quick else cfg)], group=4, keep=lambda a: True)
    tl, sels = g["P02"].table(rng)
    hdr = os.path.join(ctx.work, "types.hpp")
    small = [k for k in tl if len(tl[k]) <= 12]
    with open(hdr, "w") as f:
        for k in small:
            f.write("LIST(%s)\n" % ", ".join(map(str, [k] + tl[k])))
            f.write("".join("SEL(%s)\n" % ", ".join(map(str, [k] + s)) for s in sels[k]))
    add("type_bitset.cpp", mk("impl<{0}>"), ["bitset.hpp", "type_traits.hpp"], "TraceTypeBitset",
        split(g["P02"].histories(rng, tl, sels, small, q(2, 8), 12)), defs=['GENERATED="%s"' % hdr],
        keep=lambda a: True)

    # lists, optionals, lazy values, spans
    add("ilist.cpp", ilist_type, ["intrusive_list.hpp", "intrusive_forward_list.hpp"], "TraceIList",
        split(lists(rng, [0, 1, 2], [0, 1], 0, q(3, 10), n, False)))
    add("optional.cpp", lambda a: "[](drv::in &i) { return make(i.n()); }", ["optional.hpp"], "TraceOptional",
        split(g["P13"].histories(rng, [1, 2, 3, 4, 5], q(4, 12), n)))
    add("lazy.cpp", lambda a: "[](drv::in &i) { return make(i.n()); }", ["latched.hpp", "cached.hpp"], "TraceLazy",
        split(g["P14"].histories(rng, [0, 3, 4, 5, 6], q(4, 12), n), lambda op, a: op not in ("arm", "reset", "refresh")))
    add("span.cpp", span_type, ["span.hpp"], "TraceSpan",
        [h for h in split(g["P19"].histories(rng, q(8, 24), n), lambda op, a: op != "wbyte") if h[0][1][0] != 1])

    # numbers
    add("rollover.cpp", lambda a: "[](drv::in &i) { return make(i.n()); }", ["rollover.hpp"], "TraceRollover",
        split(g["P15"].histories(rng, q(4, 12), 30)))
    add("casts.cpp", mk("machine"), ["numeric.hpp", "utility.hpp"], "TraceCasts",
        chunks([("new", [])] + rng.sample(g["P16"].script(rng, 6)[1:], q(900, 3000)), 60))
    offs = g["P17"].offsets(rng)
    hdr2 = os.path.join(ctx.work, "destructures.hpp")
    with open(hdr2, "w") as f:
        f.write("#define GENERATED_DESTRUCTURES " + " ".join(
            "DESTR(std::uint%d_t%s)" % (w, "".join(", %d" % x for x in o)) for w, o in offs) + "\n")
    add("bitops.cpp", mk("machine"), ["bit.hpp"], "TraceBitOps", chunks(g["P17"].script(rng, offs, q(80, 300)), 40),
        defs=['GENERATED="%s"' % hdr2])
    add("algos.cpp", mk("machine"), ["algorithm.hpp", "iterator.hpp", "numeric.hpp"], "TraceAlgos",
        chunks(g["P20"].algos(rng, q(200, 800)), 12) + split(g["P20"].counters(rng, q(2, 6), 25)))
    # tuples
    for pid, spec, must in (("P21", "TraceTuple", ["foldl", "join", "cmp"]), ("P22", "TraceTupleAlgos", ["cat", "sort", "filter"])):
        c = CxCases(ctx, '#include "tup.hpp"\n', g[pid].code, ["tuple.hpp", "tuple_algorithms.hpp"])
        cs = g[pid].cases(rng, q(120, 500))
        more = g[pid].cases(rng, 500)
        cs += [x for op in must for x in [x for x in more if x[0] == op][:3]]
        jobs.append(lambda c=c, cs=cs, spec=spec, pid=pid: c.against_trace(spec, cs, label="tuple" + pid, group=20))
    jobs.append(lambda: [ctx.model(m) for m in ("MCCxQueue", "MCLazy")])
    ctx.parallel(jobs, width=3)
    ctx.require_ops(["push", "insert", "merge", "getins", "set_range", "shl", "flip", "pushb", "ins", "emplace", "transform",
                     "access", "sub", "cmpd", "sat", "pack", "reduce", "plus", "foldl", "join", "cmp", "cat", "sort", "filter"], 2)
    ctx.assumptions += ["evaluation by g++ 13; where it refuses, clang++ must refuse as well",
                        "histories without misuse, exceptions or byte views (which no compiler can evaluate)"]
