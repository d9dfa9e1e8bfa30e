"""P36: the specifications of the other checks, against what another compiler and the optimizer make of the library."""
import os

from cases import Cases, Histories
from cxeval import generator
from ilist import histories as lists
from verdicts import Verdicts
from vf import DRIVERS, SAN, MachineryError

CLANG = ["/usr/bin/clang++-18", "/usr/bin/clang++-19", "/usr/bin/clang++-20"]
CONTAINERS = (("queue", "CxQueue", "P08"), ("vector", "CxVector", "P09"), ("set", "CxSet", "P10"), ("map", "CxMap", "P11"),
              ("multimap", "CxMultimap", "P12"))


def run(ctx):
    rng, q = ctx.rng, ctx.pick
    clang = next((c for c in CLANG if os.path.exists(c)), None)
    if clang is None:
        raise MachineryError("no supported clang++ here")
    builds = {"clang": dict(cxx=clang, flags=SAN + ["-Wno-invalid-constexpr"]), "opt": dict(flags=["-O2", "-g0"])}
    g = {p: generator(p) for p in ["P%02d" % n for n in list(range(1, 3)) + list(range(8, 28)) + list(range(30, 36))]}

    # -------------------------------------------------------------- drivers
    units, names = [], []

    def unit(build, src, defs=(), name=None):
        names.append("%s_%s" % (build, name or src.split(".")[0]))
        units.append(dict(builds[build], src=src, name=names[-1], defs=list(defs)))
        ctx.configs.add((build, name or src))

    sizes = [(n, w) for w, ns in g["P01"].CFG.items() for n in ns]
    sizes = rng.sample(sizes, q(10, 40))
    unit("clang", "bitset.cpp", ["CONFIGS=" + " ".join("C(%d,%d)" % c for c in sizes)])
    tl, sels = g["P02"].table(rng)
    few = [k for k in tl if len(tl[k]) <= 12]
    types = os.path.join(ctx.work, "types.hpp")
    with open(types, "w") as f:
        for k in few:
            f.write("LIST(%s)\n" % ", ".join(map(str, [k] + tl[k])))
            f.write("".join("SEL(%s)\n" % ", ".join(map(str, [k] + s)) for s in sels[k]))
    unit("clang", "type_bitset.cpp", ['GENERATED="%s"' % types])
    for d, _, _ in CONTAINERS:
        unit("clang", "cx_%s.cpp" % d, ["KIND=0"])
    offs = g["P17"].offsets(rng)
    parts = os.path.join(ctx.work, "parts.hpp")
    with open(parts, "w") as f:
        f.write("#define GENERATED_DESTRUCTURES " + " ".join(
            "DESTR(std::uint%d_t%s)" % (w, "".join(", %d" % x for x in o)) for w, o in offs) + "\n")
    unit("clang", "bitops.cpp", ['GENERATED="%s"' % parts])
    unit("clang", "bitops.cpp", ['GENERATED="%s"' % parts, "FALLBACK"], "fallback")
    for s in ("optional", "lazy", "rollover", "casts", "byterator", "span", "algos", "ilist", "throws"):
        unit("clang", s + ".cpp")
    for s in ("rollover", "casts", "byterator", "span", "ilist"):
        unit("opt", s + ".cpp")
    exes = dict(zip(names, ctx.build(units, ["bitset.hpp", "cx_multimap.hpp", "cx_queue.hpp", "optional.hpp", "span.hpp"])))

    jobs = []

    def trace(name, spec, script):
        jobs.append(lambda: ctx.check_trace(spec, exes[name], script))

    def walk(name, module, spec, cfg=None, limit=q(6000, 60000)):
        jobs.append(lambda: ctx.walk(ctx.graph(module, cfg), exes[name], limit, spec=spec))

    trace("clang_bitset", "TraceBitset", [x for c in sizes for x in [("new", list(c))] + [g["P01"].rnd_op(rng, c[0]) for _ in range(q(25, 90))]])
    trace("clang_type_bitset", "TraceTypeBitset", g["P02"].histories(rng, tl, sels, few, q(2, 10), 40))
    for d, spec, p in CONTAINERS:
        if p in ("P08", "P09"):
            trace("clang_cx_" + d, "Trace" + spec, g[p].histories(rng, 0, 1, q(40, 200)))
        else:
            trace("clang_cx_" + d, "Trace" + spec, ctx.steer(exes["clang_cx_" + d], g[p].gen(rng, 0, q(2, 10), q(40, 200))))
    for n in ("bitops", "fallback"):
        trace("clang_" + n, "TraceBitOps", g["P17"].script(rng, offs, q(150, 1500)))
    trace("clang_throws", "TraceThrows", ctx.steer(exes["clang_throws"], g["P35"].gen(rng, q(2, 20), q(40, 150), [0])))
    trace("clang_algos", "TraceAlgos", g["P20"].algos(rng, q(300, 3000)))
    trace("clang_optional", "TraceOptional", g["P13"].histories(rng, range(7), q(2, 20), 50))
    trace("clang_lazy", "TraceLazy", g["P14"].histories(rng, range(7), q(2, 20), 40))
    for b in builds:
        trace(b + "_casts", "TraceCasts", g["P16"].script(rng, q(2, 20)))
        trace(b + "_byterator", "TraceByterator", g["P18"].histories(rng, range(6), q(2, 20), 80))
        trace(b + "_rollover", "TraceRollover", g["P15"].histories(rng, q(1, 10), 60))
        trace(b + "_span", "TraceSpan", g["P19"].histories(rng, q(3, 20), 60))
        trace(b + "_ilist", "TraceIList", lists(rng, [0, 1, 2], [0, 1], 0, q(2, 20), 50, False))
    walk("clang_cx_queue", "MCCxQueue", "CxQueue")
    walk("clang_optional", "MCOptional", "Optional")
    walk("clang_ilist", "MCIList", "IList", "MCIListDirty")

    # -------------------------------------------------------------- programs
    def programs(pid, module, spec, header, cases, model, group, bare, code=None, defs=(), flags=SAN, cfg=("", "")):
        """A sample of the model's calls and random ones."""
        pre = '#include "%s"\n' % header if header.endswith(".hpp") else header
        k = Cases(ctx, pre, code or g[pid[:3]].code, bare, flags=flags, defs=defs, cxx=clang)
        jobs.append(lambda: k.against_model(module, model, label="m" + pid, group=group, cfg=cfg[0] or None))
        jobs.append(lambda: k.against_trace(spec, cases, label="t" + pid, group=group, cfg=cfg[1] or None))
        ctx.configs.add(("clang", header if header.endswith(".hpp") else "call_by_need"))

    def cs(pid, n):
        return g[pid].cases(rng, n)

    tb = ["tuple.hpp", "tuple_algorithms.hpp"]
    programs("P21", "MCTuple", "TraceTuple", "tup.hpp", cs("P21", q(80, 600)), q(320, 1500), 80, tb)
    programs("P22", "MCTupleAlgos", "TraceTupleAlgos", "tup.hpp", cs("P22", q(60, 600)), q(240, 1500), 60, tb)
    programs("P23", "MCCallByNeed", "TraceCallByNeed", g["P23"].PRELUDE, cs("P23", q(24, 300)), q(72, 600), 24, ["call_by_need.hpp"])
    programs("P25", "MCFormat", "TraceFormat", "fmts.hpp", cs("P25", q(32, 300)), q(64, 600), 16, ["ct_format.hpp"], defs=["STDX_FREESTANDING"])
    programs("P30", "MCTypeLevel", "TraceTypeLevel", "tl.hpp", cs("P30", q(100, 800)), q(300, 2000), 100, ["type_traits.hpp", "utility.hpp"])
    programs("P30c", "MCConcepts", "TraceConcepts", "concepts_std.hpp", g["P30"].concepts(rng, q(200, 1000)), q(600, 3000), 200, ["concepts.hpp"],
             code=g["P30"].concept, flags=["-O0"])
    programs("P31", "MCConstants", "TraceConstants", "consts.hpp", cs("P31", q(80, 600)), q(160, 1000), 80, ["udls.hpp", "array.hpp", "utility.hpp"])
    # names are spelled in the compiler's own way
    programs("P32", "MCNames", "TraceNames", "names.hpp", cs("P32", q(150, 1000)), q(450, 2000), 75, ["ct_conversions.hpp", "ct_format.hpp"],
             defs=["STDX_FREESTANDING"], cfg=("MCNamesClang", "TraceNamesClang"))
    programs("P34", "MCAccess", "TraceAccess", "access.hpp", cs("P34", q(80, 600)), q(400, 2000), 80, ["tuple.hpp", "optional.hpp", "span.hpp"],
             flags=["-O0", "-I" + DRIVERS + "/conc_stub"])
    for pid, spec, header, code, hists, bare in (
            ("P24", "TraceEnv", "envs.hpp", g["P24"].coder(4, 9), g["P24"].hists(rng, q(16, 80)), ["env.hpp"]),
            ("P26", "TraceCallables", "calls.hpp", g["P26"].code, g["P26"].hists(rng, q(32, 160)), ["functional.hpp", "for_each_n_args.hpp"]),
            ("P27", "TracePanics", "panicking.hpp", g["P27"].code, g["P27"].hists(rng, q(16, 80), 1), ["panic.hpp", "cx_queue.hpp"])):
        h = Histories(ctx, '#include "%s"\n' % header, code, bare, cxx=clang)
        jobs.append(lambda h=h, spec=spec, hs=hists, pid=pid: h.against_trace(spec, hs, label=pid, group=4))
        ctx.configs.add(("clang", header))
    # what is refused and what is accepted
    uses = {}
    while len(uses) < q(240, 3000):
        c = g["P33"].generate(rng)
        uses[repr(c)] = c
    jobs.append(lambda: Verdicts(ctx, "guards.hpp", g["P33"].code, g["P33"].shows, defs=["STDX_FREESTANDING"],
                                 includes=[DRIVERS + "/conc_stub"], cxx=clang).against_trace("TraceGuards", list(uses.values()), label="g"))
    ctx.configs.add(("clang", "guards.hpp"))
    ctx.parallel(jobs)
    ctx.require_ops(["push", "insert", "merge", "getins", "set_range", "shl", "flip", "pushb", "ins", "emplace", "transform", "access", "sub", "sat",
                     "pack", "rotl", "reduce", "read", "getref", "foldl", "cat", "sort", "filter", "need", "format", "lookup", "nthv", "able", "base", "enum",
                     "append", "bind", "panic"])
    ctx.assumptions += ["clang++ %s and g++ 13 at -O2, in C++23, both with libstdc++ 13" % os.path.basename(clang).split("-")[-1],
                        "conc/atomic.hpp is the stand-in in drivers/conc_stub and format strings use the library's own freestanding implementation"]
