"""P06: singly-linked intrusive lists against IList.tla."""
from ilist import histories


def run(ctx):
    exe, = ctx.build([dict(src="ilist.cpp")], ["intrusive_list.hpp", "intrusive_forward_list.hpp"])
    s1 = histories(ctx.rng, [1, 2], [0, 1], 0, ctx.pick(25, 150), ctx.pick(80, 200), False)
    ctx.parallel([
        lambda: ctx.walk(ctx.graph("MCIList", "MCIListF"), exe, ctx.pick(50000, 10 ** 6), spec="IList"),
        lambda: ctx.walk(ctx.graph("MCIList", "MCIListFDirty"), exe, 10 ** 6, spec="IList"),
        lambda: ctx.check_trace("TraceIList", exe, s1)])
    ctx.configs.update((k, p) for k in ("one link", "two links") for p in ("checked", "unchecked"))
    ctx.require_ops(["pushf", "pushb", "popf", "clear", "dirty"], 20)
    ctx.assumptions += ["a node is in at most one list at a time; pops happen on non-empty lists"]
