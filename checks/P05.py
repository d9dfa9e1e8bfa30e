"""P05: doubly-linked intrusive lists against IList.tla."""
from ilist import histories


def run(ctx):
    exe, = ctx.build([dict(src="ilist.cpp")], ["intrusive_list.hpp", "intrusive_forward_list.hpp"])
    s1 = histories(ctx.rng, [0], [0, 1], 0, ctx.pick(30, 200), ctx.pick(80, 200), False)
    s2 = histories(ctx.rng, [0], [1], 0, ctx.pick(30, 200), ctx.pick(80, 200), False)
    ctx.parallel([
        lambda: ctx.walk(ctx.graph("MCIList", "MCIListD"), exe, ctx.pick(50000, 10 ** 6), spec="IList"),
        lambda: ctx.walk(ctx.graph("MCIList", "MCIListDirty"), exe, 10 ** 6, spec="IList"),
        lambda: ctx.check_trace("TraceIList", exe, s1),
        lambda: ctx.check_trace("TraceIList", exe, s2)])
    ctx.configs.update([("list", "checked"), ("list", "unchecked")])
    ctx.require_ops(["pushf", "pushb", "ins", "popf", "popb", "rm", "clear", "dirty"], 20)
    ctx.assumptions += ["a node is in at most one list at a time; pops and removals name present elements"]
