"""P07: checked and unchecked node policies of both intrusive lists against IList.tla."""
from ilist import histories


def run(ctx):
    exe, = ctx.build([dict(src="ilist.cpp")], ["intrusive_list.hpp", "intrusive_forward_list.hpp"])
    s1 = histories(ctx.rng, [0, 1, 2], [0], 1, ctx.pick(30, 200), ctx.pick(90, 200), True)
    s2 = histories(ctx.rng, [0, 1, 2], [1], 1, ctx.pick(12, 100), ctx.pick(90, 200), True)
    ctx.parallel([
        lambda: ctx.walk(ctx.graph("MCIList", "MCIListC"), exe, ctx.pick(50000, 10 ** 6), spec="IList"),
        lambda: ctx.walk(ctx.graph("MCIList", "MCIListCDirty"), exe, ctx.pick(50000, 10 ** 6), spec="IList"),
        lambda: ctx.check_trace("TraceIList", exe, s1),
        lambda: ctx.check_trace("TraceIList", exe, s2)])
    ctx.configs.update((k, p) for k in ("list", "forward list", "forward list, two links") for p in ("checked", "unchecked"))
    ctx.require_ops(["pushf", "pushb", "ins", "popf", "popb", "rm", "clear", "dirty"], 20)
    ctx.assumptions += ["the panic handler leaves the operation by throwing",
                        "the only member of a one-element list carries no link, so adding it again is not detectable and not tried"]
