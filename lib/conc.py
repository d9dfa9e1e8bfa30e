"""Concurrent programs: every schedule of the real code is recorded and TLC decides whether
each history is linearizable with respect to the sequential specification."""
import json
import vf


def check(ctx, spec, exe, progs, limit=4000, chunk=2500):
    """progs: list of (driver arguments before the limit, init event argument, threads) where
    threads is a list of lists of (op, args)."""
    script = [("prog", list(pre) + [limit] + [[[[o, a] for o, a in t] for t in th]]) for pre, _, th in progs]
    res = vf.run_batch(exe, script, 300)
    if res.failed:
        ctx._confirm_crash(spec, exe, script, len(res.events), res, "prog", None)
    jobs = []
    for lo in range(0, len(progs), chunk):
        jobs.append(lambda lo=lo: part(ctx, spec, exe, script, progs, res.events, lo, min(lo + chunk, len(progs))))
    ctx.parallel(jobs)


def events_of(prog, answer):
    out = []
    for h in answer["r"]:
        out.append({"op": "init", "a": prog[1], "r": [], "mo": []})
        for e in h:
            out.append({"op": e["op"], "a": e["a"], "r": e.get("r", []), "mo": e.get("mo", [])})
    return out


def part(ctx, spec, exe, script, progs, answers, lo, hi):
    trace, where = [], []
    for k in range(lo, hi):
        ev = events_of(progs[k], answers[k])
        with ctx.lock:
            for o, _ in [c for t in progs[k][2] for c in t]:
                ctx.ops[o] += 1
            ctx.traces += len(answers[k]["r"])
            ctx.notes["schedules_run"] = ctx.notes.get("schedules_run", 0) + answers[k]["o"]
            cut = answers[k]["o"] >= script[k][1][-2]
            ctx.notes["programs_cut_at_limit"] = ctx.notes.get("programs_cut_at_limit", 0) + cut
            ctx.events += len(ev)
        trace += ev
        where += [k] * len(ev)
    ok, idx = ctx.accepts(spec, trace)
    if ok:
        return
    k = where[idx]
    for _ in (1, 2):
        again = vf.run_batch(exe, [script[k]], 60)
        if again.failed:
            ctx._confirm_crash(spec, exe, [script[k]], 0, again, "prog", None)
        ev = events_of(progs[k], again.events[0])
        ok, j = ctx.accepts(spec, ev)
        if ok:
            raise vf.MachineryError("%s rejected a program once but not when repeated" % spec)
    start = max(x for x in range(j + 1) if ev[x]["op"] == "init")
    r = ctx.accepts(spec, ev[start:j + 1], diag=True)
    exp = [p for p in r["out"].splitlines() if "EXPECTED" in p]
    hist = [[e["op"]] + e["a"] + ([e["r"], {"order": e["mo"]}] if e["op"] == "ret" else []) for e in ev[start:j + 1]]
    ctx.violation("%s: history %s has no linearization" % (spec, json.dumps(hist)[:700]),
                  {"kind": "schedule", "spec": spec, "program": script[k], "history": hist, "expected": exp[-6:]})
