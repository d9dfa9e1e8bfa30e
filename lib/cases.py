"""Conformance for behaviour fixed at compile time: every case (op, args) becomes a C++ function
that makes the call on the real library and prints the event. The cases come from a TLC model
(which also gives the answers the specification allows) or from a seeded generator (whose recorded
events TLC then accepts or rejects)."""
import collections
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

from vf import BuildBroken, MachineryError, Found, canon, driver_env, first_error, JOBS
import json


class Cases:
    def __init__(self, ctx, prelude, code, bare, flags=None, defs=(), cxx=None):
        """prelude: C++ text put first in every source; code(op, args) -> C++ statements."""
        self.ctx, self.prelude, self.code, self.bare, self.cxx = ctx, prelude, code, bare, cxx
        self.flags, self.defs = flags, list(defs)

    def _source(self, part):
        out = ["#include \"drv.hpp\"\n", self.prelude, "\n"]
        for n, (op, a) in part:
            out.append("static void case_%d() {\n#line 1 \"case_%d\"\n%s\n}\n" % (n, n, self.code(op, a)))
        out.append("int main() {\n")
        out += ["case_%d();\n" % n for n, _ in part]
        out.append("}\n")
        return "".join(out)

    def _compile(self, name, part):
        src = os.path.join(self.ctx.work, name + ".cpp")
        with open(src, "w") as f:
            f.write(self._source(part))
        return self.ctx.compile(src, name=name, flags=self.flags, defs=self.defs, cxx=self.cxx)

    def run(self, cases, label, group=60):
        """Compile and run every case; returns the events in order."""
        cases = list(cases)
        # shuffle into groups of similar cost
        n = max(1, -(-len(cases) // group))
        parts = [[(i, cases[i]) for i in range(k, len(cases), n)] for k in range(n)]
        events = [None] * len(cases)

        def one(k):
            part = parts[k]
            try:
                exe = self._compile("%s_%d" % (label, k), part)
            except BuildBroken as b:
                self._broken(b, part)
                raise
            res = self._exec(exe)
            if res[1]:
                i, (op, a) = part[min(len(res[0]), len(part) - 1)]
                again = self._exec(exe)
                if not again[1]:
                    raise MachineryError("case %s %s failed once only: %s" % (op, a, res[1]))
                self.ctx.violation("%s %s: %s" % (op, canon(a), res[1][:400]),
                                   {"kind": "case", "op": op, "args": a, "source": self.code(op, a), "error": res[1]})
            for (i, (op, a)), e in zip(part, res[0]):
                events[i] = {"op": op, "a": a, "r": e["r"], "o": e["o"]}
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(one, k) for k in range(n)]
            err = None
            for f in futs:
                try:
                    f.result()
                except Found:
                    raise
                except Exception as e:
                    err = err or e
        if err:
            raise err
        for op, _ in cases:
            self.ctx.ops[op] += 1
        return events

    def _broken(self, b, part):
        self.ctx.check_bare(self.bare, defs=self.defs)
        guilty = None
        for n, (op, a) in part:
            if "case_%d:" % n in b.log:
                guilty = (op, a)
                break
        errs = [l for l in b.log.splitlines() if "error" in l][:4]
        what = "a legal use of the library does not compile"
        if guilty:
            what += " (%s %s)" % (guilty[0], canon(guilty[1]))
        self.ctx.violation(what + ": " + "; ".join(errs)[:500],
                           {"kind": "compile", "source": self.code(*guilty) if guilty else b.src, "log": b.log[-8000:]})

    def _exec(self, exe):
        p = subprocess.Popen([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                             env=driver_env(None))
        try:
            out, err = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            return self._parse(out), "did not finish within 60 s"
        ev = self._parse(out)
        if p.returncode == 3:
            raise MachineryError("case protocol error: " + err[-500:])
        if p.returncode != 0:
            return ev, "exited with %d: %s" % (p.returncode, first_error(err))
        return ev, None

    @staticmethod
    def _parse(out):
        ev = []
        for l in out.splitlines():
            try:
                ev.append(json.loads(l))
            except json.JSONDecodeError:
                break
        return ev

    # ------------------------------------------------------------ the two directions
    def against_model(self, module, limit=None, label="m", group=60, cfg=None):
        """Every case the model enumerates, compared with the answers it allows."""
        g = self.ctx.graph(module, cfg)
        allowed, order = {}, []
        for n, out in g.nodes.items():
            for key, alts in out.items():
                op, a = json.loads(key)
                if op == "new":
                    continue
                if key not in allowed:
                    allowed[key] = set()
                    order.append((op, a))
                allowed[key] |= set(alts)
        total = len(order)
        if limit and total > limit:
            # a random sample in which every operation keeps a share
            self.ctx.rng.shuffle(order)
            least, seen, kept, rest = limit // (2 * len({op for op, _ in order})), collections.Counter(), [], []
            for c in order:
                seen[c[0]] += 1
                (kept if seen[c[0]] <= least else rest).append(c)
            order = kept + rest[:limit - len(kept)]
        events = self.run(order, label, group)
        for e in events:
            may = allowed[json.dumps([e["op"], e["a"]])]
            if canon({"r": e["r"], "o": e["o"]}) not in may:
                self.ctx.violation("%s: %s gave %s / %s; the specification allows %s" %
                                   (module, canon([e["op"], e["a"]]), canon(e["r"]), canon(e["o"]),
                                    "; ".join(sorted(may)[:3])[:600]),
                                   {"kind": "case", "op": e["op"], "args": e["a"], "got": [e["r"], e["o"]],
                                    "allowed": sorted(may)[:20], "source": self.code(e["op"], e["a"])})
        self.ctx.count(edges=total, walked=len(order), compared=len(events))
        self.ctx.log("cases: %d of the %d calls of %s made" % (len(order), total, module))
        if len(self.ctx.samples) < 6 and events:
            self.ctx.samples.append({"case": events[len(events) // 2]})

    def against_trace(self, spec, cases, label="t", group=60, cfg=None):
        """Seeded cases; TLC decides."""
        events = self.run(cases, label, group)
        first = {"op": "new", "a": [], "r": [], "o": []}
        todo, base = events, 0
        ok, idx = self.ctx.accepts(spec, [first] + todo, cfg=cfg)
        if not ok:
            e = todo[idx - 1]
            ok2, _ = self.ctx.accepts(spec, [first, e], cfg=cfg)
            if ok2:
                raise MachineryError("%s rejected case %d but not in isolation" % (spec, idx))
            diag = self.ctx.accepts(spec, [first, e], cfg=cfg, diag=True)
            exp = [l for l in diag["out"].splitlines() if "EXPECTED" in l][-1:]
            self.ctx.violation("%s: %s gave %s / %s; the specification does not allow it" %
                               (spec, canon([e["op"], e["a"]]), canon(e["r"]), canon(e["o"])),
                               {"kind": "case", "op": e["op"], "args": e["a"], "got": [e["r"], e["o"]],
                                "expected": exp, "source": self.code(e["op"], e["a"])})
        self.ctx.count(traces=len(cases), events=len(events))
        if len(self.ctx.samples) < 6 and events:
            self.ctx.samples.append({"case": events[len(events) // 2]})


class Histories(Cases):
    """Histories of a state machine whose operations happen at compile time (or must be compiled one by one):
    code(history) -> C++ statements that print one event per operation. A history starts with "new"."""

    def _source(self, part):
        out = ["#include \"drv.hpp\"\n", self.prelude, "\n"]
        for n, h in part:
            c = self.code(h)
            head, body = c if isinstance(c, tuple) else ("", c)
            out.append("%s\nstatic void case_%d() {\n#line 1 \"case_%d\"\n%s\n}\n" % (head.replace("@", str(n)), n, n, body.replace("@", str(n))))
        out.append("int main() {\n")
        out += ["case_%d();\n" % n for n, _ in part]
        out.append("}\n")
        return "".join(out)

    def _broken(self, b, part):
        self.ctx.check_bare(self.bare, defs=self.defs)
        guilty = None
        for n, h in part:
            if "case_%d:" % n in b.log:
                guilty = h
                break
        errs = [l for l in b.log.splitlines() if "error" in l][:4]
        what = "a legal use of the library does not compile"
        if guilty:
            what += " (%s)" % canon(guilty)[:300]
        self.ctx.violation(what + ": " + "; ".join(errs)[:500],
                           {"kind": "compile", "history": guilty, "log": b.log[-8000:]})

    def run(self, hists, label, group=20):
        n = max(1, -(-len(hists) // group))
        parts = [[(i, hists[i]) for i in range(k, len(hists), n)] for k in range(n)]
        events = [None] * len(hists)

        def one(k):
            part = parts[k]
            try:
                exe = self._compile("%s_%d" % (label, k), part)
            except BuildBroken as b:
                self._broken(b, part)
                raise
            ev, err = self._exec(exe)
            if err:
                again = self._exec(exe)
                if not again[1]:
                    raise MachineryError("histories failed once only: %s" % err)
                seen = 0
                for i, h in part:
                    if seen + len(h) > len(ev):
                        break
                    seen += len(h)
                self.ctx.violation("%s: %s" % (canon(h)[:300], err[:400]), {"kind": "history", "script": h, "error": err})
            if len(ev) != sum(len(h) for _, h in part):
                raise MachineryError("histories gave %d events" % len(ev))
            at = 0
            for i, h in part:
                events[i] = [{"op": o, "a": a, "r": e["r"], "o": e["o"]} for (o, a), e in zip(h, ev[at:at + len(h)])]
                at += len(h)
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(one, k) for k in range(n)]
            err = None
            for f in futs:
                try:
                    f.result()
                except Found:
                    raise
                except Exception as e:
                    err = err or e
        if err:
            raise err
        for h in hists:
            for op, _ in h:
                self.ctx.ops[op] += 1
        return events

    def against_model(self, g, spec, limit, length=20, label="m", group=20):
        """Walks over the transitions of the graph; every answer must be one the specification allows.
        Only for graphs in which the specification fixes every answer."""
        rng = self.ctx.rng
        todo = {n: rng.sample(list(k), len(k)) for n, k in g.nodes.items()}
        total = left = sum(len(v) for v in todo.values())
        hists, expect = [], []
        while left and len(hists) < limit:
            cur, h, e = g.root, [], []
            while len(h) < length:
                if todo[cur]:
                    key = todo[cur].pop()
                    left -= 1
                else:
                    path = g.path_to_todo(cur, todo)
                    if path is None or len(h) + len(path) > length + 10:
                        break
                    while len(path):
                        n, key = path.popleft()
                        (ans, tgt), = g.nodes[n][key].items()
                        h.append(json.loads(key))
                        e.append(ans)
                        cur = tgt
                    continue
                (ans, tgt), = g.nodes[cur][key].items()
                h.append(json.loads(key))
                e.append(ans)
                cur = tgt
            if not h:
                break
            hists.append(h)
            expect.append(e)
        for h, evs, exp in zip(hists, self.run(hists, label, group), expect):
            for i, (e, x) in enumerate(zip(evs, exp)):
                if canon({"r": e["r"], "o": e["o"]}) != x:
                    self.ctx.violation("%s: operation %s answered %s; the specification requires %s" %
                                       (spec, canon([e["op"], e["a"]])[:200], canon({"r": e["r"], "o": e["o"]})[:300], x[:300]),
                                       {"kind": "history", "spec": spec, "script": h[:i + 1],
                                        "observed": [e["r"], e["o"]], "expected": x})
        self.ctx.count(edges=total, walked=total - left, compared=sum(map(len, hists)))
        self.ctx.log("histories: %d of the %d transitions of %s in %d histories" % (total - left, total, spec, len(hists)))
        if len(self.ctx.samples) < 6 and hists:
            self.ctx.samples.append({"history": hists[-1][:12]})

    def against_trace(self, spec, hists, label="t", group=20):
        """Seeded histories; TLC decides."""
        evs = self.run(hists, label, group)
        ok, idx = self.ctx.accepts(spec, [e for h in evs for e in h])
        if not ok:
            for h, e in zip(hists, evs):
                if idx < len(e):
                    break
                idx -= len(e)
            ok2, _ = self.ctx.accepts(spec, e[:idx + 1])
            if ok2:
                raise MachineryError("%s rejected a history but not in isolation" % spec)
            diag = self.ctx.accepts(spec, e[:idx + 1], diag=True)
            exp = [l for l in diag["out"].splitlines() if "EXPECTED" in l][-1:]
            self.ctx.violation("%s: %s gave %s / %s; the specification does not allow it after %s" %
                               (spec, canon([e[idx]["op"], e[idx]["a"]]), canon(e[idx]["r"]), canon(e[idx]["o"])[:200],
                                canon(h[:idx])[-300:]),
                               {"kind": "history", "spec": spec, "script": h[:idx + 1],
                                "observed": [e[idx]["r"], e[idx]["o"]], "expected": exp})
        self.ctx.count(traces=len(hists), events=sum(map(len, hists)))
