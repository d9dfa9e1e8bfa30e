"""Machinery shared by every check: building drivers from /repo's working tree,
running TLC, walking TLC-generated state graphs against a driver, validating
recorded traces with TLC, and writing evidence.

Every event exchanged with a driver is (op, args) -> {"r": result, "o": observation}.
The specification side produces the same events: a model run (MC*.tla) prints every
transition as {"s": state, "e": event, "t": state}, and a trace run (Trace*.tla)
accepts a recorded event sequence or rejects it at an index.
"""
import collections
import json
import os
import random
import re
import select
import shutil
import signal
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("VERIF_WORK") or os.path.join(VERIF, "_work")
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
DRIVERS = os.path.join(VERIF, "drivers")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = os.environ.get("VERIF_CXX", "/usr/bin/g++")
BASE_FLAGS = ["-std=c++23", "-w", "-I" + os.path.join(REPO, "include"), "-I" + DRIVERS]
SAN = ["-O0", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-D_GLIBCXX_ASSERTIONS"]
JOBS = 8


class MachineryError(Exception):
    pass


class Found(Exception):
    """A violation: stops the check at once."""


class BuildBroken(Exception):
    def __init__(self, src, log):
        super().__init__(log)
        self.src, self.log = src, log


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Ctx:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.rng = random.Random(seed * 1000003 + int(pid[1:]))
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = os.path.join(WORK, pid)
        self.replays = os.path.join(WORK, "replays")
        if os.path.isdir(self.work):
            shutil.rmtree(self.work)
        os.makedirs(self.work)
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.transitions = self.traces = self.events = 0
        # graph transitions there were / replayed; answers compared with them; states of trace validation
        self.edges = self.walked = self.compared = self.trace_states = 0
        self.ops = collections.Counter()
        self.configs = set()
        self.samples = []
        self.assumptions = []
        self.notes = {}
        self.violations = []
        self.known = load_known()
        self._n = 0
        self.lock = threading.RLock()

    def parallel(self, jobs, width=6):
        """Run independent parts of a check concurrently; a violation wins over an error."""
        with ThreadPoolExecutor(width) as ex:
            futs = [ex.submit(j) for j in jobs]
            out, found, err = [], None, None
            for f in futs:
                try:
                    out.append(f.result())
                except Found as e:
                    found = found or e
                except Exception as e:
                    err = err or e
        if found:
            raise found
        if err:
            raise err
        return out

    def pick(self, q, t):
        return q if self.quick else t

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def uniq(self, stem):
        with self.lock:
            self._n += 1
            return os.path.join(self.work, "%s_%d" % (stem, self._n))

    # ---------------------------------------------------------------- violations
    def violation(self, what, replay, key=None):
        """Record a confirmed violation; known findings are reported and skipped."""
        key = key or what
        with self.lock:
            self._violation(what, replay, key)

    def _violation(self, what, replay, key):
        if self.violations:
            raise Found(what)
        for k in self.known:
            if k["property"] == self.pid and k["key"] and k["key"] in key:
                line = "KNOWN-FINDING: property=%s %s" % (self.pid, k["what"])
                if line not in self.notes.setdefault("known_findings", []):
                    self.notes["known_findings"].append(line)
                    print(line, flush=True)
                return
        path = os.path.join(self.replays, "%s_%d.json" % (self.pid, len(self.violations) + 1))
        replay = dict(replay, property=self.pid, what=what, key=key, seed=self.seed, tier=self.tier)
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        self.violations.append(what)
        print("violated:", what, flush=True)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        raise Found(what)

    # ---------------------------------------------------------------- building
    def compile(self, src, defs=(), name=None, flags=None, extra=(), includes=(), cxx=None):
        src = src if os.path.isabs(src) else os.path.join(DRIVERS, src)
        out = os.path.join(self.work, name or os.path.basename(src).rsplit(".", 1)[0])
        cmd = [cxx or CXX] + BASE_FLAGS + list(SAN if flags is None else flags) + \
            ["-I" + i for i in includes] + ["-D" + d for d in defs] + [src, "-o", out] + list(extra)
        for attempt in (1, 2):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace")
            if p.returncode == 0:
                return out
            if p.returncode < 0 or "Killed" in p.stdout or "internal compiler error" in p.stdout:
                if attempt == 2:
                    raise MachineryError("compiler died: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
                continue
            raise BuildBroken(src, "$ %s\n%s" % (" ".join(cmd), p.stdout))

    def build(self, units, bare):
        """units: list of dicts of compile() arguments. Builds in parallel.

        If a unit does not build although the bare headers do, uses of the public
        interface that were legal no longer compile: that is reported as a violation.
        """
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(lambda u=u: self.compile(**u)) for u in units]
            outs, broken = [], None
            for f in futs:
                try:
                    outs.append(f.result())
                except BuildBroken as b:
                    broken = broken or b
        if broken is None:
            return outs
        self.check_bare(bare, [i for u in units for i in u.get("includes", ())],
                        [d for u in units for d in u.get("defs", ())])
        errs = [l for l in broken.log.splitlines() if "error" in l][:6]
        self.violation("a legal use of the library does not compile: " + "; ".join(errs)[:600],
                       {"kind": "compile", "source": broken.src, "log": broken.log[-8000:]})
        raise Found("known finding stopped the build")

    def check_bare(self, bare, includes=(), defs=()):
        path = self.uniq("bare") + ".cpp"
        with open(path, "w") as f:
            f.write("".join("#include <stdx/%s>\n" % h for h in bare) + "int main() {}\n")
        try:
            self.compile(path, flags=["-O0", "-fsyntax-only"], includes=sorted(set(includes)),
                         defs=sorted(set(d for d in defs if d.startswith("STDX_"))))
        except BuildBroken as b:
            raise MachineryError("headers do not compile on their own:\n" + b.log[-3000:])

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, heap="3g", timeout=800, stack=None,
            collect=None, simulate=None):
        """Run TLC on specs/<module>.tla. Returns a dict; raises MachineryError unless TLC
        finished (successfully, or with a violated invariant / postcondition)."""
        meta = self.uniq("tlc")
        os.makedirs(meta)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap,
               "-Djava.io.tmpdir=" + meta]
        if stack:
            cmd.append("-Xss" + stack)
        cmd += ["-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
                "-config", (cfg or module) + ".cfg", "-nowarning"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd.append(module + ".tla")
        e = dict(os.environ, DIAG="0", TRACE="")
        e.update({k: str(v) for k, v in (env or {}).items()})
        p = subprocess.Popen(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, errors="replace")
        tail, prints = collections.deque(maxlen=400), []
        timer_end = time.time() + timeout
        for line in p.stdout:
            if line.startswith('"'):
                try:
                    s = json.loads(line)
                    if collect is not None:
                        collect(s)
                    else:
                        prints.append(s)
                    continue
                except json.JSONDecodeError:
                    pass
            if line.startswith(("Parsing file", "Semantic processing", "Linting of")):
                continue
            tail.append(line)
            if time.time() > timer_end:
                p.kill()
                p.wait()
                raise MachineryError("TLC timeout on %s" % module)
        p.wait()
        out = "".join(tail)
        shutil.rmtree(meta, ignore_errors=True)
        res = {"out": out, "prints": prints, "rc": p.returncode, "states": 0, "distinct": 0, "depth": 0}
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            res["states"], res["distinct"] = int(m[-1][0]), int(m[-1][1])
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            res["depth"] = int(m.group(1))
        res["ok"] = "No error has been found" in out and p.returncode == 0
        res["post_failed"] = bool(re.search(r"[Pp]ostcondition\s.*(is|was) (violated|false)", out)
                                  or "POSTCONDITION" in out and "violated" in out
                                  or "The postcondition" in out)
        res["inv_failed"] = bool(re.search(r"Invariant \S+ is violated|Temporal properties were violated"
                                           r"|Action property \S+ is violated|Assumption .* is false", out))
        return res

    def count(self, **kw):
        with self.lock:
            for k, n in kw.items():
                setattr(self, k, getattr(self, k) + n)

    def model(self, module, cfg=None, env=None, workers=4, **kw):
        """Check a model's own properties (invariants / laws); an error is an error of the model."""
        r = self.tlc(module, cfg, env, workers=workers, **kw)
        if not r["ok"]:
            raise MachineryError("model %s/%s: TLC did not finish cleanly\n%s" % (module, cfg, r["out"][-4000:]))
        if r["states"] == 0:
            raise MachineryError("model %s/%s explored nothing" % (module, cfg))
        self.count(states=r["distinct"], transitions=r["states"])
        self.log("model %s%s: %d states, %d transitions" % (module, "/" + cfg if cfg else "", r["distinct"], r["states"]))
        return r

    def graph(self, module, cfg=None, env=None, **kw):
        """Model-check and collect every transition the model takes."""
        g = Graph()

        def col(s):
            d = json.loads(s)
            g.add(d)
        self.model(module, cfg, env, workers=1, collect=col, **kw)
        if not g.nodes:
            raise MachineryError("model %s emitted no transitions" % module)
        self.log("graph %s: %d nodes, %d edges" % (module, len(g.nodes), g.nedges))
        return g

    def accepts(self, module, events, env=None, cfg=None, diag=False, **kw):
        """TLC trace validation: returns (True, None) or (False, index of first rejected event)."""
        path = self.uniq("trace") + ".ndjson"
        with open(path, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        r = self.tlc(module, cfg, dict(env or {}, TRACE=path, DIAG="1" if diag else "0"), workers=1, **kw)
        if diag:
            return r
        if r["ok"]:
            if r["depth"] - 1 < len(events):
                raise MachineryError("trace run of %s ended at depth %d of %d without an error"
                                     % (module, r["depth"], len(events)))
            self.count(trace_states=r["distinct"])
            return True, None
        if r["post_failed"] and r["depth"] >= 1:
            return False, r["depth"] - 1
        raise MachineryError("trace run of %s failed:\n%s" % (module, r["out"][-4000:]))

    # ---------------------------------------------------------------- conformance
    def check_trace(self, spec, exe, script, reset="new", env=None, run_env=None, timeout=120,
                    stack=None, label=None, heap="3g"):
        """Run a script of (op, args) through the driver and have TLC validate the recorded
        events. `reset` names the op that starts an independent history."""
        res = run_batch(exe, script, timeout, run_env)
        events = [{"op": o, "a": a, "r": e["r"], "o": e["o"]} for (o, a), e in zip(script, res.events)]
        for o, _ in script[:len(events)]:
            self.ops[o] += 1
        if res.failed:
            self._confirm_crash(spec, exe, script, len(res.events), res, reset, run_env)
        ok, idx = self.accepts(spec, events, env, stack=stack, heap=heap)
        if not ok:
            lo, hist = history(script, idx, reset)
            self.confirm(spec, exe, hist, reset, env, run_env, label)
            raise MachineryError("%s rejected event %d of a trace but not its isolated history" % (spec, idx))
        nh = sum(1 for o, _ in script if o == reset) or 1
        self.count(traces=nh, events=len(events))
        if len(self.samples) < 6:
            lo, hist = history(script, min(len(script) - 1, 7), reset)
            self.samples.append({"history": [[o] + list(a) for o, a in hist][:12],
                                 "last": events[min(len(events) - 1, 7)]})
        return events

    def steer(self, exe, gen, run_env=None):
        """Make a script online: gen yields (op, args) and is sent the driver's answer (None once
        the driver has died). Used where the legal next operations depend on earlier answers."""
        d = Interactive(exe, run_env)
        script = []
        try:
            item = next(gen)
            while True:
                script.append(item)
                ans = d.ask(*item)
                if ans is None:
                    break
                item = gen.send(ans)
        except StopIteration:
            pass
        finally:
            d.close()
        return script

    def confirm(self, spec, exe, hist, reset, env, run_env, label):
        for attempt in (1, 2):
            res = run_batch(exe, hist, 60, run_env)
            if res.failed:
                self._confirm_crash(spec, exe, hist, len(res.events), res, reset, run_env)
            ev = [{"op": o, "a": a, "r": e["r"], "o": e["o"]} for (o, a), e in zip(hist, res.events)]
            ok, idx = self.accepts(spec, ev, env)
            if ok:
                return
        r = self.accepts(spec, ev[:idx + 1], env, diag=True)
        exp = [p for p in r["out"].splitlines() if "EXPECTED" in p] + [p for p in r["prints"] if "EXPECTED" in p]
        self.violation("%s: the specification does not allow %s after %d earlier operations"
                       % (label or spec, canon(ev[idx])[:500], idx),
                       {"kind": "trace", "spec": spec, "script": hist[:idx + 1], "observed": ev[max(0, idx - 3):idx + 1],
                        "expected": exp[-3:]})

    def _confirm_crash(self, spec, exe, script, idx, res, reset, run_env):
        lo, hist = history(script, min(idx, len(script) - 1), reset)
        r2 = run_batch(exe, hist, 60, run_env)
        if not r2.failed:
            # state carried between histories could matter: repeat the whole script
            r2 = run_batch(exe, script, 300, run_env)
            hist = script[:idx + 1]
            if not r2.failed:
                raise MachineryError("driver failed once (%s) but not when repeated" % res.failed)
        if r2.machinery:
            raise MachineryError("driver problem: " + r2.failed)
        op = hist[len(r2.events)] if len(r2.events) < len(hist) else ("exit", [])
        self.violation("%s: driver %s at operation %s" % (spec, r2.failed.splitlines()[0][:300], canon(op)[:200]),
                       {"kind": "crash", "spec": spec, "script": hist[-200:], "log": r2.failed[-6000:]})

    def walk(self, g, exe, budget, run_env=None, nondet=(), spec="", max_hist=400):
        """On-the-fly conformance: steer the driver so that it takes every transition of the
        graph; every answer must be one the specification allows."""
        todo, rng = {}, random.Random(self.seed)
        for n, k in g.nodes.items():
            todo[n] = list(k)
            rng.shuffle(todo[n])
        total = left = sum(len(v) for v in todo.values())
        det = all(len(a) == 1 for k in g.nodes.values() for a in k.values())
        d = None if det else Interactive(exe, run_env)
        pending = []                    # (history start, key, expected answer) not yet run
        cur, hist, steps = g.root, [], 0
        plan = collections.deque()
        try:
            while left and steps < budget:
                if not plan and len(hist) > max_hist:
                    cur, hist = g.root, []
                if plan and plan[0][0] == cur:
                    key = plan.popleft()[1]
                elif todo[cur]:
                    plan.clear()
                    key = todo[cur][-1]
                else:
                    plan = g.path_to_todo(cur, todo)
                    if plan is None:
                        plan = collections.deque()
                        if cur == g.root:
                            break
                        cur, hist = g.root, []
                    continue
                if cur == g.root:
                    hist = []
                op, args = json.loads(key)
                hist.append((op, args))
                steps += 1
                self.ops[op] += 1
                alts = g.nodes[cur][key]
                if det:
                    ans, tgt = next(iter(alts.items()))
                    pending.append((op, args, ans))
                else:
                    ans = d.ask(op, args)
                    tgt = None if ans is None else alts.get(canon(ans))
                    if tgt is None:
                        self._confirm_walk(g, exe, hist, run_env, spec)
                        raise MachineryError("walk mismatch did not repeat: %s" % canon(hist[-3:]))
                if todo[cur] and todo[cur][-1] == key:
                    todo[cur].pop()
                    left -= 1
                elif key in todo[cur]:
                    todo[cur].remove(key)
                    left -= 1
                cur = tgt
        finally:
            if d:
                d.close()
        if det:
            roots = {json.dumps([o, a]) for o, a in (json.loads(k) for k in g.nodes[g.root])}
            res = run_batch(exe, [(o, a) for o, a, _ in pending], 300, run_env)
            bad = None
            for i, (p, e) in enumerate(zip(pending, res.events)):
                if canon(e) != p[2]:
                    bad = i
                    break
            if bad is None and res.failed:
                bad = min(len(res.events), len(pending) - 1)
            if bad is not None:
                lo = bad
                while lo > 0 and json.dumps([pending[lo][0], pending[lo][1]]) not in roots:
                    lo -= 1
                self._confirm_walk(g, exe, [(o, a) for o, a, _ in pending[lo:bad + 1]], run_env, spec)
                self._confirm_walk(g, exe, [(o, a) for o, a, _ in pending[:bad + 1]], run_env, spec)
                raise MachineryError("walk mismatch did not repeat: %s" % canon(pending[bad]))
        self.count(edges=total, walked=total - left, compared=steps)
        self.log("walk: %d of %d transitions covered in %d steps" % (total - left, total, steps))
        if len(self.samples) < 6:
            self.samples.append({"walk": [[o] + list(a) for o, a in hist][:12]})
        if total and (total - left) == 0:
            raise MachineryError("walk covered nothing")
        return total - left, total

    def _confirm_walk(self, g, exe, hist, run_env, spec):
        for attempt in (1, 2):
            d = Interactive(exe, run_env)
            cur, bad = g.root, None
            try:
                for i, (op, args) in enumerate(hist):
                    key = json.dumps([op, args])
                    if key in g.nodes[g.root]:
                        cur = g.root
                    ans = d.ask(op, args)
                    alts = g.nodes[cur].get(key)
                    if alts is None:
                        break
                    tgt = None if ans is None else alts.get(canon(ans))
                    if tgt is None:
                        bad = (i, ans, alts)
                        break
                    cur = tgt
            finally:
                d.close()
            if bad is None:
                return
        i, ans, alts = bad
        if ans is None:
            self.violation("%s: driver died or hung at operation %s: %s" % (spec, canon(hist[i])[:200], d.err()[:300]),
                           {"kind": "crash", "spec": spec, "script": hist[:i + 1], "log": d.err()})
        else:
            self.violation("%s: operation %s answered %s; the specification allows %s"
                           % (spec, canon(hist[i])[:200], canon(ans)[:400], canon(list(alts))[:400]),
                           {"kind": "walk", "spec": spec, "script": hist[:i + 1], "observed": ans,
                            "expected": [json.loads(a) for a in alts]})

    # ---------------------------------------------------------------- results
    def require_ops(self, names, least=1):
        missing = [n for n in names if self.ops[n] < least]
        if missing:
            raise MachineryError("operations never exercised: %s" % missing)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "events_validated": self.events,
               "trace_validation_states": self.trace_states,
               "spec_transitions_emitted": self.edges,
               "spec_transitions_replayed": self.walked,
               "answers_compared": self.compared,
               "operations": dict(sorted(self.ops.items())),
               "configurations": len(self.configs),
               "samples": self.samples or ["(none)"]}
        cov.update({k: v for k, v in self.notes.items()})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


# -------------------------------------------------------------------- graph
class Graph:
    def __init__(self):
        self.nodes, self.root, self.nedges = {}, None, 0

    def add(self, d):
        s, t = canon(d["s"]), canon(d["t"])
        if self.root is None:
            self.root = s
        e = d["e"]
        key = json.dumps([e["op"], e["a"]])
        alts = self.nodes.setdefault(s, {}).setdefault(key, {})
        ans = canon({"r": e["r"], "o": e["o"]})
        if ans not in alts:
            alts[ans] = t
            self.nedges += 1
        self.nodes.setdefault(t, {})

    def filter_root(self, keep):
        """The part of the graph behind the root operations that satisfy keep."""
        g = Graph()
        g.root = self.root
        g.nodes[self.root] = {k: v for k, v in self.nodes[self.root].items() if keep(k)}
        work = [t for v in g.nodes[self.root].values() for t in v.values()]
        while work:
            n = work.pop()
            if n not in g.nodes:
                g.nodes[n] = self.nodes[n]
                work += [t for v in self.nodes[n].values() for t in v.values()]
        return g

    def path_to_todo(self, start, todo):
        prev, q, seen = {}, collections.deque([start]), {start}
        while q:
            n = q.popleft()
            if todo[n] and n != start:
                path = collections.deque()
                while n != start:
                    p, k = prev[n]
                    path.appendleft((p, k))
                    n = p
                return path
            for k, alts in self.nodes[n].items():
                for t in alts.values():
                    if t not in seen:
                        seen.add(t)
                        prev[t] = (n, k)
                        q.append(t)
        return None


def history(script, idx, reset):
    lo = idx
    while lo > 0 and script[lo][0] != reset:
        lo -= 1
    return lo, script[lo:idx + 1]


# -------------------------------------------------------------------- drivers
def encode(op, args):
    out = [op]

    def put(a):
        if isinstance(a, bool):
            out.append("1" if a else "0")
        elif isinstance(a, (list, tuple)):
            out.append(str(len(a)))
            for x in a:
                put(x)
        else:
            out.append(str(a))
    for a in args:
        put(a)
    return " ".join(out) + "\n"


class Batch:
    pass


def driver_env(run_env):
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
             UBSAN_OPTIONS="print_stacktrace=0:exitcode=77", LSAN_OPTIONS="exitcode=77")
    e.update(run_env or {})
    return e


def run_batch(exe, script, timeout=120, run_env=None):
    cmd = exe if isinstance(exe, list) else [exe]
    res = Batch()
    res.machinery = False
    data = "".join(encode(o, a) for o, a in script)
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", env=driver_env(run_env))
    try:
        out, err = p.communicate(data, timeout=timeout)
        hung = False
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        hung = True
    res.events = []
    for line in out.splitlines():
        try:
            res.events.append(json.loads(line))
        except json.JSONDecodeError:
            break
    res.failed = None
    if hung:
        res.failed = "did not finish within %d s" % timeout
    elif p.returncode == 3:
        res.failed, res.machinery = "protocol error: " + err[-500:], True
    elif p.returncode != 0:
        res.failed = "exited with %d: %s" % (p.returncode, first_error(err)) + "\n" + err[-5000:]
    elif len(res.events) != len(script):
        res.failed, res.machinery = "answered %d of %d operations\n%s" % (len(res.events), len(script), err[-500:]), True
    if res.machinery:
        raise MachineryError("driver %s: %s" % (cmd[0], res.failed))
    return res


def first_error(err):
    for l in err.splitlines():
        if "runtime error" in l or "ERROR:" in l or "Assertion" in l or "terminate called" in l or "what():" in l:
            return l.strip()[:300]
    return err.strip()[-200:].replace("\n", " ")


class Interactive:
    def __init__(self, exe, run_env=None, timeout=20):
        cmd = exe if isinstance(exe, list) else [exe]
        self.errf = open(os.path.join(WORK, "driver_%d_%d.err" % (os.getpid(), threading.get_ident())), "w+")
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=driver_env(run_env))
        self.fd = self.p.stdout.fileno()
        self.buf = b""
        self.last_err = None
        self.timeout = timeout
        self.poll = select.poll()
        self.poll.register(self.fd, select.POLLIN | select.POLLHUP)

    def ask(self, op, args):
        try:
            self.p.stdin.write(encode(op, args).encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return None
        end = time.time() + self.timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not self.poll.poll(left * 1000):
                return None
            chunk = os.read(self.fd, 1 << 16)
            if not chunk:
                self.p.wait()
                if self.p.returncode == 3:
                    raise MachineryError("driver protocol error: " + self.err())
                return None
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def err(self):
        if self.last_err is not None:
            return self.last_err
        try:
            with open(self.errf.name) as f:
                e = f.read()
            return (first_error(e) + "\n" + e[-4000:]) if e else "(no message)"
        except OSError:
            return ""

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.last_err = self.err()
        self.errf.close()
        try:
            os.remove(self.errf.name)
        except OSError:
            pass


# -------------------------------------------------------------------- known findings
def load_known():
    """known: property=<id> key=<substring of the violation text> :: <what fails>
    'fixed:' lines are history and suppress nothing."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", l.strip())
            if m:
                out.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return out


def main(argv):
    import importlib.util
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    path = os.path.join(VERIF, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, path)
    mod = importlib.util.module_from_spec(spec)
    ctx = Ctx(pid, tier, seed)
    if "--replay" in argv:
        os.environ["VERIF_REPLAY"] = argv[argv.index("--replay") + 1]
    try:
        spec.loader.exec_module(mod)
        mod.run(ctx)
        ctx.finish()
    except Found:
        ctx.finish()
        return 1 if ctx.violations else 0
    except MachineryError as e:
        print("ERROR of the check %s: %s" % (pid, e), flush=True)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        print("ERROR of the check %s" % pid, flush=True)
        return 2
    ctx.log("held: %d states, %d transitions, %d histories, %d events" % (ctx.states, ctx.transitions, ctx.traces, ctx.events))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(ctx.work, ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
