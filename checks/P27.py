"""P27: panics reach the installed handler once, against Panics.tla."""
import json

from calls import given, vals
from cases import Histories

OPS = {"qpush": "st.q.push(%d)", "qpop": "return st.q.pop()", "qpeek": "return %sst.q.front()", "qclear": "st.q.clear()",
       "lfront": "st.l.push_front(&st.d[%d - 1])", "lback": "st.l.push_back(&st.d[%d - 1])",
       "lins": "st.l.insert(st.at(%(p)d), &st.d[%(n)d - 1])", "lrm": "st.l.remove(&st.d[%d - 1])",
       "lpopb": "return st.l.pop_back()->id", "lclear": "st.l.clear()",
       "ffront": "st.f.push_front(&st.s[%d - 1])", "fback": "st.f.push_back(&st.s[%d - 1])",
       "fpop": "return st.f.pop_front()->id", "fclear": "st.f.clear()"}
TAGS = {0: "", 1: "pn::T1", 2: "pn::T2", 3: "pn::T1, pn::T2"}


def code(h):
    out = ["pn::state<%d> st; pn::throws = false; auto none = [] { return std::string{\"[]\"}; };" % h[0][1][1]]
    for n, (op, a) in enumerate(h):
        if op == "new":
            out.append("pn::step(st, [] {}, none);")
        elif op == "mode":
            out.append("pn::throws = %s; pn::step(st, [] {}, none);" % ("true" if a[0] else "false"))
        elif op == "panic":
            tag, via, msg, xs = a
            ss = [("x%d_%d" % (n, i), x[2]) for i, x in enumerate(xs)]
            out += ["auto %s = tv::mk<'%s'>(%d);" % (s, x[0], x[1]) for (s, _), x in zip(ss, xs)]
            args = ", ".join(given(s, c) for s, c in ss)
            m = json.dumps(msg)
            if via == 0:
                call = "stdx::panic%s(%s)" % ("<%s>" % TAGS[tag] if tag else "", args)
            elif via == 1:
                call = "stdx::panic<%s%s>(%s)" % (m if n % 2 else "stdx::ct_string{%s}" % m, ", " + TAGS[tag] if tag else "", args)
            else:
                call = "STDX_PANIC(%s%s)" % (m, ", " + args if args else "")
            out.append("pn::step(st, [&] { %s; }, [&] { return %s; });" % (call, vals([(s, "l") for s, _ in ss])))
        else:
            t = OPS[op]
            if op == "lins":
                t = t % {"n": a[0], "p": a[1]}
            elif op == "qpeek":
                t = "return %s" % ("st.q.front()" if n % 2 else "std::as_const(st.q).front()")
            elif "%d" in t:
                t = t % a[0]
            if "return" in t:
                out.append("pn::step(st, [&] { %s; }, none);" % t)
            else:
                out.append("pn::step(st, [&] { %s; }, none);" % t)
    return "\n".join(out)


def hists(rng, n, inst):
    out = []
    for _ in range(n):
        cap = rng.choice([1, 2, 3, 3])
        h = [("new", [inst, cap])]
        th, q, l, f = 0, 0, [], []

        def arg():
            c = rng.choice("lcr")
            return [rng.choice("ABCSIM" if c == "r" else "ABCSI"), rng.randint(1, 90), c]
        for _ in range(rng.randint(10, 25)):
            bad = inst and th
            op = rng.choice(["mode", "panic", "panic", "qpush", "qpush", "qpop", "qpeek", "qclear", "lfront", "lback", "lins", "lrm",
                             "lpopb", "lclear", "ffront", "fback", "fpop", "fclear"])
            if op.endswith("clear") and rng.random() < 0.6:
                continue
            k = rng.randint(1, 3)
            if op == "mode":
                th = rng.randint(0, 1) if rng.random() < 0.3 else 1
                h.append((op, [th]))
            elif op == "panic":
                via = rng.randint(0, 2)
                tag = rng.randint(0, 3) if via < 2 else 0
                msg = "" if via == 0 else "".join(rng.choice("ab %{}!#'") for _ in range(rng.randint(0, 12)))
                h.append((op, [tag, via, msg, [arg() for _ in range(rng.randint(0, 5))]]))
            elif op == "qpush":
                if q < cap:
                    q += 1
                elif not bad:
                    continue
                h.append((op, [rng.randint(0, 99)]))
            elif op in ("qpop", "qpeek"):
                if q:
                    q -= op == "qpop"
                elif not bad:
                    continue
                h.append((op, []))
            elif op == "qclear":
                q = 0
                h.append((op, []))
            elif op in ("lfront", "lback", "lins"):
                p = rng.randint(0, len(l))
                if k in l:
                    if not bad or len(l) < 2:
                        continue
                elif op == "lfront":
                    l.insert(0, k)
                elif op == "lback":
                    l.append(k)
                else:
                    l.insert(p, k)
                h.append((op, [k, p] if op == "lins" else [k]))
            elif op == "lrm":
                if k in l:
                    l.remove(k)
                    h.append((op, [k]))
            elif op == "lpopb":
                if l:
                    l.pop()
                    h.append((op, []))
            elif op in ("lclear", "fclear"):
                (l if op == "lclear" else f).clear()
                h.append((op, []))
            elif op in ("ffront", "fback"):
                if k in f:
                    if not bad or f[-1] == k:
                        continue
                elif op == "ffront":
                    f.insert(0, k)
                else:
                    f.append(k)
                h.append((op, [k]))
            elif op == "fpop":
                if f:
                    f.pop(0)
                    h.append((op, []))
        out.append(h)
    return out


def run(ctx):
    bare = ["panic.hpp", "cx_queue.hpp", "intrusive_list.hpp", "intrusive_forward_list.hpp", "utility.hpp"]
    for inst in (1, 0):
        k = Histories(ctx, '#include "panicking.hpp"\n', code, bare, defs=[] if inst else ["NO_HANDLER"])
        k.against_model(ctx.graph("MCPanics", "MCPanics%d" % inst), "MCPanics", ctx.pick(60, 400), 40, label="m%d" % inst, group=8)
        k.against_trace("TracePanics", hists(ctx.rng, ctx.pick(80 if inst else 16, 500), inst), label="t%d" % inst, group=8)
    ctx.require_ops(["panic", "qpush", "qpop", "lfront", "lins", "fback", "mode"], 20)
