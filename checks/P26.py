"""P26: binders and other callable adaptors against Callables.tla."""
from calls import given, ints, vals
from cases import Histories

TYPE = {"l": "%s &", "c": "%s const &", "r": "%s &&", "x": "%s const &&"}


def code(h):
    out, n = [], 0
    srcs, binder = [], None
    for op, a in h:
        n += 1
        r, o = '"[]"', '"[]"'
        if op == "bind":
            kind, take, ret, xs = a
            srcs = [("s%d_%d" % (n, i), x[2]) for i, x in enumerate(xs)]
            out += ["auto %s = tv::mk<'%s'>(%d);" % (s, x[0], x[1]) for (s, _), x in zip(srcs, xs)]
            binder = "b%d" % n
            bs = [given(s, c) for s, c in srcs]
            f = "ca::fn<%d, %d>{}" % (take, ret)
            name = "bind_front" if kind in (1, 3) else "bind_back"
            if kind <= 2:
                out.append("auto %s = stdx::%s(%s);" % (binder, name, ", ".join([f] + bs)))
            else:
                out.append("auto %s = stdx::%s<%s>(%s);" % (binder, name, f, ", ".join(bs)))
            o = vals(srcs)
        elif op == "poke":
            out.append("%s = std::decay_t<decltype(%s)>{%d};" % (srcs[a[0] - 1][0], srcs[a[0] - 1][0], a[1]))
            o = vals(srcs)
        elif op == "copy":
            out.append("auto b%d = %s;" % (n, binder if a[0] == 0 else "std::move(%s)" % binder))
            binder = "b%d" % n
            o = vals(srcs)
        elif op == "call":
            cat, xs = a
            ss = [("x%d_%d" % (n, i), x[2]) for i, x in enumerate(xs)]
            out += ["auto %s = tv::mk<'%s'>(%d);" % (s, x[0], x[1]) for (s, _), x in zip(ss, xs)]
            out.append("auto const r%d = ca::call([&]() -> decltype(auto) { return %s(%s); });" %
                       (n, given(binder, cat), ", ".join(given(s, c) for s, c in ss)))
            r = "r%d" % n
            o = '"[" + %s + "," + %s + "]"' % (vals(srcs), vals(ss))
        elif op == "batch":
            k, look, xs = a
            ss = [("x%d_%d" % (n, i), x[2]) for i, x in enumerate(xs)]
            out += ["auto %s = tv::mk<'%s'>(%d);" % (s, x[0], x[1]) for (s, _), x in zip(ss, xs)]
            args = "".join(", " + given(s, c) for s, c in ss)
            out.append("ca::batches.clear();")
            if look:
                out.append("stdx::for_each_n_args<%d>([](auto &&...xs) { ca::batches.push_back(tv::join({ca::seen(FWD(xs))...})); }%s);" % (k, args))
            else:
                ps = ", ".join("auto const &x%d" % i if False else "tv::ty<'%s'> const &x%d" % (xs[i][0] if xs else "A", i) for i in range(k))
                out.append("{ auto f = [](%s) { ca::batches.push_back(tv::join({%s})); }; stdx::for_each_n_args(%s%s); }" %
                           (ps, ", ".join("ca::seen(x%d)" % i for i in range(k)), "f" if n % 2 else "std::move(f)", args))
            r = "tv::join(ca::batches)"
        elif op == "lazy":
            k, const = a
            out.append("std::string r%d; { int calls = 0;" % n)
            # the function cannot be copied, and a mutable one counts in itself
            fn = "[&calls, own = std::make_unique<int>(0)] { return tv::el<'A'>{++calls}; }"
            if not const:
                fn = "[&calls, own = std::make_unique<int>(0), n = 0]() mutable { ++calls; return tv::el<'A'>{++n}; }"
            out.append("auto %s w = stdx::with_result_of{%s}; std::vector<std::string> v; auto const before = calls;" % ("const" if const else "", fn))
            for i in range(k):
                out.append(["{ tv::el<'A'> e = w; v.push_back(std::to_string(e.v)); }",
                            "{ std::optional<tv::el<'A'>> e; e.emplace(w); v.push_back(std::to_string(e->v)); }"][i % 2])
            out.append('r%d = "[" + std::to_string(before) + "," + tv::join(v) + "," + std::to_string(calls) + "]"; }' % n)
            r = "r%d" % n
        elif op == "over":
            alts = ", ".join("ca::any_taker{%d}" % (i + 1) if l == "*" else "ca::taker<'%s'>{%d}" % (l, i + 1) for i, l in enumerate(a[0]))
            r = "std::to_string(stdx::overload{%s}(tv::el<'%s'>{1}))" % (alts, a[1])
        elif op == "like":
            T, U = TYPE[a[0]] % "int", TYPE[a[1]] % "tv::el<'A'>"
            out.append("static_assert(std::is_same_v<stdx::forward_like_t<%s, %s>, decltype(stdx::forward_like<%s>(std::declval<%s>()))>);" % (T, U, T, U))
            r = "ca::cat<stdx::forward_like_t<%s, %s>>()" % (T, U)
        elif op == "ident":
            l, v, c = a[0]
            out.append("auto i%d = tv::mk<'%s'>(%d); decltype(auto) j%d = stdx::safe_identity(%s);" % (n, l, v, n, given("i%d" % n, c)))
            r = "ca::obj<decltype(j%d)>(j%d, &i%d)" % (n, n, n)
        elif op == "deref":
            l, v, c = a[0]
            T = "tv::ty<'%s'>%s" % (l, " const" if c == "c" else "")
            out.append("%s i%d = tv::mk<'%s'>(%d); %s *p%d = &i%d;" % (T, n, l, v, T, n, n))
            if a[1] >= 2:
                out.append("auto up%d = std::reference_wrapper{p%d};" % (n, n))
            call = ["stdx::dereference{}(p%d)" % n, "stdx::dereference<%s *>{}(p%d)" % (T, n),
                    "stdx::dereference<>{}(std::as_const(p%d))" % n, "stdx::dereference<%s *>{}(std::move(p%d))" % (T, n)][a[1]]
            out.append("decltype(auto) j%d = %s;" % (n, call))
            r = "ca::obj<decltype(j%d)>(j%d, &i%d)" % (n, n, n)
        elif op == "plus":
            r = "std::to_string(%s)" % ("stdx::unary_plus{}(%d)" % a[0] if a[1] else "stdx::unary_plus<short>{}(short{%d})" % a[0])
        out.append("drv::answer(%s, %s);" % (r, o))
    return "\n".join(out)


def hists(rng, n):
    out = []
    for _ in range(n):
        h = [("new", [])]

        def val(cats):
            c = rng.choice(cats)
            l = rng.choice("ABCSIM" if c == "r" else "ABCSI")
            return [l, rng.randint(1, 80), c]
        for _ in range(rng.randint(1, 2)):
            take = rng.randint(0, 1)
            xs = [val("lrf") for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 8]))]
            xs = [x if x[2] != "f" else ["A", x[1], "f"] for x in xs]
            solo = any(x[0] == "M" for x in xs)
            h.append(("bind", [rng.randint(1, 4), take, rng.randint(0, 2), xs]))
            for _ in range(rng.randint(2, 6)):
                c = rng.random()
                if c < 0.6:
                    cat = rng.choice("lcr" if not (solo and take) else "r")
                    args = [val("lcr") for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 8]))]
                    h.append(("call", [cat, args]))
                    if cat == "r" and take:
                        break
                elif c < 0.85:
                    free = [i for i, x in enumerate(xs) if x[2] != "r" and x[0] in "ABC"]
                    if free:
                        h.append(("poke", [rng.choice(free) + 1, rng.randint(100, 200)]))
                elif not solo:
                    h.append(("copy", [rng.randint(0, 1)]))
        for _ in range(rng.randint(0, 3)):
            c = rng.randint(0, 3)
            if c == 0:
                k, m = rng.choice([1, 2, 3, 4, 6]), rng.choice([0, 1, 2, 3, 4, 7])
                look = rng.randint(0, 1)
                h.append(("batch", [k, look, [val("lcr") if look else ["A", rng.randint(1, 80), rng.choice("lr")] for _ in range(k * m)]]))
            elif c == 1:
                h.append(("lazy", [rng.randint(0, 6), rng.randint(0, 1)]))
            elif c == 2:
                alts = rng.sample(list("ABCD*"), rng.randint(2, 5))
                x = rng.choice("ABCD")
                if x in alts or "*" in alts:
                    h.append(("over", [alts, x]))
            else:
                h.append(("ident", [val("lcr")]))
        out.append(h)
    return out


def run(ctx):
    k = Histories(ctx, '#include "calls.hpp"\n', code, ["functional.hpp", "for_each_n_args.hpp", "utility.hpp"])
    k.against_model(ctx.graph("MCCallables"), "MCCallables", ctx.pick(700, None) or 10**6, 12, group=15)
    k.against_trace("TraceCallables", hists(ctx.rng, ctx.pick(120, 900)), group=8)
    ctx.require_ops(["bind", "call", "poke", "copy", "batch", "lazy", "over", "ident"], 10)
