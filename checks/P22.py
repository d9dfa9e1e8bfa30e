"""P22: tuple algorithms against TupleAlgos.tla."""
import math
from cases import Cases
from tuples import el, ty, decl, use, answer


def decls(ts, kind):
    if kind == "std":
        return "".join("std::tuple<%s> t%d{%s};\n" % (", ".join(ty(e) for e in T), n, ", ".join(el(e) for e in T))
                       for n, T in enumerate(ts))
    if kind == "array":
        return "".join("std::array<%s, %d> t%d{%s};\n" % (ty(T[0]), len(T), n, ", ".join(el(e) for e in T))
                       for n, T in enumerate(ts))
    return "".join(decl(T, "t%d" % n) for n, T in enumerate(ts))


def uses(cs):
    return "".join(", " + use(c, "t%d" % n) for n, c in enumerate(cs))


def afters(cs, names=None, counted=True):
    o = "".join(", " + ('std::string{"[]"}' if c == "r" else "tv::jt(t%d)" % n) for n, c in enumerate(cs))
    return "tv::afters(%s%s)" % (str(counted and all(c == "r" for c in cs)).lower(), o)


def code(op, a):
    if op in ("cat", "applyn", "cart", "cartc"):
        ts, cs = a
        c = decls(ts, "stdx") + "tv::world w_;\n"
        args = uses(cs)[2:]
        if op == "applyn":
            c += "auto const q_ = stdx::apply(tv::nary{&w_}%s);\n" % uses(cs)
            return c + answer("tv::join({tv::join(w_.calls), tv::je(q_)})", afters(cs))
        f = {"cat": "tuple_cat", "cart": "cartesian_product", "cartc": "cartesian_product_copy"}[op]
        c += "auto q_ = stdx::%s(%s);\n" % (f, args)
        if op == "cart":
            c += "std::vector<std::string> v_;\n[&]<std::size_t... Is>(std::index_sequence<Is...>) " \
                 "{ (v_.push_back(tv::jrefs(stdx::get<Is>(q_))), ...); }(std::make_index_sequence<stdx::tuple_size_v<decltype(q_)>>{});\n"
            return c + answer("tv::join(v_)", afters(cs))
        return c + answer("tv::jt(q_)", afters(cs, counted=op == "cat"))
    if op in ("cons", "snoc"):
        T, cat, e, ecat, how = a
        c = decls([T], "std" if how == 2 else "stdx") + "auto x = %s;\ntv::world w_;\n" % el(e)
        f = {("cons", 1): "tuple_push_front", ("snoc", 1): "tuple_push_back"}.get((op, how), "tuple_" + op)
        p = [use(ecat, "x"), use(cat, "t0")]
        c += "auto const q_ = stdx::%s(%s);\n" % (f, ", ".join(p if op == "cons" else p[::-1]))
        c += "static_assert(%sstdx::is_specialization_of_v<std::remove_const_t<decltype(q_)>, stdx::tuple>);\n" % ("not " if how == 2 else "")
        o = "tv::afters(%s, %s, %s)" % (str(cat == "r" and ecat == "r").lower(),
                                        'std::string{"[]"}' if cat == "r" else "tv::jt(t0)",
                                        'std::string{"[]"}' if ecat == "r" else "tv::join({tv::je(x)})")
        return c + answer("tv::jt(q_)", o)
    if op in ("trans", "each", "enum"):
        ts, cs, how = a
        c = decls(ts, {2: "array", 3: "std"}.get(how, "stdx") if all(ts) and all(len(set(e[0] for e in T)) == 1 for T in ts)
                  else ("std" if how == 3 else "stdx"))
        c += "tv::world w_;\n"
        if op == "trans":
            c += "auto const q_ = stdx::transform%s(tv::nary{&w_}%s);\n" % ("<tv::key_for>" if how == 1 else "", uses(cs))
            return c + answer("tv::join({tv::join(w_.calls), tv::jt(q_)})", afters(cs))
        f = ("unrolled_" if how == 2 else "") + ("for_each" if op == "each" else "enumerate")
        if how == 1:
            c += "tv::counter f_{&w_};\nauto &q_ = stdx::%s(f_%s);\n" % (f, uses(cs))
            c += "if (&q_ != &f_) { drv::fail(\"the function given as an lvalue is not the one returned\"); }\n"
        else:
            c += "auto q_ = stdx::%s(tv::%s{&w_}%s);\n" % (f, "solo" if how == 0 else "counter", uses(cs))
        return c + answer("tv::join({tv::join(w_.calls), drv::js(q_.n)})", afters(cs))
    if op in ("all", "any", "none"):
        ts, cs, k, how = a
        arr = how == 1 and all(ts) and all(len(set(e[0] for e in T)) == 1 for T in ts)
        c = decls(ts, "array" if arr else "stdx") + "tv::world w_;\n"
        c += "auto const q_ = stdx::%s%s_of(tv::above{&w_, %d}%s);\n" % ("unrolled_" if how == 1 else "", op, k, uses(cs))
        return c + answer("tv::join({tv::join(w_.calls), drv::js(int{q_})})", afters(cs))
    if op == "contains":
        c = "using T_ = stdx::tuple<%s>;\n" % ", ".join(ty(e) for e in a[0])
        return c + answer("drv::js(int{stdx::contains_type<T_, tv::ty<'%s'>>})" % a[1])
    T, cat = a[0], a[1]
    c = decls([T], "stdx") + "tv::world w_;\n"
    u = use(cat, "t0")
    f = {"filter": "filter<tv::is_ac>", "unique": "unique", "sset": "to_sorted_set", "uset": "to_unsorted_set"}.get(op)
    if not f:
        by = {"chunk": "chunk_by", "gather": "gather_by", "sort": "sort"}[op]
        f = {"chunk": "chunk", "gather": "gather", "sort": "sort"}[op] if a[2] == 0 else by + "<tv::group_of>"
    c += "auto const q_ = stdx::%s(%s);\n" % (f, u)
    c += "static_assert(stdx::is_specialization_of_v<std::remove_const_t<decltype(q_)>, stdx::tuple>);\n"
    return c + answer("tv::jt(q_)", afters([cat]))


def tup(rng, letters, lo, hi, most=4):
    n = rng.randint(lo, hi)
    out = []
    while len(out) < n:
        if out and rng.random() < 0.3:
            l = out[-1][0]
        else:
            l = rng.choice(letters)
        if sum(e[0] == l for e in out) < most:
            out.append([l, 0 if l == "E" else rng.randint(1, 60)])
        elif most * len(set(letters)) <= len(out):
            break
    return out


def orders(T, by):
    """The number of orders sorting may leave T in."""
    g = {}
    for e in T:
        g.setdefault({"C": "A", "D": "B"}.get(e[0], e[0]) if by else e[0], []).append(tuple(e))
    n = 1
    for es in g.values():
        n *= math.factorial(len(es))
        for e in set(es):
            n //= math.factorial(es.count(e))
    return n


def alike(T):
    """T with the same value in all elements of a type."""
    v = {}
    return [v.setdefault(e[0], e) for e in T]


def cases(rng, n):
    out = []
    while len(out) < n:
        op = rng.choice(["cat", "cat", "applyn", "cart", "cartc", "cons", "snoc", "filter", "trans", "trans", "each", "enum", "all",
                         "any", "none", "chunk", "chunk", "sort", "gather", "gather", "unique", "sset", "uset", "contains"])
        cat = rng.choice("lcrr")
        ls = "ABCDESI" + ("M" if cat == "r" else "")
        if op in ("cat", "applyn"):
            cs = [rng.choice("lcr") for _ in range(rng.choice([1, 2, 2, 3, 4, 6, 9]))]
            if rng.random() < 0.4:
                cs = ["r"] * len(cs)
            ts = [tup(rng, "ABCDESI" + ("M" if c == "r" else ""), 0, 5 if len(cs) < 6 else 3, 9) for c in cs]
            a = [ts, cs]
        elif op in ("cart", "cartc"):
            cs = [rng.choice("lc" if op == "cart" else "lcr") for _ in range(rng.choice([1, 2, 3, 4]))]
            ts = [tup(rng, "ABCDSI", 0 if rng.random() < 0.15 else 1, 3 if len(cs) < 4 else 2, 9) for c in cs]
            a = [ts, cs]
        elif op in ("cons", "snoc"):
            ec = rng.choice("lcr")
            a = [tup(rng, ls, 0, rng.choice([7, 7, 20])), cat, tup(rng, "ABCDS" + ("M" if ec == "r" else ""), 1, 1)[0], ec, rng.randint(0, 2)]
        elif op in ("trans", "each", "enum"):
            how = rng.choice([0, 1, 3]) if op == "trans" else rng.randint(0, 2)
            cs = [rng.choice("lcr") for _ in range(rng.choice([1, 2, 3, 5]))]
            if how == 2:
                ts = [[[l, rng.randint(1, 60)] for _ in range(rng.randint(1, 6))] for l in (rng.choice("ABS") for _ in cs)]
            else:
                ts = [tup(rng, "ABCDESIM", 0, rng.choice([7, 7, 12]), 9) for c in cs]
            a = [ts, cs, how]
        elif op in ("all", "any", "none"):
            how = rng.randint(0, 1)
            cs = [rng.choice("lcr") for _ in range(rng.choice([1, 2, 3, 5]))]
            if how == 1:
                ts = [[[l, rng.randint(1, 60)] for _ in range(rng.randint(1, 6))] for l in (rng.choice("ABS") for _ in cs)]
            else:
                ts = [tup(rng, "ABCDESIM", 0, rng.choice([7, 7, 12]), 9) for c in cs]
            sums = [sum(T[i][1] for T in ts) for i in range(min(map(len, ts)))]
            a = [ts, cs, rng.choice([0, 1000] + sums + [s - 1 for s in sums]), how]
        elif op in ("chunk", "sort", "gather"):
            a = [tup(rng, ls, 0, rng.choice([3, 8, 12, 24]), 3 if op != "chunk" else 9), cat, rng.randint(0, 1)]
            if op != "chunk" and orders(a[0], a[2]) > 300:
                a[0] = alike(a[0])
                if orders(a[0], a[2]) > 300:
                    continue
        elif op in ("filter", "unique", "uset", "sset"):
            a = [tup(rng, ls, 0, rng.choice([3, 8, 12, 24]), 3 if op == "sset" else 9), cat]
            if op == "sset" and orders(a[0], 0) > 300:
                a[0] = alike(a[0])
        else:
            a = [tup(rng, ls, 0, 7), rng.choice("ABCDMSI")]
        out.append((op, a))
    return out


def run(ctx):
    k = Cases(ctx, '#include "tup.hpp"\n', code, ["tuple.hpp", "tuple_algorithms.hpp"])
    k.against_model("MCTupleAlgos", ctx.pick(3000, None), group=ctx.pick(80, 120))
    k.against_trace("TraceTupleAlgos", cases(ctx.rng, ctx.pick(320, 2000)), group=40)
    ctx.configs.update("lcr")
    ctx.require_ops(["cat", "applyn", "cart", "cartc", "cons", "snoc", "filter", "trans", "each", "enum", "all", "any", "none",
                     "chunk", "sort", "gather", "unique", "sset", "uset", "contains"], 5)
    ctx.assumptions += ["type names are ordered as the compiler spells them", "rvalue tuples given to cartesian_product outlive the result"]
