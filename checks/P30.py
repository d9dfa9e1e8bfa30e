"""P30: type-level lookups, sequences and traits against TypeLevel.tla."""
from cases import Cases

KINDS = {"i": "%s", "u": "%su", "z": "std::size_t{%s}", "l": "%sll", "b": "bool(%s)", "c": "char{%s}", "e": "tl::en(%s)",
         "p": "tl::point{%s}"}
INT = {"i": "int", "u": "unsigned", "z": "std::size_t", "l": "long long", "c": "char"}

FLAGS = {op: '"[" + ' + ' + "," + '.join("drv::js(int{%s})" % x for x in l) + ' + "]"' if len(l) > 1 else "drv::js(int{%s})" % l[0] for op, l in {
    "callable": ["stdx::is_function_v<?>", "stdx::is_function_object_v<?>", "stdx::is_callable_v<?>"],
    "structural": ["stdx::is_structural_v<?>"],
    "complete": ["stdx::is_complete_v<?>"],
    "protocols": ["stdx::tuplelike<?>", "stdx::has_tuple_protocol<?>", "stdx::has_array_protocol<?>"],
    "range": ["stdx::range<?>"]}.items()}


def one(n):
    """C++ for a name."""
    if n[0] == "t":
        return "tl::ty<%s>" % n[1:]
    return KINDS[n[0]] % n[1:]


def ty(t):
    b, m = t
    s = {"int": "int", "void": "void", "C": "tl::C"}.get(b) or one(b)
    return s + "".join({"c": " const", "v": " volatile"}.get(x, " " + x) for x in m)


def names(l):
    return ", ".join(one(n) for n in l)


def lst(form, l):
    if form == "tl":
        return "stdx::type_list<%s>" % names(l)
    if form == "tup":
        return "std::tuple<%s>" % names(l)
    if form == "vl":
        return "stdx::value_list<%s>" % names(l)
    k = l[0][0] if l else "z"
    if form == "is":
        return "std::integer_sequence<%s>" % ", ".join([INT[k]] + [n[1:] for n in l])
    if form == "smi":
        return "std::make_integer_sequence<%s, %d>" % (INT[k], len(l))
    return "stdx::make_index_sequence<%d>" % len(l) if k == "z" else "stdx::make_integer_sequence<%s, %d>" % (INT[k], len(l))


def code(op, a):
    c, r = "", None
    if op in ("lookup", "rlookup"):
        kind, m, k, d = a
        c = "using M_ = stdx::type_map<%s>;\n" % ", ".join("stdx::%s_pair<%s, %s>" % (kind, one(x), one(y)) for x, y in m)
        by, to = (kind[0], kind[1]) if op == "lookup" else (kind[1], kind[0])
        f = "stdx::%s%s_lookup_%s<M_, %s%s>" % ("reverse_" if op == "rlookup" else "", {"t": "type", "v": "value"}[by], to, one(k),
                                                ", " + one(d) if d else "")
        r = "tl::tname<%s>()" % f if to == "t" else "tl::vname<%s>()" % f
    elif op == "ntht":
        r = "tl::tname<stdx::nth_t<%d, %s>>()" % (a[1], names(a[0]))
    elif op == "nthv":
        r = "tl::vname<stdx::nth_v<%d, %s>>()" % (a[1], names(a[0]))
    elif op == "each":
        c = "tl::visitor v_;\nstdx::template_for_each<%s>(v_);\n" % lst(*a)
        c += "std::vector<std::string> w_;\nstdx::template_for_each<%s>(%s);\n" % (
            lst(*a), "[&]<typename T>() { w_.push_back(tl::tname<T>()); }" if a[0] in ("tl", "tup") else
            "[&]<auto V>() { w_.push_back(tl::vname<V>()); }")
        r = 'v_.seen == w_ ? tl::list(w_) : "[\\"not the same twice\\"]"'
    elif op == "apply":
        r = "tl::list(stdx::apply_sequence<%s>(%s))" % (
            lst(*a), "[]<typename... Ts>() { return std::vector<std::string>{tl::tname<Ts>()...}; }" if a[0] in ("tl", "tup") else
            "[]<auto... Vs>() { return std::vector<std::string>{tl::vname<Vs>()...}; }")
    elif op == "gets":
        n = len(a[0])
        bind = "0"
        if 1 <= n <= 8:
            vs = ", ".join("x%d" % i for i in range(n))
            bind = "[](auto const &s) { auto const [%s] = s; return std::vector<std::string>{%s}; }" % (
                vs, ", ".join("tl::vname<std::remove_cvref_t<decltype(x%d)>::value>()" % i for i in range(n)))
        r = "tl::gets<%s>(%s)" % (lst("mi", a[0]), bind)
    elif op == "sig":
        form, cv, ref, how, ret, ps = a
        ne = " noexcept" if how.endswith("_ne") else ""
        h = how[:-3] if ne else how
        args, q = ", ".join(ty(p) for p in ps), "".join({"c": " const", "v": " volatile"}.get(x, " " + x) for x in cv + ref)
        if form == "fn":
            c = "using F = %s(%s)%s;\n" % (ty(ret), args, ne)
            t = {"fn": "F", "ref": "F &", "ptr": "F *", "ptrc": "F *const", "ptrv": "F *volatile", "ptrcv": "F *const volatile"}[h]
        elif form == "member":
            c = "using F = %s (tl::C::*)(%s)%s%s;\n" % (ty(ret), args, q, ne)
            t = h
        elif form == "functor":
            c = "struct F { auto operator()(%s)%s%s -> %s; };\n" % (args, q, ne, ty(ret))
            t = h
        else:
            c = "auto f_ = [](%s)%s%s -> %s { std::abort(); };\nusing F = decltype(f_);\n" % (
                args, " mutable" if form == "mutable" else "", ne, ty(ret))
            t = h
        r = "tl::sig<%s>()" % t
    elif op == "garity":
        form, n = a
        p = {0: "auto", 1: "auto &&", 2: "auto", 3: "auto", 4: "auto const &", 5: "auto"}[form]
        ps = ", ".join("int" if form == 5 and i % 2 == 0 else p for i in range(n))
        c = "auto f_ = [](%s)%s -> void {};\n" % (ps, {2: " mutable", 4: " noexcept"}.get(form, ""))
        r = "drv::js(static_cast<int>(stdx::arity_v<decltype(f_)%s>))" % (" &" if form == 3 else "")
    elif op == "cond":
        r = "tl::xname<stdx::conditional_t<%s, %s, %s>>()" % ("true" if a[0] else "false", ty(a[1]), ty(a[2]))
    elif op == "typeor":
        r = "tl::xname<stdx::type_or_t<std::is_pointer, %s%s>>()" % (ty(a[0]), ", " + ty(a[1]) if a[1] else "")
    elif op == "sameunq":
        c = "static_assert(stdx::is_same_unqualified_v<%s, %s> == stdx::same_as_unqualified<%s, %s>);\n" % ((ty(a[0]), ty(a[1])) * 2)
        r = "drv::js(int{stdx::is_same_unqualified_v<%s, %s>})" % (ty(a[0]), ty(a[1]))
    elif op == "anyof":
        x = "<%s>" % ", ".join(ty(t) for t in [a[0]] + a[1])
        r = '"[" + drv::js(int{stdx::same_any%s}) + "," + drv::js(int{stdx::same_none%s}) + "]"' % (x, x)
    elif op == "special":
        t = "tl::%s<%s>" % (a[0], names(a[1]))
        v = "is_value_specialization_of_v" if a[0][0] == "V" else "is_specialization_of_v"
        c = "constexpr bool s_ = stdx::%s<%s, tl::%s>;\n" % (v, t, a[2])
        c += "static_assert(s_ == decltype(stdx::is_specialization_of<%s, tl::%s>())::value);\n" % (t, a[2])
        c += "static_assert(s_ == stdx::%s<%s const, tl::%s>);\n" % (v, t, a[2])
        c += "static_assert(s_ == stdx::is_same_template_v<%s, tl::%s<>>);\n" % (t, a[2])
        r = "drv::js(int{s_})"
    elif op == "shrink":
        r = '"[" + tl::xname<stdx::expand_t<stdx::shrink_t<%s>>>() + "," + tl::xname<stdx::expand_t<%s>>() + "]"' % (ty(a[0]), ty(a[0]))
    elif op in FLAGS:
        c = "using T = %s;\n" % (("tl::k::" + a[0]) if a[0] not in ("int", "bool", "double") else a[0])
        if a[1]:
            c += "using U = T%s;\n" % "".join({"c": " const"}.get(x, " " + x) for x in a[1])
        r = FLAGS[op].replace("?", "U" if a[1] else "T")
    elif op == "under":
        t = {"bool": "bool", "char": "char"}.get(a[1]) or "std::%sint%s_t" % ("u" if a[1][0] == "u" else "", a[1][1:])
        if a[0] == "number":
            r = "tl::under(static_cast<%s>(%d))" % (t, a[2])
        else:
            c = "enum %s E_ : %s {};\n" % ("struct" if a[0] == "scoped" else "", t)
            r = "tl::under(static_cast<E_>(%d))" % a[2]
    return c + "drv::answer(%s, \"[]\");\n" % r


def value(rng):
    k = rng.choice("iiuzlbcep")
    return k + str({"b": rng.randint(0, 1), "c": rng.randint(1, 120), "e": rng.randint(0, 4)}.get(k, rng.randint(0, 40)))


def tname(rng, hi=49):
    return "t%d" % rng.randint(0, hi)


def texpr(rng, complete=False):
    b = rng.choice(["int"] + ["t%d" % (rng.randint(50, 60) if complete else rng.randint(0, 49))] * 3)
    m = rng.choice([[], [], ["c"], ["v"], ["c", "v"], ["*"], ["c", "*"], ["*", "c"], ["*", "*"], ["c", "*", "v"]])
    return [b, m + rng.choice([[], [], ["&"], ["&&"]])]


def param(rng, complete=False):
    while True:
        t = texpr(rng, complete)
        # a parameter's own const or volatile is no part of a signature
        if not t[1] or t[1][-1] not in "cv":
            return t


def some(rng, f, n):
    out = []
    while len(out) < n:
        x = f(rng)
        if x not in out:
            out.append(x)
    return out


def cases(rng, n):
    out = []
    while len(out) < n:
        op = rng.choice(["lookup"] * 5 + ["rlookup"] * 4 + ["ntht", "nthv", "each", "each", "apply", "apply", "gets", "sig", "sig", "sig", "sig",
                                          "garity", "cond", "typeor", "sameunq", "anyof", "special", "shrink"])
        if op in ("lookup", "rlookup"):
            kind = rng.choice(["tt", "tv", "vt", "vv"])
            size = rng.choice([0, 1, 2, 3, 5, 9, 17, 33])
            # constants told apart by their type alone are not told apart by GCC's deduction: the number decides the type
            salt = rng.randint(0, 4)
            g = {"t": tname, "v": lambda r: (lambda n: "iuzlcb"[(n + salt) % 5 if n > 1 else 5] + str(n))(r.randint(0, 60))}
            if op == "lookup":
                ks = some(rng, g[kind[0]], size)
                m = [[k, g[kind[1]](rng)] for k in ks]
            else:
                es = some(rng, g[kind[1]], size)
                m = [[g[kind[0]](rng), e] for e in es]
            j = 0 if op == "lookup" else 1
            want = kind[j]
            x = rng.choice(m)[j] if m and rng.random() < 0.75 else g[want](rng)
            to = kind[1 - j]
            a = [kind, m, x, "" if rng.random() < 0.4 else g[to](rng)]
        elif op in ("ntht", "nthv"):
            l = [(tname if op == "ntht" else value)(rng) for _ in range(rng.choice([1, 2, 5, 17, 40]))]
            a = [l, rng.choice([0, len(l) - 1, rng.randrange(len(l))])]
        elif op in ("each", "apply"):
            f = rng.choice(["tl", "tup", "vl", "is", "smi", "mi", "mi"])
            k, size = rng.choice("iuzl"), rng.choice([0, 1, 2, 3, 7, 20])
            l = [tname(rng) for _ in range(size)] if f in ("tl", "tup") else [value(rng) for _ in range(size)] if f == "vl" else \
                ["%s%d" % (k, rng.randint(0, 99) if f == "is" else i) for i in range(size)]
            a = [f, l]
        elif op == "gets":
            k, size = rng.choice("iuzl"), rng.choice([0, 1, 2, 3, 4, 6, 8, 15])
            a = [["%s%d" % (k, i) for i in range(size)]]
        elif op == "sig":
            form = rng.choice(["fn", "member", "member", "functor", "functor", "lambda", "mutable"])
            full = form in ("lambda", "mutable")
            cv, ref = ([], []) if form in ("fn", "lambda", "mutable") else (rng.choice([[], ["c"], ["v"], ["c", "v"]]), rng.choice([[], ["&"], ["&&"]]))
            how = rng.choice({"fn": ["fn", "ref", "ptr", "ptrc", "ptrv", "ptrcv"], "member": ["F"]}.get(form, ["F", "F &", "F const &", "F &&", "F const"]))
            ret = rng.choice([["void", []], texpr(rng, full), texpr(rng, full)])
            # cv on a result that is no class means nothing
            if ret[1] and ret[1][-1] in "cv" and (ret[0] == "int" or "*" in ret[1]):
                ret = [ret[0], ["*", "&"]]
            a = [form, cv, ref, how + rng.choice(["", "", "_ne"]), ret, [param(rng, full) for _ in range(rng.choice([0, 1, 2, 3, 6]))]]
        elif op == "garity":
            a = [rng.randint(0, 5), rng.randint(0, 9)]
        elif op == "cond":
            a = [rng.randint(0, 1), texpr(rng), texpr(rng)]
        elif op == "typeor":
            a = [texpr(rng), rng.choice([[], texpr(rng)])]
        elif op == "sameunq":
            x = texpr(rng)
            y = rng.choice([texpr(rng), [x[0], []], [x[0], ["c", "&"]], [x[0], x[1]]])
            a = [x, y]
        elif op == "anyof":
            l = [texpr(rng) for _ in range(rng.choice([0, 1, 4, 12]))]
            a = [rng.choice(l + [texpr(rng)]), l]
        elif op == "special":
            k = rng.choice("TV")
            l = [(tname if k == "T" else value)(rng) for _ in range(rng.randint(0, 6))]
            a = [k + rng.choice("AB"), l, k + rng.choice("AB")]
        else:
            a = [texpr(rng)]
            if a[0][1] and a[0][1][-1] in "cv" and (a[0][0] == "int" or "*" in a[0][1]):
                continue
        out.append((op, a))
    return out


NAMES = ["int", "schar", "long", "llong", "unsigned", "uchar", "ulong", "bool", "float", "double", "en", "es", "agg", "eqo", "ord", "less", "neq", "onlyeq", "rel", "nolt", "nogt", "nole", "noge", "base", "derived",
         "hidden", "twice", "toint", "saysint", "fromint", "saysfrom", "ptr", "cptr", "null"]


def cname(k):
    return k if k in ("int", "long", "unsigned", "bool", "float", "double") else "cc::" + k


def concept(op, a):
    if op == "one":
        t = cname(a[0]) + {"": "", "c": " const", "&": " &", "c&": " const &"}[a[1]]
        l = ["stdx::%s<%s>" % (c, t) for c in ("floating_point", "integral", "signed_integral", "unsigned_integral", "equality_comparable", "totally_ordered")]
    elif op == "two":
        l = ["stdx::%s<%s, %s>" % (c, cname(a[0]), cname(a[1])) for c in ("same_as", "derived_from", "convertible_to")]
    else:
        how, ps, g, args = a
        ps, args = [cname(p) for p in ps], [cname(p) for p in args]
        t = {"lambda": "cc::object<%s>" % ", ".join([cname(g)] + ps), "function": "%s(%s)" % (cname(g), ", ".join(ps)),
             "pointer": "%s (*)(%s)" % (cname(g), ", ".join(ps)), "member": "%s (cc::agg::*)(%s)" % (cname(g), ", ".join(ps))}[how]
        if how == "member":
            args = ["cc::agg &"] + args
        l = ["stdx::%s<%s>" % (c, ", ".join([t] + args)) for c in ("invocable", "predicate")]
    return 'std::cout << "{\\"r\\":[" << %s << "],\\"o\\":[]}\\n";' % ' << "," << '.join("int{%s}" % x for x in l)


def concepts(rng, n):
    out = []
    for _ in range(n):
        op = rng.choice(["two", "call", "call"])
        if op == "two":
            a = [rng.choice(NAMES), rng.choice(NAMES)]
        else:
            ps = [rng.choice(NAMES) for _ in range(rng.randint(0, 4))]
            args = [p if rng.random() < 0.75 else rng.choice(NAMES) for p in ps]
            if rng.random() < 0.2:
                args = args[:-1] if rng.random() < 0.5 else args + ["int"]
            a = [rng.choice(["lambda", "function", "pointer", "member"]), ps, rng.choice(["none", "bool", "int", "ptr", "tester", "saysbool", "agg"]), args]
        out.append((op, a))
    return out


def run(ctx):
    for fallback in (0, 1):
        c = Cases(ctx, '#include "concepts_std.hpp"\n', concept, ["concepts.hpp"], flags=["-O0"], defs=["FALLBACK"] if fallback else [])
        c.against_model("MCConcepts", None, label="c%d" % fallback, group=400)
        c.against_trace("TraceConcepts", concepts(ctx.rng, ctx.pick(300, 2000)), label="ct%d" % fallback, group=150)
    k = Cases(ctx, '#include "tl.hpp"\n', code, ["type_traits.hpp", "utility.hpp", "function_traits.hpp", "concepts.hpp"])
    k.against_model("MCTypeLevel", None, group=ctx.pick(70, 120))
    k.against_trace("TraceTypeLevel", cases(ctx.rng, ctx.pick(900, 4000)), group=40)
    ctx.configs.update(["tt", "tv", "vt", "vv"])
    ctx.require_ops(["one", "two", "call", "lookup", "rlookup", "ntht", "nthv", "each", "apply", "gets", "sig", "garity", "cond", "typeor", "sameunq", "anyof",
                     "special", "shrink", "callable", "structural", "complete", "protocols", "range", "under"], 8)
    ctx.assumptions += ["keys of a map are distinct (for reverse lookup: its entries)",
                        "constants looked up in one map differ in value, not in type alone (GCC 13 takes 1u and true for one when deducing)",
                        "generic callables take their parameters by value, forwarding or const reference"]
