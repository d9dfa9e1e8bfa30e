"""P25: compile-time formatting and strings against Format.tla."""
from cases import Cases

TYPES = {1: "int", 2: "double", 3: "fm::rec"}
ENUMS = {1: "fm::colour::red", 2: "fm::colour::blue", 3: "fm::uns"}
ESC = {"NUL": "\\0", '"': '\\"', "\\": "\\\\"}


def lit(cs):
    return '"%s"' % "".join(ESC.get(c, c) for c in cs)


def cts(cs):
    return "stdx::ct_string{%s}" % lit(cs)


def number(v, t):
    return "static_cast<%s>(%s)" % (t, v)


def value(x, n):
    """(declaration, constant expression) of a compile-time argument"""
    k = x[0]
    if k in ("int", "big"):
        v = x[1] if k == "int" else "".join(x[1])
        if v == "-9223372036854775808":
            v = "(-9223372036854775807LL - 1)"
        elif k == "big":
            v += "ULL" if v[0] != "-" else "LL"
        return "constexpr static auto v%s = %s;\n" % (n, number(v, x[2])), "v%s" % n
    if k == "bool":
        return "", "true" if x[1] else "false"
    if k == "chr":
        return "", "'%s'" % ESC.get(x[1], x[1])
    if k == "enum":
        return "", ENUMS[x[1]]
    raise KeyError(k)


def argument(x, n, how):
    """(declarations, expression)"""
    k = x[0]
    if k == "rt":
        t, v = x[1], x[2]
        if t == "int":
            return "int r%s = %d;\n" % (n, v), "r%s" % n
        if t == "string":
            return "std::string r%s(%d, 'q');\n" % (n, v), "r%s" % n
        if t == "solo":
            return "fm::solo r%s{%d};\n" % (n, v), "std::move(r%s)" % n
        return "fm::pair_t r%s{%d, %d};\n" % (n, v, v + 1), "r%s" % n
    if k == "type":
        return "", (TYPES[x[1]] if how == 2 else ["CX_VALUE(%s)", "stdx::ct<%s>()"][len(n) % 2] % TYPES[x[1]])
    if k == "str":
        cs, form = x[1], x[2]
        if form == 1:
            return "", ("%s" if how == 2 else "CX_VALUE(%s)") % lit(cs)
        if form == 2:
            e = "std::string_view{%s}" % lit(cs)
            return "", e if how == 2 else "CX_VALUE(%s)" % e
        if form == 3:
            return "", "stdx::cts_t<%s>{}" % lit(cs)
        return "", (cts(cs) if how == 2 else "CX_VALUE(%s)" % cts(cs))
    if k == "nest":
        d, e = call(1, x[2], x[3], n, x[1])
        if x[1]:
            d += "constexpr static auto n%s = %s;\n" % (n, e)
            return d, "n%s" % n if how == 2 else "CX_VALUE(n%s)" % n
        d += "auto n%s = %s;\n" % (n, e)
        return d, "std::move(n%s)" % n
    d, e = value(x, n)
    if how == 2:
        return d, e
    if k == "int" and x[1] % 3 == 0:
        return d, "stdx::ct<%s>()" % e
    return d, "CX_VALUE(%s)" % e


def call(how, f, args, n="", const=0):
    d, es = "", []
    for i, x in enumerate(args):
        if const and x[0] == "rt":            # inside a constant the run-time arguments are constants
            t, v = x[1], x[2]
            es.append("%d" % v if t == "int" else "fm::pair_t{%d, %d}" % (v, v + 1))
            continue
        di, e = argument(x, n + "_%d" % i, how)
        d += di
        es.append(e)
    if how == 2:
        return d, "STDX_CT_FORMAT(%s)" % ", ".join([lit(f)] + es)
    return d, "stdx::ct_format<%s%s>(%s)" % (lit(f), ", fm::chars" if how == 3 else "", ", ".join(es))


def code(op, a):
    if op == "format":
        d, e = call(*a)
        return d + "auto const q = %s;\ndrv::answer(fm::result(q), \"[]\");" % e
    if op == "count":
        r = "std::to_string(stdx::num_fmt_specifiers<%s>)" % lit(a[0])
    elif op == "cat":
        form = [lambda s, i: cts(s), lambda s, i: "stdx::cts_t<%s>{}" % lit(s),
                lambda s, i: cts(s) if i % 2 else "stdx::cts_t<%s>{}" % lit(s)][a[1] - 1]
        e = " + ".join(form(s, i) for i, s in enumerate(a[0]))
        r = "fm::show(stdx::ct_string{%s})" % e
    elif op == "split":
        return ("constexpr auto p = stdx::split<%s, '%s'>();\n" % (lit(a[0]), ESC.get(a[1], a[1])) +
                'drv::answer("[" + fm::show(p.first) + "," + fm::show(p.second) + "]", "[]");')
    elif op == "same":
        return ("auto const x = %s == %s; auto const y = stdx::cts_t<%s>{} == stdx::cts_t<%s>{};\n" %
                (cts(a[0]), cts(a[1]), lit(a[0]), lit(a[1])) +
                "if (x != y or x == (%s != %s)) { drv::fail(\"comparisons disagree\"); }\n" % (cts(a[0]), cts(a[1])) +
                'drv::answer(x ? "1" : "0", "[]");')
    elif op == "show":
        r = "fm::all<%s>()" % lit(a[0])
    return 'drv::answer(%s, "[]");' % r


# ---- generator
def text(rng, esc):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 4, 7] * 5 + [40])):
        out += rng.choice([["a"], ["B"], [" "], [":"], ["7"]] + ([["{", "{"], ["}", "}"]] * 2 if esc else []))
    return out


def gen(rng, depth, const=False, macro=False):
    f, args = [], []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5] * 4 + [9, 14])):
        name = rng.choice([[], [], ["n"], ["k", "2"], ["l", "o", "n", "g"]])
        kind = rng.choice(["rt", "rt", "int", "int", "bool", "chr", "str", "big", "type", "enum"] + ["nest"] * (2 if depth else 0))
        spec = []
        if kind == "rt":
            t = rng.choice(["int", "int", "pair"] if const else ["int", "int", "string", "solo", "pair"])
            x = ["rt", t, rng.randint(0, 40)]
            spec = rng.choice([[], [], [":", "x"], [":", ">", "8"], [":"]])
        elif kind == "int":
            t = rng.choice(["int", "short", "signed char", "unsigned", "long", "unsigned char", "long long"])
            hi = {"signed char": 127, "unsigned char": 255, "short": 32767}.get(t, 2**31 - 1)
            lo = 0 if t.startswith("unsigned") else -hi
            v = rng.choice([0, 1, 9, 10, 15, 16, hi, lo, rng.randint(lo, hi), rng.randint(max(lo, -300), min(hi, 300))])
            x = ["int", v, t]
            spec = rng.choice([[], [":", "x"]])
        elif kind == "bool":
            x = ["bool", rng.randint(0, 1)]
            spec = rng.choice([[], [":", "x"]])
        elif kind == "chr":
            x = ["chr", rng.choice(["q", "Z", " ", "0", "{", "}"])]
        elif kind == "str":
            x = ["str", [rng.choice("ab {}:") for _ in range(rng.choice([0, 1, 2, 3, 4, 5] * 3 + [33]))], rng.choice([1, 2, 3, 4])]
        elif kind == "big":
            v, t = rng.choice([(2**64 - 1, "unsigned long long"), (-2**63, "long long"), (2**63 - 1, "long long"), (2**31, "unsigned"),
                               (-2**31, "int"), (rng.getrandbits(64), "unsigned long")])
            x = ["big", list(str(v)), t]
        elif kind == "type":
            x = ["type", rng.randint(1, 3)]
        elif kind == "enum":
            x = ["enum", rng.randint(1, 3)]
        else:
            c = 1 if const else rng.randint(0, 1)
            nf, na = gen(rng, depth - 1, const or bool(c))
            x = ["nest", c, nf, na]
            name = []
        f += text(rng, kind == "rt") + ["{"] + name + spec + ["}"]
        args.append(x)
    return f + text(rng, True), args


def cases(rng, n):
    out = []
    for _ in range(n):
        c = rng.random()
        if c < 0.8:
            how = rng.choice([1, 1, 1, 2, 2, 3])
            f, args = gen(rng, rng.choice([0, 1, 1, 2]))
            if how == 2:
                # plain strings and objects that the macro cannot see through stay with the function
                args = [x if x[0] != "str" or x[2] != 1 else ["str", x[1], 2] for x in args]
                args = [x if x[0] != "rt" or x[1] != "solo" else ["rt", "int", x[2]] for x in args]
                if any(x[0] == "nest" and not x[1] for x in args):
                    how = 1
            out.append(("format", [how, f, args]))
        else:
            s = [rng.choice(["a", "b", "c", "NUL", "{"]) for _ in range(rng.choice([rng.randint(0, 12)] * 4 + [40, 129, 300]))]
            k = rng.randint(0, 4)
            if k == 0:
                out.append(("cat", [[s] + [[rng.choice("abc") for _ in range(rng.choice([rng.randint(0, 6)] * 6 + [70]))] for _ in range(rng.choice([0, 1, 2, 3, 4, 9]))],
                                    rng.randint(1, 3)]))
            elif k == 1:
                out.append(("split", [s, rng.choice(["a", "b", "c", "NUL", "{"])]))
            elif k == 2:
                t = list(s)
                if t and rng.random() < 0.6:
                    t[rng.randrange(len(t))] = "d"
                elif rng.random() < 0.5:
                    t = t + ["NUL"]
                out.append(("same", [s, t]))
            elif k == 3:
                out.append(("show", [s]))
            else:
                out.append(("count", [gen(rng, 0)[0]]))
    return out


def run(ctx):
    k = Cases(ctx, '#include "fmts.hpp"\n', code, ["ct_format.hpp"], defs=["STDX_FREESTANDING"])
    k.against_model("MCFormat", ctx.pick(2500, None), group=ctx.pick(24, 60))
    k.against_trace("TraceFormat", cases(ctx.rng, ctx.pick(400, 1500)), group=16)
    ctx.require_ops(["format", "count", "cat", "split", "same", "show"], 5)
    ctx.assumptions += ["formatting without fmt (STDX_FREESTANDING); the same templates do the splitting and splicing with fmt",
                        "no escaped braces in the text before a compile-time argument (not supported without fmt)"]
