"""P32: names of types and enumerators against Names.tla."""
import json

from cases import Cases


def cpp(t):
    k = t[0]
    if k in "nv":
        return t[1]
    if k == "t":
        return "%s<%s>" % (t[1], ", ".join(map(cpp, t[2])))
    if k == "c":
        return "std::add_const_t<%s>" % cpp(t[1])
    if k == "*":
        return "std::add_pointer_t<%s>" % cpp(t[1])
    if k == "&":
        return "%s &" % cpp(t[1])
    if k == "&&":
        return "%s &&" % cpp(t[1])
    if k == "a":
        return "std::type_identity_t<%s[%d]>" % (cpp(t[1]), t[2])
    if k == "f":
        return "std::type_identity_t<%s(%s)>" % (cpp(t[1]), ", ".join(map(cpp, t[2])))
    if k == "m":
        return "%s::%s" % (cpp(t[1]), t[2])
    if k == "l":
        return "decltype(mk::make<%s>())::%s_t" % (", ".join(map(cpp, t[1])), t[2])
    raise KeyError(k)


def value(e):
    t = cpp(e[0])
    if e[1]:
        return "%s::%s" % (t, e[1])
    return "static_cast<%s>(%d)" % (t, e[2])


def code(op, a):
    if op == "type":
        e = "stdx::type_as_string<%s>()" % cpp(a[0])
    elif op == "base":
        e = "stdx::template_base<%s>()" % cpp(a[0])
    elif op == "same":
        return "constexpr bool x = stdx::is_same_template_v<%s, %s>;\ndrv::answer(std::to_string(int{x}), \"[]\");\n" % (cpp(a[0]), cpp(a[1]))
    elif op == "enum":
        e = "stdx::enum_as_string<%s>()" % value(a)
    elif op == "fmt":
        return "constexpr auto x = stdx::ct_format<\"<{}>\">(CX_VALUE(%s));\ndrv::answer(nm::text(std::string_view{x.str.value}), \"[]\");\n" % cpp(a[0])
    elif op == "fmtenum":
        return "constexpr auto x = stdx::ct_format<\"<{}>\">(CX_VALUE(%s));\ndrv::answer(nm::text(std::string_view{x.str.value}), \"[]\");\n" % value(a)
    else:
        raise KeyError(op)
    return "constexpr auto x = %s;\nstatic_assert(std::is_same_v<decltype(x), std::string_view const>);\ndrv::answer(nm::text(x), \"[]\");\n" % e


NAMED = ["int", "nm::pt", "nm::en", "bool", "char", "double", "nm::deep::pt", "unsigned int", "void"]
VALUES = ["5", "0", "-3", "true", "false", "'='", "'<'", "'>'", "';'", "']'", "' '", "'('", "','", "nm::en::two", "nm::ub", "(nm::en)7"]


def tree(rng, d, top=False):
    c = rng.random()
    if d == 0 or c < .2:
        return ["n", rng.choice(NAMED)]
    if c < .65 or top:
        name = rng.choice(["nm::box", "nm::bag", "nm::val", "nm::vals", "nm::both", "nm::deep::box", "nm::outer"])
        if name == "nm::val":
            args = [["v", rng.choice(VALUES)]]
        elif name == "nm::vals":
            args = [["v", rng.choice(VALUES)] for _ in range(rng.randint(0, 3))]
        elif name == "nm::both":
            args = [tree(rng, d - 1), ["v", rng.choice(VALUES)]]
        elif name == "nm::outer":
            args = [tree(rng, d - 1)]
        else:
            args = [tree(rng, d - 1) for _ in range(rng.randint(0, 3))]
        return ["t", name, args]
    if c < .7:
        return ["m", ["t", "nm::outer", [tree(rng, d - 1)]], "in"]
    if c < .73:
        return ["f", ["n", rng.choice(NAMED)], [["n", x] for x in rng.sample(NAMED[:-1], rng.randint(0, 2))]]
    if c < .77:
        t = tree(rng, d - 1)
        # (a local type of a local type's arguments is named from inside the function)
        return t if '"l"' in json.dumps(t) else ["l", [t], "local"]
    t = tree(rng, d - 1)
    k = rng.choice(["c", "*", "&", "&&"])
    if t[0] in ("&", "&&", "a", "f") or (k == "c" and t[0] == "c") or (t == ["n", "void"] and k != "*"):
        return t
    return [k, t]


def cases(rng, n):
    res = []
    while len(res) < n:
        c = rng.random()
        if c < .3:
            res.append(("type", [tree(rng, rng.randint(1, 4))]))
        elif c < .5:
            t = tree(rng, rng.randint(1, 3))
            if t[0] != "f":
                res.append(("base", [t]))
        elif c < .6:
            t = tree(rng, 3, True)
            if t[0] == "t":
                res.append(("fmt", [t]))
        elif c < .8:
            x, y = tree(rng, 2, True), tree(rng, 2, True)
            if x[0] == y[0] == "t":
                res.append(("same", [x, y]))
        else:
            t = tree(rng, 2)
            e = ["l", [t], "e"] if rng.random() < .4 and '"l"' not in json.dumps(t) else ["m", ["t", "nm::outer", [t]], "e"]
            # a local type inside a cast is spelled in another way
            name = rng.choice(["x", "y"]) if '"l"' in json.dumps(e) else rng.choice(["x", "y", ""])
            res.append((rng.choice(["enum", "fmtenum"]), [e, name, {"x": 0, "y": 1, "": rng.randint(2, 50)}[name]]))
    return res


def run(ctx):
    k = Cases(ctx, '#include "names.hpp"\n', code, ["ct_conversions.hpp", "ct_format.hpp", "type_traits.hpp"], defs=["STDX_FREESTANDING"])
    k.against_model("MCNames", None, group=100)
    k.against_trace("TraceNames", cases(ctx.rng, ctx.pick(600, 3000)), group=60)
    ctx.require_ops(["type", "base", "same", "enum", "fmt", "fmtenum"], 20)
    ctx.assumptions += ["names are spelled as g++ spells them, up to a space before a closing bracket"]
