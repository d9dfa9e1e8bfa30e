"""P31: literals, wrapped constants and generated arrays against Constants.tla."""
from cases import Cases

TY = {"b": "bool", "c": "signed char", "h": "unsigned char", "s": "short", "t": "unsigned short", "i": "int", "u": "unsigned",
      "l": "long", "m": "unsigned long", "e": "kc::en", "v": "std::string_view"}
PARSED = {"p8": "std::uint8_t", "p16": "std::uint16_t", "p32": "std::uint32_t", "p64": "std::uint64_t", "pint": "int", "pll": "long long"}
BYTES = {"c": 4, "idx": 8, "z8": 8, "z16": 8, "z32": 8, "z64": 8, "p8": 1, "p16": 2, "p32": 4, "p64": 8, "pint": 4, "pll": 8}


def numeral(base, ds, seps, up):
    h = "0123456789ABCDEF" if up else "0123456789abcdef"
    s = {2: "0B" if up else "0b", 8: "0", 10: "", 16: "0X" if up else "0x"}[base]
    for i, d in enumerate(ds):
        s += h[d]
        if i + 1 in seps:
            s += "'"
    return s


def lit(t, v):
    return "static_cast<%s>(%s)" % (TY[t], v)


def out(r):
    return "drv::answer(%s, \"[]\");\n" % r


def code(op, a):
    using = "using namespace stdx::literals;\n"
    if op == "numeral":
        k, base, ds, seps, up = a
        s = numeral(base, ds, seps, up)
        if k in PARSED:
            T = PARSED[k]
            return "constexpr auto x = stdx::parse_literal<%s, %s>();\nstatic_assert(std::is_same_v<decltype(x), %s const>);\n" % (
                T, ", ".join("'\\''" if c == "'" else "'%s'" % c for c in s), T) + out("kc::limbs(x)")
        if k == "c":
            return using + "auto x = %s_c;\nstatic_assert(std::is_same_v<decltype(x)::value_type, std::uint32_t>);\n" % s + out("kc::limbs(decltype(x)::value)")
        if k == "idx":
            return using + "auto x = %s_idx;\n" % s + out("kc::limbs(std::size_t{decltype(x)::value})")
        # the size of a count in its own elements is the count
        return using + "auto x = %s_%s;\nstatic_assert(std::is_same_v<decltype(x.%s), std::size_t const>);\n" % (s, k, k) + out("kc::limbs(std::size_t{x->%s})" % k)
    if op == "scaled":
        return using + "auto x = %s_%s;\nstatic_assert(std::is_same_v<decltype(x), unsigned long long>);\n" % ("".join(map(str, a[1])).lstrip("0") or "0", a[0]) + out("kc::limbs(x)")
    if op == "field":
        T = {"lsb": "lsb_t", "msb": "msb_t", "len": "length_t"}[a[0]]
        return using + "auto x = %d_%s;\nstatic_assert(std::is_same_v<decltype(x), stdx::%s>);\n" % (a[1], a[0], T) + out(
            '"[\\"%s\\"," + kc::num(static_cast<std::underlying_type_t<decltype(x)>>(x)) + "]"' % a[0])
    if op == "small":
        return using + 'auto x = "%s"_%d;\n' % (a[1], a[0]) + out("kc::what(x)")
    if op == "flag":
        return using + 'bool x = "%s"_%s;\n' % (a[1], a[0]) + out("kc::num(x)")
    if op == "list":
        args = ", ".join(lit(t, v) for t, v in a[1])
        return "auto x = stdx::make_array%s(%s);\n" % ("<%s>" % TY[a[0]] if a[0] else "", args) + out("kc::arr(x)")
    if op == "gen":
        form, t, ns = a
        seq = "std::integer_sequence<%s%s>{}" % (TY[t], "".join(", %d" % n for n in ns))
        c = "kc::order.clear();\n"
        if form == "tseq":
            c += "auto x = stdx::make_array<kc::gen>(%s);\n" % seq
        elif form == "tn":
            c += "auto x = stdx::make_array<kc::gen, %s>();\n" % lit(t, len(ns))
        elif form == "fseq":
            c += "auto x = stdx::make_array(%s, kc::call_gen{});\n" % seq
        else:
            c += "kc::call_gen const g{};\nauto x = stdx::make_array<%s>(g);\n" % lit(t, len(ns))
        if form[0] == "f":
            c += "if (not kc::expect_order({%s})) { drv::fail(\"the generator was not called once for each number in order\"); }\n" % ", ".join(map(str, ns))
        return c + out("kc::arr(x)")
    if op == "pmap":
        args = ", ".join(["%d", "(%d)", "0 + %d"][i % 3] % (i + 1) for i in range(a[0]))
        return "std::vector<int> x{STDX_MAP(KC_F%s)};\nstd::string s;\nfor (auto v : x) { s += (s.empty() ? \"\" : \",\") + kc::num(v); }\n" % (
            ", " + args if args else "") + out('"[" + s + "]"')
    if op == "prio":
        return "auto x = kc::pick<%s>::f(stdx::priority<%d>);\n" % (", ".join(map(str, a[1])), a[0]) + out("kc::num(x)")
    if op == "wrap":
        m, x, t, v = a
        T, V = TY[t], lit(t, v)
        c = {"lit": "", "const": "%s const x = %s;\n" % (T, V), "cx": "constexpr %s x = %s;\n" % (T, V),
             "cxs": "constexpr static %s x = %s;\n" % (T, V), "tpl": "", "nsc": "", "ns": "",
             "var": "%s x = %s;\n" % (T, V), "sum": "constexpr %s y = %s;\n" % (T, V),
             "cxv": "auto x = CX_VALUE(%s);\n" % V, "ic": "auto x = std::integral_constant<%s, %s>{};\n" % (T, V)}[x]
        e = {"lit": V, "nsc": "ns@::xc", "ns": "ns@::xr", "sum": "static_cast<%s>(y)" % T}.get(x, "x")
        const = x not in ("var", "ns")
        if x in ("nsc", "ns"):
            c += "struct ns@ { };\n"
        body = "auto w = %s(%s);\n" % (m, e)
        if const and x != "ic":
            body += "constexpr auto k = %s(%s)%s;\nif (not (k == %s)) { drv::fail(\"as a constant it is another value\"); }\n" % (
                m, e, ".value" if m == "CT_WRAP" else "()", V)
        body += out("kc::what(w)")
        if x == "tpl":
            return "[]<%s x>() {\n%s}.template operator()<%s>();\n" % (T, body, V)
        if x in ("nsc", "ns"):
            return body.replace("ns@::xc", "kc::at_ns<%s, %d>" % (T, v)).replace("ns@::xr", "kc::rt_ns<%s, %d>" % (T, v))
        return c + body
    if op == "wraptype":
        return "auto w = %s(%s);\n" % (a[0], TY[a[1]]) + out("kc::what(w)")
    if op == "ct":
        return "constexpr auto x = stdx::ct<%s>();\n" % lit(a[0], a[1]) + out("kc::what(x)")
    if op == "cttype":
        return "constexpr auto x = stdx::ct<%s>();\n" % TY[a[0]] + out("kc::what(x)")
    if op == "aligned":
        n, v = a
        return ("auto x = stdx::is_aligned_with<kc::aligned_type<%d>>(%s(%d));\nauto p = kc::place + 128 + (%d);\n"
                "auto y = stdx::is_aligned_with<kc::aligned_type<%d>>(p);\n"
                "if (x != y) { drv::fail(\"a pointer and a number differ\"); }\n" % (n, ["int", "long", "short"][v % 3], v, v, n)) + out("kc::num(x)")
    if op == "sign":
        f, t, w = a
        n = sum(b << (8 * i) for i, b in enumerate(w))
        return "auto x = stdx::%s(static_cast<%s>(%dull));\n" % (f, TY[t], n) + out('"[" + kc::name<decltype(x)>() + "," + kc::limbs(x) + "]"')
    raise KeyError(op)


RANGE = {"b": (0, 1), "c": (-128, 127), "h": (0, 255), "s": (-2 ** 15, 2 ** 15 - 1), "t": (0, 2 ** 16 - 1),
         "i": (-10 ** 9, 10 ** 9), "u": (0, 2 * 10 ** 9), "l": (-2 * 10 ** 9, 2 * 10 ** 9), "m": (0, 2 * 10 ** 9)}
SIZE = {"b": 1, "c": 1, "h": 1, "s": 2, "t": 2, "i": 4, "u": 4, "l": 8, "m": 8}


def within(x, y):
    if x == y:
        return True
    if y == "b":
        return False
    sx, sy = x in "csil", y in "csil"
    return x == "b" or (SIZE[x] < SIZE[y] and (sy or not sx)) or (SIZE[x] == SIZE[y] and sx == sy)


def common(ts):
    r = ts[0]
    for t in ts[1:]:
        if t != r:
            p, q = (x if SIZE[x] >= 4 else "i" for x in (r, t))
            r = (p if SIZE[p] > SIZE[q] else q) if SIZE[p] != SIZE[q] else (q if p in "csil" else p)
    return r


def cases(rng, n):
    res = []
    while len(res) < n:
        c = rng.random()
        t = rng.choice("bchstiulm")
        v = rng.choice(RANGE[t] + (0, 1, rng.randint(*RANGE[t])))
        if c < .4:
            k = rng.choice(list(BYTES))
            bits = 8 * BYTES[k] - (k in ("pint", "pll"))
            x = rng.choice([2 ** bits - 1, rng.getrandbits(bits), rng.getrandbits(rng.randint(1, bits)), 2 ** (bits - 1)])
            base = rng.choice([2, 8, 10, 16])
            ds = []
            while x or not ds:
                ds.insert(0, x % base)
                x //= base
            if base == 10 and ds[0] == 0:
                continue
            if base != 10:
                ds = [0] * rng.choice([0, 0, 1, 3]) + ds
            seps = [i for i in range(1, len(ds)) if rng.random() < .25]
            if k[0] == "p" and rng.random() < .3:
                seps = list(range(1, len(ds)))
            res.append(("numeral", [k, base, ds, seps, rng.randint(0, 1)]))
        elif c < .5:
            s, lim = rng.choice([("k", 16), ("M", 13), ("G", 10), ("ki", 16), ("Mi", 13), ("Gi", 10)])
            res.append(("scaled", [s, [int(d) for d in str(rng.choice([rng.randint(0, 10 ** rng.randint(1, lim)), rng.randint(2 ** 32, 10 ** lim)]))]]))
        elif c < .7:
            m = rng.randint(0, 6)
            ts = [t if rng.random() < .4 else rng.choice("bchstiulm") for _ in range(m)]
            D = rng.choice(["", "", "s", "i", "u", "l", "m"])
            A = D or (common(ts) if ts else "i")
            if not all(within(x, A) for x in ts):
                continue
            res.append(("list", [D, [[x, rng.choice(RANGE[x] + (rng.randint(*RANGE[x]),))] for x in ts]]))
        elif c < .8:
            f = rng.choice(["tseq", "fseq", "tn", "fn"])
            m = rng.choice([0, 1, 2, 5, 17, 40])
            tt = rng.choice("chstiulm")
            res.append(("gen", [f, tt, list(range(m)) if f[1] == "n" else [rng.randint(0, 120) for _ in range(m % 18)]]))
        elif c < .83:
            res.append(("pmap", [rng.randint(0, 90)]))
        elif c < .95:
            res.append(("wrap", [rng.choice(["CX_VALUE", "CX_WRAP", "CT_WRAP"]), rng.choice(["lit", "const", "cx", "cxs", "tpl", "nsc", "sum", "cxv", "ic", "var", "ns"]), t, v]))
            m, x = res[-1][1][:2]
            if (m == "CT_WRAP" and x in ("cxv", "ns")) or (m == "CX_VALUE" and x in ("var", "ns", "cxv", "ic")):
                res.pop()
        else:
            tt = rng.choice("chstiulm")
            res.append(("sign", [rng.choice(["as_unsigned", "as_signed"]), tt, [rng.randint(0, 255) for _ in range(SIZE[tt])]]))
    return res


def run(ctx):
    k = Cases(ctx, '#include "consts.hpp"\n', code, ["udls.hpp", "array.hpp", "priority.hpp", "pp_map.hpp", "utility.hpp"])
    k.against_model("MCConstants", group=120)
    k.against_trace("TraceConstants", cases(ctx.rng, ctx.pick(500, 4000)), group=60)
    ctx.require_ops(["numeral", "scaled", "field", "small", "flag", "list", "gen", "pmap", "prio", "wrap", "wraptype", "ct",
                     "cttype", "aligned", "sign"], 3)
    ctx.assumptions += ["a numeral's value fits the type it is read into"]
