"""P33: what is accepted and what is refused at compile time, against Guards.tla."""
import re

from verdicts import Verdicts
from vf import DRIVERS

INTS = ["schar", "short", "int", "long", "uchar", "ushort", "uint", "ulong"]


def ty(t):
    return "gd::%s_t" % t


def tup(ts):
    return "stdx::tuple<%s>" % ", ".join(map(ty, ts))


def num(x):
    return "%d" % x if x >= 0 else "static_cast<std::size_t>(%d)" % x


def span(ext, const=0):
    e = "int const" if const else "int"
    return "stdx::span<%s>" % e if ext == -1 else "stdx::span<%s, %s>" % (e, num(ext))


def fn(body):
    return "auto use() -> void {\n%s\n}\n" % body


CALLS = {"load": "(void)x.load();", "store": "x.store(v);", "exchange": "(void)x.exchange(v);", "assign": "x = v;",
         "read": "V r = x; (void)r;", "++x": "(void)++x;", "x++": "(void)x++;", "--x": "(void)--x;", "x--": "(void)x--;",
         "copy": "auto y = x; (void)y;", "copy assign": "stdx::atomic<V> y{v}; y = x;", "move": "auto y = std::move(x); (void)y;"}


NODES = {"single": "one_way", "double": "two_way"}
LISTS = {"single": "stdx::intrusive_forward_list<gd::one_way_t>", "double": "stdx::intrusive_list<gd::two_way_t>"}
CONVERSIONS = {
    "value to atomic": ("stdx::atomic<U>", "U{1}"), "atomic to value": ("U", "gd::any<stdx::atomic<U>>()"),
    "value to optional": ("stdx::optional<float>", "1.0f"), "nullopt to optional": ("stdx::optional<float>", "std::nullopt"),
    "optional to bool": ("bool", "gd::any<stdx::optional<float>>()"), "number to bitset": ("stdx::bitset<N>", "3ul"),
    "text to bitset": ("stdx::bitset<N>", "std::string_view{\"101\"}"), "atomic_bitset to bitset": ("stdx::bitset<N>", "gd::any<stdx::atomic_bitset<N>>()"),
    "number to atomic_bitset": ("stdx::atomic_bitset<N>", "3ul"), "number to type_bitset": ("stdx::type_bitset<int, char>", "3ul"),
    "number to rollover": ("stdx::rollover_t<U>", "U{3}"),
    "rollover to number": ("U", "gd::any<stdx::rollover_t<U>>()"), "iterator to byterator": ("stdx::byterator<U>", "gd::any<U *>()"),
    "element to cx_vector": ("gd::cx_vector_t", "3"), "element to cx_set": ("gd::cx_set_t", "3"),
    "element to cx_map": ("gd::cx_map_t", "gd::cx_map_t::value_type(1, 2)"), "function to latched": ("stdx::latched<gd::fun_t>", "gd::fun_t{}"),
    "latched to bool": ("bool", "gd::any<stdx::latched<gd::fun_t>>()"), "ct_string to string_view": ("std::string_view", "stdx::ct_string{\"abc\"}")}


def opt(t):
    return "std::pair<%s, %s>" % (opt(t[1]), opt(t[2])) if t[0] == "pair" else ty(t[0])


def given(t, how):
    return {"l": "gd::any<%s>()", "c": "gd::any<%s const>()", "r": "std::move(gd::any<%s>())"}[how] % t


def code(op, a):
    if op in ("first", "last"):
        return fn("auto &s = gd::any<%s>();\n(void)s.%s<%s>();" % (span(a[0]), op, num(a[1])))
    if op == "sub":
        return fn("auto &s = gd::any<%s>();\n(void)s.subspan<%s%s>();" % (span(a[0]), num(a[1]), "" if a[2] == -1 else ", " + num(a[2])))
    if op == "sget":
        return fn("auto &s = gd::any<%s>();\n(void)stdx::get<%s>(s);" % (span(a[0]), num(a[1])))
    if op == "selem":
        return fn("using T [[maybe_unused]] = stdx::tuple_element_t<%d, %s>;" % (a[1], span(a[0])))
    if op == "span":
        ext, const, (kind, n, sconst), implicit = a
        e = "int const" if sconst and kind in ("span", "dynspan") else "int"
        src = {"array": "std::array<int, %d>" % n, "carray": "std::type_identity_t<int[%d]>" % n, "span": "stdx::span<%s, %d>" % (e, n),
               "dynspan": "stdx::span<%s>" % e, "vector": "std::vector<int>"}[kind]
        if sconst and e == "int":
            src += " const"
        return fn("auto &src = gd::any<%s>();\n%s s%s;\n(void)s;" % (src, span(ext, const), " = src" if implicit else "{src}"))
    if op == "wbytes":
        return fn("(void)stdx::as_writable_bytes(gd::any<%s>());" % span(a[0], a[1]))
    if op == "capacity":
        t = {"vector": "std::vector<int>", "dynspan": "stdx::span<int>", "string": "std::string", "int": "int", "array": "std::array<int, 4>",
             "span": "stdx::span<int, 4>", "cx_vector": "stdx::cx_vector<int, 4>", "cx_set": "stdx::cx_set<int, 4>",
             "cx_map": "stdx::cx_map<int, int, 4>", "cx_queue": "stdx::cx_queue<int, 4>", "carray": "std::type_identity_t<int[4]>",
             "stdspan": "std::span<int, 4>", "cx_multimap": "stdx::cx_multimap<int, int, 4, 2>"}[a[0]] + (" const" if a[1] else "")
        how = "stdx::ct_capacity_v<%s>" % t if a[2] == "type" else "stdx::ct_capacity(gd::thing<%s>)" % t
        return fn("constexpr auto n = %s;\nstatic_assert(n == 4u);" % how)
    if op == "tget":
        return fn("(void)stdx::get<%d>(%s);" % (a[1], given(tup(a[0]), a[2])))
    if op == "tindex":
        return fn("(void)%s[stdx::index<%d>];" % (given(tup(a[0]), a[2]), a[1]))
    if op == "tkey":
        return fn("(void)stdx::get<%s>(%s);" % (ty(a[1]), given(tup(a[0]), a[2])))
    if op == "tmember":
        return fn("(void)%s.get(stdx::tag<%s>);" % (given(tup(a[0]), a[2]), ty(a[1])))
    if op == "tname":
        return fn("auto t = stdx::make_indexed_tuple<gd::key_of>(%s);\n(void)stdx::get<std::integral_constant<int, %d>>(%s);" %
                  (", ".join("gd::named<%d>{}" % x for x in a[0]), a[1], given("decltype(t)", a[2])))
    if op == "tcompare":
        o = {"eq": "==", "lt": "<", "spaceship": "<=>"}[a[0]]
        return fn("(void)(gd::any<%s const>() %s gd::any<%s const>());" % (tup(a[1]), o, tup(a[2])))
    if op == "tother":
        o = {"eq": "==", "lt": "<", "spaceship": "<=>"}[a[0]]
        l, r = "gd::any<%s const>()" % tup(a[1]), "gd::any<%s const>()" % ty(a[3])
        if a[2]:
            l, r = r, l
        return fn("(void)(%s %s %s);" % (l, o, r))
    if op == "tapply":
        return fn("gd::any<%s>().apply([](%s) {});" % (tup(["int"] * a[0]), ", ".join(["int"] * a[1])))
    if op == "tjoin":
        return fn("(void)gd::any<%s const>().join(%s[](int x, int y) { return x + y; });" % (tup(["int"] * a[0]), "0, " if a[1] else ""))
    if op == "tbind":
        return fn("auto [%s] = gd::any<%s>();" % (", ".join("x%d" % i for i in range(a[1])), tup(["int"] * a[0])))
    if op == "tcopy":
        return fn("auto t = gd::any<%s>();\n(void)t;" % tup(a[0]))
    if op == "tlist":
        f = "stdx::%s%s" % ("unrolled_" if a[1] else "", a[0])
        ts = ["gd::any<%s>()" % {"array": "std::array<int, 2>", "span": "stdx::span<int, 2>", "tuple": "stdx::tuple<int, int>", "pair": "std::pair<int, int>",
                                 "std": "std::tuple<int, int>"}[k] for k in a[2]]
        op_ = {"enumerate": "[]<auto>(auto...) {}", "for_each": "[](auto...) {}"}.get(a[0], "[](auto...) { return true; }")
        return fn("(void)%s(%s, %s);" % (f, op_, ", ".join(ts)))
    if op == "bstore":
        return fn("stdx::bitset<12, %s> b{};\nb.set(3u);" % ty(a[0]))
    if op == "bto":
        return fn("(void)gd::any<stdx::bitset<%d>>().to<%s>();" % (a[0], ty(a[1])))
    if op == "bnatural":
        return fn("(void)gd::any<stdx::bitset<%d>>().to_natural();" % a[0])
    if op == "bplace":
        return fn("stdx::bitset<40> b{stdx::place_bits%s};\n(void)b;" % "".join(", %s{}" % ty(t) for t in a[0]))
    if op == "benum":
        d = {"int": "0", "es8": "gd::es8_t::b", "esi": "gd::esi_t::y"}[a[2]]
        use = {"set": "b.set(%s);", "reset": "b.reset(%s);", "flip": "b.flip(%s);", "test": "(void)b[%s];"}[a[0]] % d
        return fn("auto b = stdx::bitset<%s>{};\n%s" % ({"es8": "gd::es8_t::MAX", "esi": "gd::esi_t::MAX"}[a[1]], use))
    if op == "btext":
        return fn("using namespace stdx::literals;\nconstexpr auto b = stdx::bitset<%d>{\"%s\"_cts};\n(void)b;" % (a[0], "10110100111010"[:a[1]]))
    if op == "btypes":
        use = {"set": "b.set<%s>();", "reset": "b.reset<%s>();", "flip": "b.flip<%s>();", "test": "(void)b[stdx::type_identity_v<%s>];",
               "make": "B c{stdx::type_list<%s>{}};\n(void)c;"}[a[0]] % ", ".join(map(ty, a[2]))
        return fn("using B = stdx::type_bitset<%s>;\nB b{};\n%s" % (", ".join(map(ty, a[1])), use))
    if op in ("order", "count"):
        return fn("(void)stdx::%s(gd::any<%s>());" % (a[0], ty(a[1])))
    if op == "unpack":
        return fn("(void)stdx::bit_unpack<%s>(gd::any<%s>());" % (ty(a[0]), ty(a[1])))
    if op == "mask":
        return fn("(void)stdx::bit_mask<%s, %d, %d>();" % ("std::array<gd::uchar_t, 3>" if a[0] == "wide" else ty(a[0]), a[1], a[2]))
    if op == "pack":
        return fn("(void)stdx::bit_pack<%s>(%s);" % (ty(a[0]), ", ".join(["gd::any<%s>()" % ty(a[2])] * a[1])))
    if op == "abits":
        return fn("stdx::atomic_bitset<%d, %s> b{};\nb.set(0u);" % (a[0], ty(a[1])))
    if op == "abto":
        return fn("(void)gd::any<stdx::atomic_bitset<%d>>().to<%s>();" % (a[0], ty(a[1])))
    if op == "abtext":
        return fn("using namespace stdx::literals;\nstdx::atomic_bitset<%d> b{\"%s\"_cts};\n(void)b;" % (a[0], "10110100111010"[:a[1]]))
    if op == "atype":
        return fn("(void)gd::any<stdx::atomic<%s>>().load();" % ("gd::owner_t" if a[0] == "owner" else ty(a[0])))
    if op == "convert":
        to, value = CONVERSIONS[a[0]]
        return fn("constexpr std::size_t N [[maybe_unused]] = %d;\nusing U [[maybe_unused]] = std::uint%d_t;\nusing To = %s;\nTo x%s;\n(void)x;" %
                  (a[2], next(w for w in (8, 16, 32, 64) if a[2] <= w or w == 64), to, ("(%s)" if a[1] else " = %s") % value))
    if op == "drain":
        kind, n, k = a
        if kind in ("single", "double"):
            t, put, take = LISTS[kind], "c.push_back(&v[i]);", "c.pop_front();"
        else:
            t, put, take = "stdx::%s<int, 5>" % kind, "c.push%s(i);" % ("_back" if kind == "cx_vector" else ""), "(void)c.pop%s();" % ("_back" if kind == "cx_vector" else "")
        return fn("constexpr auto ok = [] {\ngd::%s_t v[5]{};\n(void)v;\n%s c{};\nfor (int i = 0; i < %d; ++i) { %s }\nfor (int i = 0; i < %d; ++i) { %s }\n"
                  "return true;\n}();\nstatic_assert(ok);" % (NODES.get(kind, "int"), t, n, put, k, take))
    if op == "lookup":
        kind, keys, key = a
        if kind == "cx_map":
            return fn("constexpr auto v = [] {\nstdx::cx_map<int, int, 5> c{};\n%s\nreturn c.get(%d);\n}();\nstatic_assert(v == %d);" %
                      (" ".join("c.put(%d, %d);" % (x, x + 7) for x in keys), key, key + 7))
        return fn("constexpr auto v = [] {\nstdx::cx_queue<int, 5> c{};\n%s\nreturn c.%s();\n}();\nstatic_assert(v == %d);" %
                  (" ".join("c.push(%d);" % x for x in keys), kind.split()[1], keys[0] if keys else 0))
    if op == "relink":
        return fn("constexpr auto ok = [] {\ngd::%s_t v[2]{};\n%s c{};\nc.push_back(&v[0]); c.push_back(&v[1]);\n%s\nc.clear();\nreturn true;\n}();\nstatic_assert(ok);" %
                  (NODES[a[0]], LISTS[a[0]], "c.push_back(&v[0]); " * (a[1] - 1)))
    if op == "expand":
        return "struct value { %s %s };\n" % ("" if a[0] else "int x{};", "" if a[1] else "explicit value(int) {}") + \
            fn("auto v = stdx::expand(stdx::shrink_t<value>{});\n(void)v;")
    if op == "elem":
        kind, n, i = a
        t = {"pair": "std::pair<int, char>", "array": "std::array<int, %d>" % n, "sequence": "stdx::make_index_sequence<%d>" % n,
             "number sequence": "stdx::make_integer_sequence<int, %d>" % n}[kind.replace(" get", "")]
        if kind.endswith("get"):
            return fn("(void)stdx::get<%d>(%s{});" % (i, t))
        return fn("using T [[maybe_unused]] = stdx::tuple_element_t<%d, %s>;" % (i, t))
    if op in ("as_signed", "as_unsigned"):
        return fn("(void)stdx::%s(gd::any<%s>());" % (op, ty(a[0])))
    if op == "aligned":
        return fn("(void)stdx::is_aligned_with<int>(gd::any<%s>());" % ty(a[0]))
    if op == "roll":
        return fn("stdx::rollover_t<%s> r{};\n(void)r;" % ty(a[0]))
    if op == "rollop":
        l, r = "gd::any<stdx::rollover_t<%s>>()" % ty(a[1]), "gd::any<%s>()" % (ty(a[2]) if a[3] else "stdx::rollover_t<%s>" % ty(a[2]))
        return fn("(void)cmp_less(%s, %s);" % (l, r) if a[0] == "cmp_less" else "(void)(%s %s %s);" % (l, a[0], r))
    if op == "atomic":
        use = CALLS.get(a[0]) or ("(void)x.%s(v);" if a[0][0] == "f" else "(void)(x %s v);") % a[0]
        return fn("using V = %s;\nauto &x = gd::any<stdx::atomic<V>>();\nV v{};\n%s" % (ty(a[1]), use))
    if op == "fill":
        kind, n, k = a
        if kind == "cx_map":
            return fn("using M = stdx::cx_map<int, int, %d>;\nM c{%s};\n(void)c;" % (n, ", ".join("M::value_type{%d, 1}" % i for i in range(k))))
        return fn("stdx::%s<int, %d> c{%s};\n(void)c;" % (kind, n, ", ".join(map(str, range(k)))))
    if op == "grow":
        kind, n, k = a
        t = "stdx::%s<int, %s%d>" % (kind, "int, " if kind in ("cx_map", "cx_multimap") else "", n)
        use = {"cx_vector": "c.push_back(i);", "cx_set": "c.insert(i);", "cx_map": "c.put(i, i);", "cx_multimap": "c.put(i, i);"}[kind]
        return fn("constexpr auto n = [] {\n%s c{};\nfor (int i = 0; i < %d; ++i) { %s }\nreturn c.size();\n}();\nstatic_assert(n == %d);" % (t, k, use, k))
    if op == "node":
        m = {"": "", "self": "node *%s{};", "other": "void *%s{};"}
        return "struct node { %s %s };\n" % (m[a[1][0]].replace("%s", "next"), m[a[1][1]].replace("%s", "prev")) + \
            fn("stdx::intrusive_%slist<node, stdx::node_policy::%s> l{};\nnode n{};\nl.push_back(&n);\nl.push_front(l.pop_front());" %
               ("forward_" if a[0] == "single" else "", a[2]))
    if op == "optional":
        t = opt(a[0])
        head = "template <> struct stdx::tombstone_traits<%s> { constexpr auto operator()() const { return %s{}; } };\n" % (t, t) if a[1] == "traits" else ""
        own = {"param": ", own"}.get(a[1], "")
        return "struct own { constexpr auto operator()() const { return %s{}; } };\n" % t + head + \
            fn("stdx::optional<%s%s> o{};\n(void)o.has_value();" % (t, own))
    if op == "env":
        return fn("using E = stdx::make_env_t<%s>;\n(void)stdx::query<E>(gd::query<%d>);" % (", ".join("gd::query<%d>, %d" % (x, x) for x in a[0]), a[1]))
    if op == "bytes":
        t = "gd::owner_t" if a[1] == "owner" else ty(a[1])
        use = {"read": "(void)i.read<%s>();", "peek": "(void)i.peek<%s>();", "write": "i.write(gd::any<%s>());"}[a[0]] % t
        return fn("auto &i = gd::any<stdx::byterator<std::uint32_t>>();\n%s" % use)
    if op == "format":
        return fn("(void)stdx::ct_format<\"%s\">(%s);" % ("x{}" * a[0], ", ".join(["1"] * a[1])))
    if op == "ctresult":
        args = ["CX_VALUE(%d)" % i for i in range(a[0])] + ["gd::any<int>()"] * a[1]
        return fn("(void)+stdx::ct_format<\"%s\">(%s);" % ("x{}" * len(args), ", ".join(args)))
    if op == "literal":
        return fn("using namespace stdx::literals;\n(void)%s%s_c;" % ({"dec": "", "oct": "0", "bin": "0b", "hex": "0x"}[a[0]], "".join(a[1])))
    if op == "assert":
        f = "{}".join(a[1])
        args = "".join(", \"%s\"" % x for x in a[2])
        return fn("STATIC_ASSERT(%s, \"@@%s@@\"%s);" % ("true" if a[0] else "false", f, args))
    if op == "batches":
        return fn("stdx::for_each_n_args%s(%s%s);" % ("<%d>" % a[0] if a[2] else "",
                                                    "[](auto...) {}" if a[2] else "[](%s) {}" % ", ".join(["int"] * a[0]), ", 1" * a[1]))
    if op == "need":
        return fn("(void)stdx::call_by_need(stdx::tuple{%s}, gd::any<%s>());" %
                  (", ".join("[](%s) { return 1; }" % ", ".join(map(ty, p)) for p in a[0]), tup(a[1])))
    if op == "each":
        t, f = {"types": ("stdx::type_list<int, char>", "[]<typename>() {}"), "values": ("stdx::value_list<1, 2>", "[]<auto>() {}"),
                "list": ("std::index_sequence<1, 2>", "[]<auto>() {}"), "int": ("int", "[] {}"), "class": ("gd::agg_t", "[] {}")}[a[0]]
        return fn("stdx::template_for_each<%s>(%s);" % (t, f))
    if op == "ntht":
        return fn("using T [[maybe_unused]] = stdx::nth_t<%d, %s>;" % (a[1], ", ".join(["int"] * a[0])))
    if op == "nthv":
        return fn("constexpr auto v = stdx::nth_v<%d, %s>;\n(void)v;" % (a[1], ", ".join(["7"] * a[0])))
    raise KeyError(op)


def shows(op, a, ok, log):
    """The text of a failed assertion, as the compiler shows it."""
    if op != "assert" or ok:
        return []
    # (clang++ gives some texts as numbers)
    log += "".join("".join(map(chr, map(int, x.split(", ")))) for x in re.findall(r"\{\{\{(\d+(?:, \d+)*)\}\}\}", log))
    return re.findall(r"@@(.*?)@@", log)[:1]


OPS = ["abits", "abtext", "abto", "aligned", "as_signed", "as_unsigned", "assert", "atomic", "atype", "batches", "benum", "bnatural", "bplace", "bstore",
       "btext", "bto", "btypes", "bytes", "capacity", "convert", "count", "ctresult", "drain", "each", "elem", "env", "expand", "fill", "first", "format",
       "grow", "last", "literal", "lookup", "mask", "need", "node", "ntht", "nthv", "optional", "order", "pack", "relink", "roll", "rollop", "selem", "sget",
       "span", "sub", "tapply", "tbind", "tcompare", "tcopy", "tget", "tindex", "tjoin", "tkey", "tlist", "tmember", "tname", "tother", "unpack", "wbytes"]
UINTS, FLOATS, ENUMS = INTS[4:], ["float", "double"], ["es8", "esi"]
SCALARS = INTS + FLOATS + ENUMS + ["bool", "ptr", "agg", "eqo"]


def generate(rng):
    """One use with parameters beyond those of the model."""
    pick, many = rng.choice, lambda xs, lo, hi: [rng.choice(xs) for _ in range(rng.randint(lo, hi))]
    some = lambda xs, lo, hi: rng.sample(xs, min(len(xs), rng.randint(lo, hi)))
    near = lambda n: max(0, n + rng.randint(-2, 2))
    ext = pick([-1] + [rng.randint(0, 40)] * 4)
    op = pick(["first", "last", "sub", "sget", "selem", "span", "tget", "tindex", "tkey", "tmember", "tname", "tcompare", "tcompare", "tother", "tapply", "tbind",
               "tcopy", "tlist", "bto", "bnatural", "bplace", "btext", "btypes", "unpack", "mask", "abits", "abto", "abtext", "rollop", "atomic", "fill", "grow",
               "convert", "drain", "lookup", "optional", "env", "format", "ctresult", "literal", "assert", "batches", "need", "elem", "ntht", "nthv"])
    if op == "convert":
        w = pick(list(CONVERSIONS))
        return op, [w, rng.randint(0, 1), pick([rng.randint(1, 64), 64, rng.randint(65, 300) if w in ("number to bitset", "text to bitset") else 63])]
    if op in ("first", "last"):
        return op, [ext, pick([near(ext), rng.randint(-9, -2)])]
    if op == "sub":
        o = pick([near(ext), rng.randint(0, 40), rng.randint(-9, -1)])
        return op, [ext, o, pick([-1, near(max(ext, 0) - max(o, 0)), rng.randint(-9, -2)])]
    if op in ("sget", "selem"):
        return op, [ext, near(ext)]
    if op == "span":
        kind, e = pick(["array", "carray", "span", "dynspan", "vector"]), pick([-1, rng.randint(1, 60)])
        return op, [e, rng.randint(0, 1), [kind, max(1, near(e)) if kind in ("array", "carray", "span") else 0, rng.randint(0, 1)], rng.randint(0, 1)]
    if op in ("tget", "tindex"):
        ts = many(SCALARS + ["str", "mov"], 0, 9)
        return op, [ts, near(len(ts)), pick("lcr")]
    if op in ("tkey", "tmember"):
        return op, [some(SCALARS + ["str"], 0, 8), pick(SCALARS + ["str"]), pick("lcr")]
    if op in ("tname", "env"):
        return op, [some(list(range(9)), 0, 7), rng.randint(0, 9)] + ([pick("lcr")] if op == "tname" else [])
    if op == "tcompare":
        kinds = ["int", "long", "double", "float", "str", "eqo", "agg", "ptr", "esi", "es8", "bool"]
        l = many(kinds, 0, 5)
        r = list(l)
        if r and rng.random() < 0.5:
            r[rng.randrange(len(r))] = pick(kinds)
        if rng.random() < 0.3:
            r = r[:-1] if rng.random() < 0.5 else r + [pick(kinds)]
        return op, [pick(["eq", "lt", "spaceship"]), *([l, r] if comparable(l, r) else [l, l])]
    if op == "tother":
        return op, [pick(["eq", "lt", "spaceship"]), many(["int", "str", "double", "bool"], 0, 4), rng.randint(0, 1), pick(["int", "str", "double"])]
    if op in ("tapply", "tbind"):
        n = rng.randint(1, 12)
        return op, [n, max(1, near(n))]
    if op == "tcopy":
        return op, [many(["int", "str", "agg", "ptr"] + ["mov"] * rng.randint(0, 1), 0, 7)]
    if op == "tlist":
        return op, [pick(["for_each", "enumerate", "all_of", "any_of", "none_of"]), rng.randint(0, 1), many(["array", "span", "tuple", "pair", "std"][:rng.randint(1, 5)], 1, 4)]
    if op == "bto":
        return op, [rng.randint(1, 80), pick(INTS + ENUMS)]
    if op == "bnatural":
        return op, [rng.randint(50, 80)]
    if op == "bplace":
        return op, [many(INTS + ENUMS + ["bool"] + (["float", "ptr", "agg"] if rng.random() < 0.4 else []), 0, 5)]
    if op in ("btext", "abtext"):
        n = rng.randint(1, 12)
        return op, [n, max(1, near(n))]
    if op == "btypes":
        ls = some(SCALARS + ["str"], 1, 9)
        return op, [pick(["set", "reset", "flip", "make"]), ls, some(ls if rng.random() < 0.6 else SCALARS, 1, 4)]
    if op == "unpack":
        return op, [pick(INTS + FLOATS), pick(INTS + FLOATS)]
    if op == "mask":
        return op, [pick(UINTS + ["wide"] + INTS), rng.randint(0, 66), rng.randint(0, 66)]
    if op == "abits":
        return op, [rng.randint(1, 66), pick(INTS)]
    if op == "abto":
        return op, [rng.randint(1, 64), pick(INTS + ENUMS)]
    if op == "rollop":
        return op, [pick(["==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "+=", "-=", "*=", "/=", "cmp_less"]), *(lambda t: [t, pick([t, pick(UINTS)])])(pick(UINTS)), 0]
    if op == "atomic":
        return op, [pick(list(CALLS) + ["fetch_add", "fetch_sub", "+=", "-=", "fetch_and", "fetch_or", "fetch_xor", "&=", "|=", "^="]), pick(INTS + ["bool", "es8", "esi", "agg", "eqo"])]
    if op == "fill":
        n = rng.randint(1, 20)
        return op, [pick(["cx_vector", "cx_set", "cx_map"]), n, near(n)]
    if op == "grow":
        n = rng.randint(1, 40)
        return op, [pick(["cx_vector", "cx_set", "cx_map", "cx_multimap"]), n, near(n)]
    if op == "drain":
        n = rng.randint(0, 5)
        return op, [pick(["cx_vector", "cx_queue", "single", "double"]), n, near(n)]
    if op == "lookup":
        return op, ["cx_map", some(list(range(9)), 0, 5), rng.randint(0, 9)]
    if op == "optional":
        deep = lambda d: ["pair", deep(d - 1), deep(d - 1)] if d and rng.random() < 0.7 else [pick(FLOATS + ["ptr"] if rng.random() < 0.8 else SCALARS)]
        return op, [deep(3), "no"]
    if op in ("format", "ctresult"):
        n = rng.randint(0, 9)
        return (op, [n, near(n)]) if op == "format" else (op, [rng.randint(0, 5), pick([0, 0, 1, 3])])
    if op == "literal":
        base = pick(["dec", "oct", "bin", "hex"])
        digits = {"dec": "0123456789", "oct": "01234567", "bin": "01", "hex": "0123456789abcdefABCDEF"}[base]
        cs = many(list(digits), 1, 6)
        if rng.random() < 0.4 and base != "hex":
            cs.insert(rng.randint(1, len(cs)), pick(["8", "9"] if base != "dec" else ["."]))
        return op, [base, ["1"] + cs]
    if op == "assert":
        word = lambda: "".join(rng.choice("abcdefgh XYZ0123456789_-+*/=!?") for _ in range(rng.randint(0, 12)))
        ps = [word() for _ in range(rng.randint(1, 5))]
        return op, [int(rng.random() < 0.2), ps, [word() for _ in ps[1:]]]
    if op == "batches":
        n = rng.randint(1, 6)
        return op, [n, rng.randint(0, 20), rng.randint(0, 1)]
    if op == "need":
        args = many(["agg", "str", "eqo", "mov"], 0, 6)
        fs = []
        for _ in range(rng.randint(1, 3)):
            b = rng.randint(0, len(args))
            f = [t for t in args[b:b + rng.randint(0, 3)] if t != "mov"]
            fs.append(f if rng.random() < 0.7 else many(["agg", "str", "eqo"], 0, 3))
        return op, [fs, [t for t in args if t != "mov"]]
    if op == "elem":
        kind = pick(["pair", "array", "sequence", "sequence get", "number sequence", "number sequence get"])
        n = 2 if kind == "pair" else rng.randint(1, 20)
        return op, [kind, n, near(n)]
    n = rng.randint(1, 12)
    return op, [n, near(n)]


def comparable(l, r):
    """Not numbers with truth values: what C++ converts there is not the library's."""
    return all(not ({x, y} >= {"bool"} and x != y) for x, y in zip(l, r))


def run(ctx):
    k = Verdicts(ctx, "guards.hpp", code, shows, defs=["STDX_FREESTANDING"], includes=[DRIVERS + "/conc_stub"])
    k.against_model("MCGuards")
    seen, cases = set(), []
    while len(cases) < ctx.pick(500, 6000):
        c = generate(ctx.rng)
        if repr(c) not in seen:
            seen.add(repr(c))
            cases.append(c)
    k.against_trace("TraceGuards", cases)
    ctx.require_ops(OPS)
    ctx.assumptions += [
        "accepted means accepted by g++ in C++23 with extensions of the compiler as warnings; the use is compiled, not run",
        "conc/atomic.hpp is the stand-in in drivers/conc_stub and format strings use the library's own freestanding implementation",
        "why a use is refused is not compared, except for the text that STATIC_ASSERT shows",
    ]
