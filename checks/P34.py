"""P34: who may change what, and which types can be copied, against Access.tla."""
from cases import Cases
from vf import DRIVERS

ELEM = {"int": "int", "str": "std::string", "mov": "acc::mov", "pin": "acc::pin", "eqo": "acc::eqo", "agg": "acc::agg", "nod": "acc::nod",
        "int &": "int &", "const int &": "int const &", "const int": "int const", "float": "float", "ptr": "int *", "node": "node",
        "long": "long", "double": "double", "char": "char", "arr": "acc::arr", "fun": "acc::fun"}


def typ(t, es, n=4):
    e = [ELEM[x] for x in es]
    if t in ("cx_vector", "cx_queue", "cx_set"):
        return "stdx::%s<%s, %d>" % (t, e[0], n)
    if t == "cx_map":
        return "stdx::cx_map<%s, %s, %d>" % (e[0], e[-1], n)
    if t == "cx_multimap":
        return "stdx::cx_multimap<%s, %s, %d>" % (e[0], e[-1], n)
    if t == "optional":
        return "stdx::optional<%s>" % e[0]
    if t == "tuple":
        return "stdx::tuple<%s>" % ", ".join(e)
    if t == "indexed_tuple":
        return "decltype(stdx::make_indexed_tuple<acc::tag_of>(std::declval<%s>()))" % e[0]
    if t in ("latched", "cached"):
        return "stdx::%s<acc::maker<%s>>" % (t, e[0])
    if t == "span":
        return "stdx::span<%s>" % e[0]
    if t == "fixed span":
        return "stdx::span<%s, %d>" % (e[0], n)
    if t == "byterator":
        return "stdx::byterator<%s>" % e[0]
    return {"list": "stdx::intrusive_list<acc::node2>", "forward list": "stdx::intrusive_forward_list<acc::node1>",
            "bitset": "stdx::bitset<%d>" % (n * 9), "type_bitset": "stdx::type_bitset<int, char, long>", "rollover": "stdx::rollover_t<unsigned>",
            "atomic": "stdx::atomic<%s>" % (e[0] if e else "int"), "atomic_bitset": "stdx::atomic_bitset<9>"}[t]


READ = {"[]": "X[std::size_t{}]", "get<0>": "X.template get<0>()", "stdx::get<0>": "stdx::get<0>(X)", "*data": "*X.data()",
        "*": "*X", "*->": "*X.operator->()", "value_or": "X.value_or(V)", "get": "X.get(K)", "contains": "X.contains(K)",
        "push_back": "X.push_back(V)", "push": "X.push(V)", "emplace": "X.emplace(V)"}
CALL = {"=": "X = X2", "= nullopt": "X = std::nullopt", "= value": "X = V", "resize_and_overwrite": "resize_and_overwrite(X, [](auto *, std::size_t) { return 0; })",
        "push_back": "X.push_back(V)", "push": "X.push(V)", "push_front": "X.push_front(V)", "insert": "X.insert(V)", "merge": "X.merge(X2)", "put": "X.put(K, V)",
        "insert_or_assign": "X.insert_or_assign(K, V)", "erase": "X.erase(K)", "erase one": "X.erase(K, V)", "emplace": "X.emplace(V)",
        "contains": "X.contains(K)", "contains one": "X.contains(K, V)", "==": "X == X2", "<": "X < X2", "value_or": "X.value_or(V)",
        "bool": "static_cast<bool>(X)", "++": "++X", "--": "--X", "+=": "X += 1", "-=": "X -= 1", "advance": "X.advance(1)", "read": "X.template read<char>()",
        "first": "X.first(1)", "last": "X.last(1)", "subspan": "X.subspan(1)", "+": "X + 1", "-": "X - X2",
        "set one": "X.set(1)", "reset one": "X.reset(1)", "flip one": "X.flip(1)", "[]": "X[1]", "<<=": "X <<= 1", ">>=": "X >>= 1", "<<": "X << 1", ">>": "X >> 1",
        "~": "~X", "store": "X.store(V)", "exchange": "X.exchange(V)", "fetch_add": "X.fetch_add(V)", "cmp_less": "cmp_less(X, X2)",
        "apply": "X.apply([](auto &&...) {})", "transform": "X.transform([](auto &&v) { return v; })",
        "and_then": "X.and_then([](auto &&v) { return stdx::optional<float>{v}; })", "or_else": "X.or_else([] { return stdx::optional<float>{}; })",
        "|": "X | [](auto &&v) { return stdx::optional<float>{v}; }", "capacity": "X.capacity()"}
for b in "&|^":
    CALL[b + "="] = "X %s= X2" % b
BITS = {"&": "X & X2", "|": "X | X2", "^": "X ^ X2", "-": "X - X2"}
TYPES = {"set one": "X.template set<int>()", "reset one": "X.template reset<int>()", "flip one": "X.template flip<int>()", "[]": "X[stdx::type_identity_v<int>]"}
ROLL = {"+=": "X += X2", "-=": "X -= X2", "*=": "X *= X2", "/=": "X /= X2", "%=": "X %= X2", "+": "X + X2"}
TRAIT = {"copy": "std::is_copy_constructible_v<T>", "move": "std::is_move_constructible_v<T>", "copy =": "std::is_copy_assignable_v<T>",
         "move =": "std::is_move_assignable_v<T>", "default": "std::is_default_constructible_v<T>", "trivial": "std::is_trivially_copyable_v<T>",
         "==": "requires(T const &x, T const &y) { x == y; }", "<=>": "requires(T const &x, T const &y) { x <=> y; }"}


def cpp(t):
    return ELEM[t[0]] + (" const" if t[1] else "") + (" " + t[2] if t[2] else "")


def fill(x, names):
    import re
    return re.sub(r"\b(X2|X|K|V)\b", lambda m: names[m.group(1)], x)


def words(t, es):
    o = "std::declval<acc::obj_t<K_, O_>>()"
    v = es[-1] if es else "int"
    v = "std::declval<%s *&>()" % {"list": "acc::node2", "forward list": "acc::node1"}[t] if t in ("list", "forward list") else \
        "std::declval<stdx::bitset<9> &>()" if t == "atomic_bitset" else "std::declval<%s const &>()" % ELEM[v]
    return {"X": o, "X2": "std::declval<O_ &>()", "K": "std::declval<%s const &>()" % ELEM[es[0] if es else "int"], "V": v}


def probe(expr, then, other):
    return "auto f_ = []<typename O_, typename K_>(std::type_identity<O_>, std::type_identity<K_>) -> std::string {\n" \
           "if constexpr (requires { %s; }) { return drv::js(%s); } else { return drv::js(%s); } };\n" % (expr, then, other)


def code(op, a):
    c = ""
    if op == "read":
        t, e, x, k = a
        T = typ(t, [e] if t not in ("cx_map", "cx_multimap") else [e, e])
        if x in ("apply", "apply 2", "for_each", "transform", "transform 2", "enumerate", "all_of", "and_then", "|"):
            c = "char const *at_ = \"nothing\"; int i_{}; (void)i_;\n"
            c += ("%s o_{5.f};\n" % T if e == "float" else "%s o_{&i_};\n" % T) if t == "optional" else "%s o_{%s};\n" % (T, "i_" if "&" in e else "{}")
            o = "acc::as<acc::%s>(o_)" % k
            p = "acc::probe{&at_}"
            if t == "optional":
                g = "acc::probe_giving<%s>{&at_}"
                s = {"transform": "(void)%s.transform(%s);" % (o, g % "float"), "and_then": "(void)%s.and_then(%s);" % (o, g % "stdx::optional<float>"),
                     "|": "(void)(%s | %s);" % (o, g % "stdx::optional<float>"),
                     "transform 2": "(void)stdx::transform(%s, stdx::optional<float>{2.f}, %s);" % (g % "float", o)}[x]
            else:
                two = "stdx::tuple<int>{1}"
                s = {"apply": "(void)%s.apply(%s);" % (o, p), "apply 2": "(void)stdx::apply(%s, %s, %s);" % (p, two, o),
                     "for_each": "(void)stdx::for_each(%s, %s);" % (p, o), "transform": "(void)stdx::transform(%s, %s);" % (p, o),
                     "transform 2": "(void)stdx::transform(%s, %s, %s);" % (p, two, o), "all_of": "(void)stdx::all_of(%s, %s);" % (p, o),
                     "enumerate": "(void)stdx::enumerate(acc::probe_index{&at_}, %s);" % o}[x]
            return c + s + '\nstd::cout << "{\\"r\\":" << drv::js(std::string{at_}) << ",\\"o\\":[]}\\n";'
        w = words(t, [e])
        ex = READ.get(x)
        if t in ("tuple", "indexed_tuple"):
            ex = {"get<0>": "stdx::get<0>(X)", "get<T>": "stdx::get<%s>(X)" % ELEM[e], "[]": "X[stdx::index<0>]",
                  "get(tag)": "stdx::get<acc::tag<%s>>(X)" % ELEM[e], "size": "X.size()"}.get(x, ex)
        elif x.startswith("*") and x[1:] and x != "*->" and x != "*data":
            ex = "*X.%s()" % x[1:]
        ex = fill(ex or "X.%s()" % x, w)
        c = probe(ex, "std::string{acc::name<decltype(%s)>()}" % ex, 'std::string{"none"}')
        return c + 'std::cout << "{\\"r\\":" << f_(std::type_identity<%s>{}, std::type_identity<acc::%s>{}) << ",\\"o\\":[]}\\n";' % (T, k)
    if op == "call":
        t, m, k = a
        es = {"optional": ["float"], "bitset": [], "type_bitset": [], "rollover": [], "atomic_bitset": [], "list": [], "forward list": [],
              "cx_map": ["int", "int"], "cx_multimap": ["int", "int"]}.get(t, ["int"])
        T = typ(t, es)
        ex = dict(CALL)
        if t in ("bitset", "type_bitset"):
            ex.update(BITS)
        if t == "type_bitset":
            ex.update(TYPES)
        if t == "rollover":
            ex.update(ROLL)
        if t == "cx_multimap":
            ex["insert"] = "X.insert(K, V)"
        if t == "atomic":
            ex.update({"read": "static_cast<int>(X)", "+=": "X += V"})
        if t == "atomic_bitset":
            ex["read"] = "static_cast<stdx::bitset<9>>(X)"
        ex = fill(ex.get(m, "X.%s()" % m), words(t, es))
        c = probe(ex, "1", "0")
        return c + 'std::cout << "{\\"r\\":" << f_(std::type_identity<%s>{}, std::type_identity<acc::%s>{}) << ",\\"o\\":[]}\\n";' % (T, k)
    if op == "result":
        alg, k, l, m = a
        tup = ["std::declval<acc::obj_t<acc::%s, stdx::tuple<%s>>>()" % (k, ", ".join(cpp(x) for x in y)) for y in (l, m)]
        args = ", ".join("std::declval<%s>()" % cpp(x) for x in (l if alg in ("make", "forward", "deduce") else m))
        e = {"cat": "stdx::tuple_cat(%s, %s)" % tuple(tup), "cons": "stdx::tuple_cons(%s, %s)" % (args, tup[0]), "push_front": "stdx::tuple_push_front(%s, %s)" % (args, tup[0]),
             "snoc": "stdx::tuple_snoc(%s, %s)" % (tup[0], args), "push_back": "stdx::tuple_push_back(%s, %s)" % (tup[0], args), "tail": "%s.tail()" % tup[0],
             "filter": "stdx::filter<std::is_reference>(%s)" % tup[0], "sames": "stdx::transform(acc::same{}, %s)" % tup[0],
             "values": "stdx::transform(acc::copied{}, %s)" % tup[0], "indexed": "stdx::transform<acc::tag_of>(acc::same{}, %s)" % tup[0],
             "chunk": "stdx::chunk(%s)" % tup[0], "unique": "stdx::unique(%s)" % tup[0], "set": "stdx::to_unsorted_set(%s)" % tup[0],
             "members": "stdx::apply_indices<acc::tag_of>(%s)" % tup[0], "types": "acc::elements(%s)" % tup[0],
             "product": "stdx::cartesian_product(%s, %s)" % tuple(tup), "product_copy": "stdx::cartesian_product_copy(%s, %s)" % tuple(tup),
             "make": "stdx::make_tuple(%s)" % args, "forward": "stdx::forward_as_tuple(%s)" % args, "deduce": "stdx::tuple{%s}" % args}[alg]
        return 'using T_ = decltype(%s);\nstd::cout << "{\\"r\\":" << acc::types<T_>() << ",\\"o\\":[]}\\n";' % e
    if op == "regroup":
        alg, k, l = a
        e = {"sort": "stdx::sort", "sorted set": "stdx::to_sorted_set", "gather": "stdx::gather"}[alg]
        ts = ", ".join(cpp(x) for x in l)
        return 'using T_ = decltype(%s(std::declval<acc::obj_t<acc::%s, stdx::tuple<%s>>>()));\n' % (e, k, ts) + \
               'std::cout << "{\\"r\\":" << acc::regrouped<T_%s>() << ",\\"o\\":[]}\\n";' % "".join(", " + cpp(x) for x in l)
    if op == "able":
        (t, es), w = a
        r = "drv::js(int{[]<typename T>(std::type_identity<T>) { return %s; }(std::type_identity<%s>{})})" % (TRAIT[w], typ(t, es))
    elif op == "walk":
        t, k, w = a
        T = typ(t, ["int", "int"])
        r = "drv::js(int{std::%s_iterator<decltype(std::declval<%s%s &>().begin())>})" % (w, T, " const" if k else "")
    elif op == "iconv":
        t, x, y = a
        it = ["typename %s::iterator" % typ(t, ["int", "int"]), "typename %s::const_iterator" % typ(t, ["int", "int"])]
        r = "drv::js(int{std::is_convertible_v<%s, %s>})" % (it[x], it[y])
    return 'std::cout << "{\\"r\\":" << %s << ",\\"o\\":[]}\\n";' % r


ONE = ["tail", "filter", "sames", "values", "indexed", "chunk", "unique", "set", "members", "types"]
TWO = ["cat", "cons", "push_front", "snoc", "push_back", "product", "product_copy"]


def cases(rng, n):
    out = []
    el = ["int", "str", "mov", "pin", "eqo", "agg", "nod"]
    for _ in range(n):
        op = rng.choice(["able", "able", "read", "result", "result", "result", "regroup"])
        if op == "regroup":
            ts = [[rng.choice(["int", "str", "eqo", "long"]), rng.choice([0, 0, 1]), rng.choice(["", "", "&"])] for _ in range(rng.choice([2, 3, 5]))]
            a = [rng.choice(["sort", "sorted set", "gather"]), rng.choice("lcr"), [list(rng.choice(ts)) for _ in range(rng.choice([0, 1, 3, 6, 10]))]]
        elif op == "result":
            ts = [[rng.choice(["int", "str", "eqo", "long"]), rng.choice([0, 0, 1]), rng.choice(["", "", "&"])] for _ in range(rng.choice([1, 2, 3, 4]))]
            more = lambda: [list(rng.choice(ts)) for _ in range(rng.choice([0, 1, 2, 5, 9]))]
            alg = rng.choice(ONE + ONE + TWO + ["make", "forward", "deduce"])
            a = [alg, rng.choice("lcr"), more(), []]
            if alg in ("make", "forward", "deduce"):
                a[1] = "l"
            elif alg in ("cons", "push_front", "snoc", "push_back"):
                a[3] = [list(rng.choice(ts))]
            elif alg in TWO:
                a[3] = more()[:4]
            if alg == "tail" and not a[2] or alg.startswith("product") and (not a[2] or not a[3] or a[1] == "r" and alg == "product"):
                continue
        elif op == "able":
            t = rng.choice(["tuple", "tuple", "tuple", "cx_map"])
            es = [rng.choice(el if rng.random() < 0.4 else ["int", "str", "eqo", "mov"]) for _ in range(rng.randint(0, 6))] if t == "tuple" else [rng.choice(["int", "str"]), rng.choice(["int", "str", "mov"])]
            a = [[t, es], rng.choice(list(TRAIT))]
            if a[1] == "trivial" and "pin" in es:
                continue
        else:
            t = rng.choice(["tuple", "cx_vector", "cx_queue", "latched", "cached"])
            a = [t, rng.choice(el[:3] + el[4:6]), None, rng.choice("lcr" if t == "tuple" else "lc")]
            a[2] = rng.choice({"tuple": ["get<0>", "get<T>", "[]", "apply", "apply 2", "for_each", "transform", "enumerate"],
                               "cx_vector": ["front", "back", "[]", "get<0>", "*begin", "*rbegin", "*crbegin", "pop_back"],
                               "cx_queue": ["front", "back", "pop"]}.get(t, ["value", "*", "*->"]))
        out.append((op, a))
    return out


def run(ctx):
    k = Cases(ctx, '#include "access.hpp"\n', code, ["tuple.hpp", "cx_vector.hpp", "optional.hpp", "span.hpp", "bitset.hpp"],
              flags=["-O0", "-I" + DRIVERS + "/conc_stub"])
    k.against_model("MCAccess", None, group=ctx.pick(70, 120))
    k.against_trace("TraceAccess", cases(ctx.rng, ctx.pick(400, 4000)), group=40)
    ctx.require_ops(["read", "call", "able", "result", "regroup", "walk", "iconv"], 8)
    ctx.assumptions += ["const rvalues are not asked about", "expiring objects are asked only of the types that give up what they hold (optional, tuple)"]
