"""P21: tuple access, folds, joins and comparisons against Tuple.tla."""
from cases import Cases
from tuples import el, ty, decl, use, answer, after


def reach(T, i, how, u):
    """Expression for element i (from 1) of the tuple expression u."""
    e = T[i - 1]
    return {0: "stdx::get<%d>(%s)" % (i - 1, u), 1: "(%s)[stdx::index<%d>]" % (u, i - 1),
            2: "(%s)[%d_idx]" % (u, i - 1), 3: "stdx::get<%s>(%s)" % (ty(e), u),
            4: "(%s).get(stdx::tag<%s>)" % (u, ty(e)), 5: "get<tv::key<'%s'>>(%s)" % (e[0], u),
            6: "get<%d>(%s)" % (i - 1, u), 7: "get<%s>(%s)" % (ty(e), u)}[how]


def code(op, a):
    T = a[0]
    c = "using namespace stdx::literals;\n"
    if op in ("get", "set") and a[3] in (5, 6, 7):
        c += "auto t = stdx::make_indexed_tuple<tv::key_for>(%s);\n" % ", ".join(el(e) for e in T)
    elif op in ("getref", "setref"):
        c += "".join("auto x%d = %s;\n" % (n, el(e)) for n, e in enumerate(T))
        c += "stdx::tuple<%s> t{%s};\n" % (", ".join(ty(e) + " &" for e in T), ", ".join("x%d" % n for n in range(len(T))))
    elif op in ("make", "fwd"):
        c += "".join("auto x%d = %s;\n" % (n, el(e)) for n, e in enumerate(T))
        args = ", ".join(use(k, "x%d" % n) for n, k in enumerate(a[1]))
    else:
        c += decl(T)
    c += "tv::world w_;\n"
    if op in ("get", "getref"):
        return c + "auto const q_ = tv::jc(%s);\n" % reach(T, a[2], a[3], use(a[1])) + answer("q_", after(a[1]))
    if op == "set":
        v = el([T[a[1] - 1][0], a[2]])
        if a[3] == 8:
            c += "auto &[%s] = t;\nb%d = %s;\n" % (", ".join("b%d" % n for n in range(len(T))), a[1] - 1, v)
        else:
            c += "%s = %s;\n" % (reach(T, a[1], a[3], "t"), v)
        return c + answer("tv::jt(t)")
    if op == "setref":
        c += "std::as_const(t)[stdx::index<%d>] = %s;\n" % (a[1] - 1, el([T[a[1] - 1][0], a[2]]))
        return c + answer("tv::join({%s})" % ", ".join("tv::je(x%d)" % n for n in range(len(T))))
    if op in ("foldl", "foldr"):
        f = "fold_left" if op == "foldl" else "fold_right"
        c += "auto const q_ = (%s).%s(tv::tok<0>{0}, tv::folder<%s>{&w_});\n" % (use(a[1]), f, str(op == "foldr").lower())
        return c + answer("tv::join({tv::join(w_.calls), tv::je(q_)})", after(a[1]))
    if op in ("join", "joini"):
        init = "tv::mk<'A'>(77), " if op == "joini" else ""
        c += "auto const q_ = (%s).join(%stv::binary{&w_});\n" % (use(a[1]), init)
        return c + answer("tv::join({tv::join(w_.calls), tv::je(q_)})", after(a[1]))
    if op == "apply":
        c += "auto const q_ = (%s).apply(tv::nary{&w_});\n" % use(a[1])
        c += "auto const m_ = tv::join({tv::join(w_.calls), tv::je(q_)});\n"
        c += "w_.calls.clear();\nauto const p_ = stdx::apply(tv::nary{&w_}, %s);\n" % use(a[1])
        c += "if (m_ != tv::join({tv::join(w_.calls), tv::je(p_)})) { drv::fail(\"apply and member apply differ\"); }\n"
        c += "auto &&ref_ = (%s).apply([&](auto &&...as) -> decltype(auto) { return (w_.calls); });\n" % use(a[1])
        c += "if (&ref_ != &w_.calls) { drv::fail(\"apply lost a reference\"); }\n"
        return c + answer("m_", after(a[1]))
    if op == "tail":
        return c + "auto const q_ = (%s).tail();\n" % use(a[1]) + answer("tv::jt(q_)", after(a[1]))
    if op == "cmp":
        c += decl(a[1], "u")
        return c + answer("drv::js(std::vector<int>{t == u, t != u, t < u, t <= u, t > u, t >= u})")
    if op == "oneof":
        if (a[1] + len(T)) % 2:  # values that cannot be copied
            c = "struct once { int v; constexpr once(int x) : v{x} {} once(once &&) = default; constexpr auto operator==(once const &) const -> bool = default; };\n"
            c += "auto o = stdx::one_of<%s>{%s};\nonce v{%d};\n" % (", ".join("once" for _ in T), ", ".join("once{%d}" % e[1] for e in T), a[1])
        else:
            c = "auto o = stdx::one_of<%s>{%s};\nint v = %d;\n" % (", ".join("int" for _ in T), ", ".join(str(e[1]) for e in T), a[1])
        return c + answer("drv::js(std::vector<int>{v == o, o == v, v != o})")
    if op == "make":
        c += "auto t = stdx::make_tuple(%s);\n" % args
        o = ", ".join("tv::je(x%d)" % n if k != "r" else 'std::string{"[]"}' for n, k in enumerate(a[1]))
        return c + answer("tv::join({tv::jt(t), tv::jtypes<decltype(t)>()})", "tv::join({%s})" % o)
    if op == "fwd":
        c += "auto t = stdx::forward_as_tuple(%s);\nusing T_ = decltype(t);\n" % args
        r = ", ".join('"[" + tv::quoted(\'%s\') + "," + drv::js(tv::cat_of<stdx::tuple_element_t<%d, T_>>()) + "," + '
                      'drv::js(int{&t[stdx::index<%d>] == &x%d}) + "]"' % (e[0], n, n, n) for n, e in enumerate(T))
        o = ", ".join("tv::je(x%d)" % n for n in range(len(T)))
        return c + answer("tv::join({%s})" % r, "tv::join({%s})" % o)
    if op == "traits":
        c += "using T_ = decltype(t);\n"
        return c + answer("tv::join({drv::js(T_::size()), drv::js(stdx::tuple_size_v<T_>), "
                          "drv::js(int{T_::empty()}), tv::jtypes<T_>()})")
    if op == "eqidx":
        return c + "auto const q_ = stdx::apply_indices<tv::key_for>(%s);\n" % use(a[1]) + answer("tv::jt(q_)", after(a[1]))
    raise KeyError(op)


def random_tuple(rng, letters, lo, hi):
    n = rng.randint(lo, hi)
    if n <= len(letters) and rng.random() < 0.5:
        ls = rng.sample(letters, n)
    else:
        ls = [rng.choice(letters) for _ in range(n)]
    return [[l, 0 if l == "E" else rng.randint(1, 60)] for l in ls]


def cases(rng, n):
    out = []
    for _ in range(n):
        op = rng.choice(["get", "get", "getref", "set", "set", "setref", "foldl", "foldr", "join", "joini", "apply", "tail",
                         "cmp", "cmp", "cmp", "cmp", "oneof", "make", "fwd", "traits", "eqidx"])
        cat = rng.choice("lcr")
        hi = rng.choice([3, 5, 9, 14, 26])
        if op == "get":
            how = rng.randint(0, 7)
            T = random_tuple(rng, "ABCDEM" if how in (5, 6, 7) else "ABCDEMSIL", 1, hi)
            i = rng.randint(1, len(T))
            if how in (3, 4, 5, 7) and sum(e[0] == T[i - 1][0] for e in T) != 1:
                continue
            a = [T, cat, i, how]
        elif op == "set":
            how = rng.choice([0, 1, 2, 3, 4, 5, 8])
            T = random_tuple(rng, "ABCDM" if how == 5 else "ABCDMSIL", 1, hi)
            i = rng.randint(1, len(T))
            if how in (3, 4, 5) and sum(e[0] == T[i - 1][0] for e in T) != 1:
                continue
            a = [T, i, rng.randint(1, 60), how]
        elif op == "getref":
            T = random_tuple(rng, "ABCDMSIL", 1, hi)
            a = [T, cat, rng.randint(1, len(T)), 0]
        elif op == "setref":
            T = random_tuple(rng, "ABCDMSIL", 1, hi)
            a = [T, rng.randint(1, len(T)), rng.randint(1, 60), 1]
        elif op in ("foldl", "foldr", "apply"):
            a = [random_tuple(rng, "ABCDEMSIL", 0, hi), cat]
        elif op in ("join", "joini", "tail"):
            a = [random_tuple(rng, "ABCDEMSIL" if cat == "r" else "ABCDESIL", 1 if op == "join" else 0, hi), cat]
        elif op == "cmp":
            T = [[l, 0 if l == "E" else rng.randint(1, 2)] for l in (rng.choice("ABEPSIM") for _ in range(rng.choice([rng.randint(0, 10), 20])))]
            U = [list(e) for e in T]
            for i in rng.sample(range(len(T)), min(len(T), rng.choice([0, 1, 1, 2, 3]))):
                if T[i][0] != "E":
                    (T if rng.random() < 0.2 else U)[i][1] = rng.choice([0, 1, 2, 3] + [99, 99] * (T[i][0] == "P"))
            a = [T, U]
        elif op == "oneof":
            T = [["I", rng.randint(1, 9)] for _ in range(rng.randint(0, 7))]
            a = [T, rng.randint(1, 9)]
        elif op in ("make", "fwd"):
            T = random_tuple(rng, "ABCDSIL", 0, hi)
            a = [T, [rng.choice("lcr") for _ in T]]
        elif op == "traits":
            a = [random_tuple(rng, "ABCDEMSIL", 0, hi)]
        elif op == "eqidx":
            a = [random_tuple(rng, "ABCDE" + ("M" if cat == "r" else ""), 0, hi), cat]
        out.append((op, a))
    return out


def run(ctx):
    k = Cases(ctx, '#include "tup.hpp"\n', code, ["tuple.hpp", "tuple_algorithms.hpp"])
    k.against_model("MCTuple", None, group=ctx.pick(90, 120))
    k.against_trace("TraceTuple", cases(ctx.rng, ctx.pick(300, 2000)), group=40)
    ctx.configs.update("lcr")
    ctx.require_ops(["get", "getref", "set", "setref", "foldl", "foldr", "join", "joini", "apply", "tail", "cmp", "oneof",
                     "make", "fwd", "traits", "eqidx"], 4)
    ctx.assumptions += ["access by type or key is unambiguous", "functions take every element"]
