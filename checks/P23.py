"""P23: call by need against CallByNeed.tla."""
from cases import Cases
from tuples import answer

TY = {"I": "int", "H": "char"}


def cty(l):
    return TY.get(l) or "tv::el<'%s'>" % l


def cval(l, v):
    return "static_cast<%s>(%d)" % (TY[l], v) if l in TY else "tv::el<'%s'>{%d}" % (l, v)


def shown(n):
    return "cb::show(%s)" % n


def fun(i, f):
    kind, sigs = f
    ret = {0: "void", 1: "tv::tok<1>", 2: "tv::tok<1> &"}[kind]
    body = {0: "", 1: "return tv::tok<1>{%d};" % i, 2: "return cb::tokens[%d] = tv::tok<1>{%d}, cb::tokens[%d];" % (i, i, i)}[kind]
    generic = any(p[0] in ("*", "...") for s in sigs for p in s)
    out = []
    for s in sigs:
        if len(s) == 1 and s[0][0] == "...":
            par, args = "auto &&...xs", shown("xs") + "..."
        else:
            ps = []
            for n, (l, k, d) in enumerate(s):
                t = "auto" if l == "*" else cty(l)
                t = {"v": t, "c": t + " const &", "l": t + " &", "r": "auto" if l == "*" else t + " &&"}[k]
                ps.append("%s p%d%s" % (t, n, " = " + cval(l, 42) if d else ""))
            par = ", ".join(ps)
            args = ", ".join(shown("p%d" % n) for n in range(len(s)))
        b = "cb::log(%d, {%s}); %s" % (i, args, body)
        if generic:
            return "auto f%d = [guard = cb::guard{}](%s) -> %s { %s };\n" % (i, par, ret, b)
        out.append("%s operator()(%s) const { %s }" % (ret, par, b))
    return "struct f%d_t { %s };\nauto f%d = f%d_t{};\n" % (i, " ".join(out), i, i)


def code(op, a):
    fs, args, fcat = a
    cat = {x[2] for x in args}
    c = "tv::copies = 0;\ncb::calls.clear();\n" + "".join(fun(i + 1, f) for i, f in enumerate(fs))
    c += "".join("%s x%d = %s;\n" % (cty(l), n, cval(l, v)) for n, (l, v, k) in enumerate(args))
    # a tuple of values when all have one category, else of references and values
    if len(cat) <= 1 and "l" in cat or "c" in cat:
        c += "stdx::tuple<%s> as{%s};\n" % (", ".join(cty(x[0]) for x in args), ", ".join("std::move(x%d)" % n for n in range(len(args))))
        use = "as" if "l" in cat else "std::as_const(as)"
        obj = lambda n: "stdx::get<%d>(as)" % n
    else:
        c += "stdx::tuple<%s> as{%s};\n" % (
            ", ".join(cty(x[0]) + (" &" if x[2] == "l" else "") for x in args),
            ", ".join(("x%d" if x[2] == "l" else "std::move(x%d)") % n for n, x in enumerate(args)))
        use = "std::move(as)"
        obj = lambda n: "x%d" % n
    c += "stdx::tuple<%s> fs{%s};\n" % (", ".join("decltype(f%d)" % (i + 1) for i in range(len(fs))),
                                         ", ".join("std::move(f%d)" % (i + 1) for i in range(len(fs))))
    c += "auto q_ = stdx::call_by_need(%s, %s);\n" % ("fs" if fcat == "l" else "std::move(fs)", use)
    lv = ", ".join("&%s" % obj(n) for n, x in enumerate(args) if x[2] != "r")
    o = ", ".join("std::to_string(tv::val(cb::as_el(%s)))" % obj(n) if x[2] != "r" else 'std::string{"0"}' for n, x in enumerate(args))
    return c + answer("cb::result(q_%s)" % (", " + lv if lv else ""), "tv::join({%s})" % o)


PRELUDE = '''#include "tup.hpp"
#include <stdx/call_by_need.hpp>
#include <memory>
namespace cb {
inline tv::tok<1> tokens[20];
// keeps every function object distinct and makes a call through a destroyed one visible
struct guard {
    std::unique_ptr<int> p = std::make_unique<int>(1);
    guard() = default;
    guard(guard &&) = default;
    guard(guard const &) : guard{} {}
};
inline auto name(char const &) { return 'H'; }
template <typename T> auto name(T const &t) { return tv::name_of(t); }
template <typename T> auto as_el(T const &t) -> T const & { return t; }
inline auto as_el(char const &t) -> int { return t; }
template <typename T> auto show(T const &t) -> std::string {
    return "[" + tv::quoted(name(t)) + "," + std::to_string(tv::val(as_el(t))) + "]";
}
inline std::vector<std::string> calls;
inline void log(int i, std::vector<std::string> v) { calls.push_back("[" + std::to_string(i) + "," + tv::join(v) + "]"); }
template <typename T, typename... Ps> auto result(T const &t, Ps... ps) -> std::string {
    std::vector<std::string> v;
    bool same = true;
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        auto one = [&]<typename E>(auto const &e) {
            auto const cat = tv::cat_of<E>();
            v.push_back("[" + tv::quoted(name(e)) + "," + std::to_string(tv::val(as_el(e))) + "," + drv::js(cat) + "]");
            if (cat != "v" and name(e) != 'T') {
                same = same and (false or ... or (static_cast<void const *>(ps) == static_cast<void const *>(&e)));
            }
            if (cat != "v" and name(e) == 'T') {
                bool own = false;
                for (auto &k : tokens) {
                    own = own or static_cast<void const *>(&k) == static_cast<void const *>(&e);
                }
                same = same and own;
            }
        };
        (one.template operator()<stdx::tuple_element_t<Is, T>>(stdx::get<Is>(t)), ...);
    }(std::make_index_sequence<stdx::tuple_size_v<T>>{});
    return "{\\"calls\\":" + tv::join(calls) + ",\\"result\\":" + tv::join(v) + ",\\"same\\":" + (same ? "1" : "0") + "}";
}
}
'''


# ---- which calls are legal, so that the generated C++ compiles
def takes(f, run):
    for s in f[1]:
        if len(s) == 1 and s[0][0] == "...":
            return True
        if not sum(p[2] == 0 for p in s) <= len(run) <= len(s):
            continue
        ok = True
        for p, x in zip(s, run):
            num = p[0] in "IH" and x[0] in "IH"
            if not (p[0] == "*" or p[0] == x[0] or num):
                ok = False
            elif p[1] == "v" and x[0] == "M" and x[2] != "r":
                ok = False
            elif p[1] == "l" and not (x[2] == "l" and (p[0] == x[0] or p[0] == "*")):
                ok = False
            elif p[1] == "r" and not (x[2] == "r" or (num and p[0] != x[0])):
                ok = False
        if ok:
            return True
    return False


def find(f, args):
    for b in range(max(1, len(args))):
        for n in range(len(args) - b, -1, -1):
            if takes(f, args[b:b + n]):
                return b, n
    return None


def cases(rng, n):
    out = []
    while len(out) < n:
        mix = rng.random() < 0.4
        cat = rng.choice("lcr")
        letters = rng.choice(["ABCD", "ABIH", "ABM", "AB", "ABCDIH"])
        args = []
        for i in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 9])):
            l = rng.choice(letters)
            args.append([l, 10 + i, rng.choice("lr") if mix else cat])
        fs = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 7])):
            sigs = []
            for _ in range(1 if rng.random() < 0.85 else 2):
                if rng.random() < 0.06:
                    sigs = [[["...", "", 0]]]
                    break
                # a signature near some run of the arguments
                b = rng.randint(0, len(args))
                e = rng.randint(b, min(len(args), b + rng.choice([3, 3, 3, 6])))
                s = []
                for x in args[b:e]:
                    k = rng.choice(["v", "c", "c", "c", x[2] if x[2] != "c" else "c"])
                    s.append([rng.choice([x[0]] * 8 + ["*"] + (["I"] if x[0] == "H" else [])), k, 0])
                if rng.random() < 0.2:
                    s.append([rng.choice("ABI"), "c", 1])
                if any(p[0] == "*" for p in s):
                    s = [[p[0], "c" if p[0] == "*" or p[2] else p[1], 0] for p in s if p[2] == 0]
                sigs.append(s)
            if len(sigs) == 2 and (len(sigs[0]) == len(sigs[1]) or any(p[0] == "*" or p[2] for s in sigs for p in s)):
                sigs = sigs[:1]
            fs.append([rng.choice([0, 1, 1, 2]), sigs])
        where = [find(f, args) for f in fs]
        if None in where:
            continue
        # an rvalue taken over by one function is not offered to another
        bad = False
        for j, x in enumerate(args):
            if x[2] != "r":
                continue
            users = [i for i, (b, m) in enumerate(where) if b <= j < b + m]
            for i in users:
                for s in fs[i][1]:
                    k = j - where[i][0]
                    if k < len(s) and s[k][1] in ("v",) and len(users) > 1:
                        bad = True
        if bad:
            continue
        out.append(("need", [fs, args, rng.choice("lr")]))
    return out


def run(ctx):
    k = Cases(ctx, PRELUDE, code, ["call_by_need.hpp"])
    k.against_model("MCCallByNeed", ctx.pick(1500, None), group=ctx.pick(40, 100))
    k.against_trace("TraceCallByNeed", cases(ctx.rng, ctx.pick(200, 1500)), group=32)
    ctx.configs.update("lcr")
    ctx.require_ops(["need"], 500)
    ctx.assumptions += ["every function finds a call (otherwise the library rejects the program)",
                        "an rvalue argument that one function takes over by value is not used by another function"]
