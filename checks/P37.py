"""P37: headers alone, in any order and in many units against Headers.tla and Units.tla."""
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

from cases import Cases, Histories
from cxeval import generator
from ilist import histories as lists
from vf import BASE_FLAGS, CXX, DRIVERS, JOBS, SAN, BuildBroken, Found, MachineryError

STUB = DRIVERS + "/conc_stub"
CLANG = ["/usr/bin/clang++-18", "/usr/bin/clang++-19", "/usr/bin/clang++-20"]
BARE = ["-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics"]
SMALL = ["-Os", "-funsigned-char", "-fshort-enums", "-DNDEBUG"]
BUILDS = {"plain": [], "bare": BARE, "small": SMALL + BARE, "clang": BARE[:2]}

# what a program that includes nothing else may write
USES = {
    "algorithm": "int a[3]{1, 2, 3}, b[3]{}; stdx::for_each(a, a + 3, [](int) {}); stdx::transform(a, a + 3, b, [](int x, int y) { return x + y; }, a); "
                 "stdx::for_each_n(a, 2, [](int, int) {}, b); stdx::transform_n(a, 2, b, [](int x) { return x; });",
    "array": "auto a = stdx::make_array<long>(1, 2, 3); (void)a[1];",
    "atomic": "stdx::atomic<int> a{1}; a += 2; (void)a.load(); (void)a.exchange(3);",
    "atomic_bitset": "stdx::atomic_bitset<8> b{}; b.set(1); (void)b.load().count(); (void)b.to_natural(); stdx::atomic_bitset<5> c{stdx::place_bits, 1, 2}; (void)c.any();",
    "bit": "(void)stdx::bit_mask<unsigned char, 5, 2>(); (void)stdx::to_be(static_cast<unsigned short>(1)); (void)stdx::popcount(3u); (void)stdx::bit_size<int>(); "
           "(void)stdx::bit_unpack<unsigned char>(0x1234u); (void)stdx::rotl(3u, 2);",
    "bitset": "stdx::bitset<70> b{stdx::place_bits, 1, 69}; b.set(stdx::lsb_t{2}, stdx::msb_t{66}); b <<= 2; (void)b.count(); (void)(b == (b | ~b)); "
              "stdx::for_each([](auto) {}, b); stdx::bitset<4> c{\"101\"}; (void)c.to_natural(); stdx::type_bitset<int, char> t{}; (void)t.any();",
    "byterator": "unsigned a[2]{}; auto i = stdx::byterator{a}; i.write(static_cast<unsigned char>(1)); (void)i.peek<unsigned short>(); i = i + 1; (void)(i == i);",
    "cached": "auto c = stdx::cached{[] { return 1; }}; (void)*c; c.refresh(); c.reset();",
    "call_by_need": "(void)stdx::call_by_need(stdx::tuple{[](int) {}}, stdx::tuple{1, 2});",
    "compiler": "",
    "concepts": "static_assert(stdx::integral<int> and stdx::unsigned_integral<unsigned> and not stdx::same_as<int, char>);",
    "ct_conversions": "(void)stdx::type_as_string<int>().size(); enum struct E { a }; (void)stdx::enum_as_string<E::a>().size();",
    "ct_format": "auto r = stdx::ct_format<\"a {} b {}\">(1, CX_VALUE(2)); (void)r; (void)STDX_CT_FORMAT(\"{} {}\", 1, int);",
    "ct_string": "using namespace stdx::literals; constexpr auto s = \"ab\"_cts + \"c\"_cts; static_assert(s.size() == 3); constexpr auto t = stdx::ct_string{\"abc\"}; static_assert(t == s);",
    "cx_map": "stdx::cx_map<int, int, 4> m{}; m.put(1, 2); (void)m.get(1); (void)m.contains(2); (void)m.erase(1); for (auto &&x : m) { (void)x; }",
    "cx_multimap": "stdx::cx_multimap<int, int, 4, 4> m{}; m.put(1, 2); m.insert(1, 3); (void)m.contains(1, 2); for (auto &&x : m) { (void)x; } (void)m.erase(1, 2);",
    "cx_queue": "stdx::cx_queue<int, 4> q{}; q.push(1); (void)q.front(); (void)q.pop();",
    "cx_set": "stdx::cx_set<int, 4> s{1, 2}; (void)s.insert(3); (void)s.erase(1); for (auto x : s) { (void)x; }",
    "cx_vector": "stdx::cx_vector<int, 4> v{1, 2}; v.push_back(3); (void)(v == v); (void)v.pop_back(); for (auto x : v) { (void)x; } (void)get<0>(v);",
    "env": "#include <utility>\nstruct query_t { template <typename T> requires true\n"
           "consteval auto operator()(T &&t) const noexcept(noexcept(std::forward<T>(t).query(std::declval<query_t>())))\n"
           "-> decltype(std::forward<T>(t).query(*this)) { return std::forward<T>(t).query(*this); } };\n"
           "using env_t = stdx::make_env_t<query_t{}, 1>;\nusing more_t = stdx::extend_env_t<env_t, query_t{}, 2>;\n"
           "@constexpr auto one = query_t{}(env_t{}); constexpr auto two = query_t{}(more_t{}); static_assert(one + 1 == two);",
    "for_each_n_args": "stdx::for_each_n_args([](int, int) {}, 1, 2, 3, 4); stdx::for_each_n_args<1>([](auto) {}, 1, 2);",
    "function_traits": "auto f = [](int, char) { return 1; }; static_assert(stdx::arity_v<decltype(f)> == 2); using R [[maybe_unused]] = stdx::return_t<decltype(f)>; "
                       "using A [[maybe_unused]] = stdx::nth_arg_t<decltype(f), 1>;",
    "functional": "auto f = stdx::bind_front([](int x, int y) { return x - y; }, 1); (void)f(2); auto g = stdx::bind_back([](int x, int y) { return x - y; }, 1); (void)g(2); "
                  "int i = stdx::with_result_of{[] { return 1; }}; (void)i; (void)stdx::unary_plus{}(1); (void)stdx::safe_identity(i);",
    "intrusive_forward_list": "struct node { node *next{}; }; node n{}, m{}; stdx::intrusive_forward_list<node> l{}; l.push_back(&n); l.push_front(&m); "
                              "for (auto &x : l) { (void)x; } (void)l.pop_front();",
    "intrusive_list": "struct node { node *prev{}; node *next{}; }; node n{}, m{}; stdx::intrusive_list<node> l{}; l.push_back(&n); l.insert(l.begin(), &m); "
                      "for (auto &x : l) { (void)x; } l.remove(&n); l.clear();",
    "iterator": "int a[4]{}; static_assert(stdx::ct_capacity_v<decltype(a)> == 4);",
    "latched": "auto l = stdx::latched{[] { return 1; }}; (void)*l; (void)l.has_value();",
    "numeric": "int a[3]{1, 2, 3}; auto add = [](int x, int y) { return x + y; }; (void)stdx::transform_reduce(a, a + 3, 0, add, add, a); "
               "(void)stdx::transform_reduce_n(a, 2, 0, add, add, a); (void)stdx::saturate_cast<signed char>(300);",
    "optional": "stdx::optional<float> o{}; o = 1.0f; (void)o.value_or(2.0f); (void)o.transform([](float f) { return f; }); "
                "stdx::optional<int, stdx::tombstone_value<-1>> p{3}; (void)(p == p); (void)stdx::transform([](auto x, auto y) { return x + static_cast<float>(y); }, o, p); p.reset();",
    "panic": "if (false) { stdx::panic<\"x\">(); STDX_PANIC(\"y\"); }",
    "pp_map": "#define HEADERS_F(X) (X + 1)\n@int a[]{STDX_MAP(HEADERS_F, 1, 2, 3)}; static_assert(sizeof(a) == 3 * sizeof(int));",
    "priority": "struct s { static auto f(stdx::priority_t<0>) -> int { return 0; } static auto f(stdx::priority_t<1>) -> int { return 1; } }; (void)s::f(stdx::priority<1>);",
    "ranges": "static_assert(not stdx::range<int> and stdx::range<int[3]>);",
    "rollover": "auto r = stdx::rollover_t{1u}; ++r; r -= stdx::rollover_t{3u}; (void)cmp_less(r, r); (void)r.as_underlying(); (void)(r * r == r);",
    "span": "int a[4]{}; auto s = stdx::span<int, 4>{a}; (void)s.first<2>(); (void)s.subspan(1, 2); (void)stdx::as_bytes(s); for (auto x : s) { (void)x; } (void)s.last(1).back();",
    "static_assert": "STATIC_ASSERT(true, \"x {}\", 1);",
    "tuple": "auto t = stdx::tuple{1, 'c'}; (void)stdx::get<0>(t); (void)(t == t); (void)(t < t); (void)t.fold_left(0, [](int a, auto b) { return a + b; }); "
             "(void)stdx::make_tuple(1, 2); (void)t.apply([](auto...) {});",
    "tuple_algorithms": "auto t = stdx::tuple_cat(stdx::tuple{1}, stdx::tuple{'c', 1}); (void)stdx::transform([](auto x) { return x; }, t); stdx::for_each([](auto) {}, t); "
                        "(void)stdx::sort(t); (void)stdx::gather(t); (void)stdx::to_unsorted_set(t); (void)stdx::cartesian_product_copy(t, t); (void)stdx::tuple_cons(1, t); "
                        "(void)stdx::any_of([](auto) { return true; }, t); stdx::enumerate([]<auto>(auto) {}, t);",
    "tuple_destructure": "auto t = stdx::tuple{1, 'c'}; auto [x, y] = t; (void)x; (void)y; static_assert(stdx::tuple_size_v<std::tuple<int, char>> == 2);",
    "type_traits": "struct none { none() = delete; }; static_assert(not stdx::is_structural_v<none>); static_assert(stdx::is_function_object_v<int> or stdx::is_structural_v<int>); using T [[maybe_unused]] = stdx::nth_t<1, int, char>; "
                   "stdx::template_for_each<stdx::type_list<int, char>>([]<typename>() {}); (void)stdx::to_underlying(1);",
    "udls": "using namespace stdx::literals; (void)1_c; (void)4_k; (void)1_Mi; (void)\"a\"_true; (void)3_lsb; (void)0x7f_c;",
    "utility": "auto f = stdx::overload{[](int) {}, [](char) {}}; f(1); (void)stdx::as_unsigned(1); (void)CX_VALUE(1); (void)stdx::ct<3>(); (void)CX_WRAP(1); "
               "(void)stdx::sized8{3}.in<unsigned>(); using M = stdx::type_map<stdx::tt_pair<int, char>>; using L [[maybe_unused]] = stdx::type_lookup_t<M, int>;",
}


def alone(op, a):
    hs = [a[0], a[0]] if op == "use" else a[0]
    before, _, body = ("@" + USES[a[0] if op == "use" else a[2]]).rpartition("@")
    return "".join("#include <stdx/%s.hpp>\n" % h for h in hs) + before.strip("@") + "auto uses() -> void;\nauto uses() -> void {\n%s\n}\n" % body


class Alone(Cases):
    """The answer is whether the compiler takes it, with nothing else included."""

    def __init__(self, ctx, clang):
        super().__init__(ctx, "", alone, [])
        self.clang = clang

    def one(self, n, op, a, label):
        src = self.ctx.uniq("%s_%d" % (label, n)) + ".cpp"
        with open(src, "w") as f:
            f.write(alone(op, a))
        cmd = [self.clang if a[1] == "clang" else CXX] + [f for f in BASE_FLAGS] + ["-fsyntax-only", "-DSTDX_FREESTANDING", "-I" + STUB] + BUILDS[a[1]] + [src]
        for attempt in (1, 2):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode == 0 or (p.returncode == 1 and "error: " in p.stdout and "internal compiler error" not in p.stdout):
                break
        else:
            raise MachineryError("compiler died: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
        os.unlink(src)
        if p.returncode:
            self.ctx.log("refused: %s %s: %s" % (op, a, "; ".join([l for l in p.stdout.splitlines() if "error" in l][:3])))
        return {"op": op, "a": a, "r": int(p.returncode == 0), "o": []}

    def run(self, cases, label, group=None):
        cases = list(cases)
        with ThreadPoolExecutor(JOBS) as ex:
            events = list(ex.map(lambda c: self.one(c[0], c[1][0], c[1][1], label), enumerate(cases)))
        for op, a in cases:
            self.ctx.ops[op] += 1
            self.ctx.configs.add((op, a[1]))
        return events


def orders(rng, n):
    """Permutations and their reverses: every header comes before and after every other."""
    out = []
    for _ in range(n):
        hs = sorted(USES)
        rng.shuffle(hs)
        for l in (hs, hs[::-1]):
            out += [("order", [l, b, l[-1]]) for b in rng.sample(sorted(BUILDS), 2)]
        few = rng.sample(hs, rng.randint(2, 5))
        out += [("order", [few + few[:1], b, few[0]]) for b in rng.sample(sorted(BUILDS), 2)]
    return out


# ------------------------------------------------------------------ programs of several units
NUMBERS = {"bit": (0, 69), "push": (0, 99), "enq": (0, 99), "deq": (0, 0), "key": (0, 30), "pair": (0, 99), "relate": (0, 60), "opt": (0, 9), "roll": (0, 255),
           "link": (0, 89), "unlink": (0, 0), "chain": (0, 89), "fetch": (0, 50), "mark": (0, 29), "lazy": (0, 0), "renew": (0, 0), "three": (0, 9), "tag": (0, 5),
           "panic": (0, 9)}
FIXED = [[["push", 1], ["opt", 4], ["pair", 12], ["link", 1], ["tag", 0]],
         [["push", 2], ["opt", 5], ["enq", 6], ["tag", 3], ["lazy", 0]],
         [["push", 3], ["pair", 22], ["panic", 0], ["chain", 1], ["chain", 2]]]


def plans(rng, k):
    links = rng.sample(range(90), 90)
    chains = rng.sample(range(90), 90)
    out = []
    for _ in range(k):
        p = []
        for _ in range(rng.randint(0, 9)):
            op = rng.choice([o for o in NUMBERS if o not in ("deq", "unlink")])
            p.append([op, links.pop() if op == "link" else chains.pop() if op == "chain" else rng.randint(*NUMBERS[op])])
        out.append(p)
    return out, links, chains


def calls(rng, plan, links, chains, n):
    q = sum(1 for p in plan for o, _ in p if o == "enq")
    l = sum(1 for p in plan for o, _ in p if o == "link")
    pushed = 0
    out = []
    for _ in range(n):
        op = rng.choice(sorted(NUMBERS))
        if op == "deq" and not q or op == "unlink" and not l or op == "link" and not links or op == "chain" and not chains or op in ("push", "enq") and pushed > 35:
            continue
        q += {"enq": 1, "deq": -1}.get(op, 0)
        l += {"link": 1, "unlink": -1}.get(op, 0)
        pushed += op in ("push", "enq")
        out.append(("call", [rng.randint(1, len(plan)), op, links.pop() if op == "link" else chains.pop() if op == "chain" else rng.randint(*NUMBERS[op])]))
    return out


def program(ctx, rng, name, plan, abi, flags):
    """Builds it; every unit has an order of headers and flags of its own. Gives the executable and a label of the build."""
    objs, jobs = [], []
    for u, p in enumerate(plan):
        hs = rng.sample(sorted(USES), len(USES) if u == 0 else rng.randint(0, 12))
        inc, ini = ["%s/%s_%d_%s.hpp" % (ctx.work, name, u + 1, x) for x in ("headers", "plan")]
        with open(inc, "w") as f:
            f.write("".join("#include <stdx/%s.hpp>\n" % h for h in hs))
        with open(ini, "w") as f:
            f.write("".join("INIT(%s, %d)\n" % tuple(x) for x in p))
        own = rng.choice([["-O0"], ["-O2"], ["-Os"]]) + (BARE[:2] if rng.random() < 0.6 else [])
        jobs.append(dict(src="unit.cpp", name="%s_%d.o" % (name, u + 1), flags=flags + abi + own + ["-c"], includes=[STUB],
                         defs=["STDX_FREESTANDING", 'INCLUDES="%s"' % inc, 'INITS="%s"' % ini, "UNIT=unit%d" % (u + 1)]))
    with ThreadPoolExecutor(4) as ex:
        objs = list(ex.map(lambda j: ctx.compile(**j), jobs))
    rng.shuffle(objs)
    return ctx.compile("units.cpp", name=name, flags=flags + abi, includes=[STUB], extra=objs,
                       defs=["STDX_FREESTANDING", "UNITS=" + " ".join("UNIT(unit%d)" % (u + 1) for u in range(len(plan)))])


def built(ctx, *a):
    try:
        return program(ctx, *a)
    except BuildBroken as b:
        errs = [l for l in b.log.splitlines() if "error" in l or "multiple definition" in l or "undefined reference" in l][:4]
        ctx.violation("a program of several units cannot be built: " + "; ".join(errs)[:600], {"kind": "compile", "source": b.src, "log": b.log[-8000:]})
        raise Found("known finding stopped the build")


def run(ctx):
    rng, q = ctx.rng, ctx.pick
    clang = next((c for c in CLANG if os.path.exists(c)), None)
    if clang is None:
        raise MachineryError("no supported clang++ here")
    k = Alone(ctx, clang)
    k.against_model("MCHeaders")
    k.against_trace("TraceHeaders", orders(rng, q(3, 20)))

    jobs = []

    def several(n):
        r = type(rng)("%d %d" % (ctx.seed, n))
        abi = [[], ["-funsigned-char", "-fshort-enums"]][n % 2]
        flags = [SAN, ["-O1"]][n // 2 % 2]
        if n == 0:
            exe = built(ctx, r, "fixed", FIXED, abi, flags)
            ctx.walk(ctx.graph("MCUnits"), exe, q(9000, 30000), spec="Units")
            return
        plan, links, chains = plans(r, r.randint(1, 4))
        exe = built(ctx, r, "program%d" % n, plan, abi, flags)
        head = [("new", [len(plan)])] + [("plan", [u + 1] + x) for u, p in enumerate(plan) for x in p] + [("start", [])]
        script = []
        for _ in range(q(3, 8)):
            script += head + calls(r, plan, list(links), list(chains), q(40, 80))
        ctx.check_trace("TraceUnits", exe, script)
        ctx.configs.add(("units", len(plan), n % 4))

    for n in range(q(7, 30)):
        jobs.append(lambda n=n: several(n))

    # the drivers of other checks, as an embedded program would be built
    g = {p: generator(p) for p in ("P01", "P08", "P09", "P10", "P11", "P12", "P13", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P25", "P26", "P30", "P31")}
    small = SMALL[:3] + ["-fno-rtti", "-fno-threadsafe-statics"]
    names = ["bitset", "bitops", "cx_queue", "cx_vector", "cx_set", "cx_map", "cx_multimap", "optional", "rollover", "casts", "byterator", "span", "ilist", "algos"]
    sizes = rng.sample([(n, w) for w, ns in g["P01"].CFG.items() for n in ns], q(6, 30))
    offs = g["P17"].offsets(rng)
    parts = os.path.join(ctx.work, "parts.hpp")
    with open(parts, "w") as f:
        f.write("#define GENERATED_DESTRUCTURES " + " ".join(
            "DESTR(std::uint%d_t%s)" % (w, "".join(", %d" % x for x in o)) for w, o in offs) + "\n")
    more = {"bitset": ["CONFIGS=" + " ".join("C(%d,%d)" % c for c in sizes)], "bitops": ['GENERATED="%s"' % parts]}

    def embedded():
        exes = dict(zip(names, ctx.build([dict(src=n + ".cpp", name="small_" + n, flags=small, defs=more.get(n) or (["KIND=0"] if n.startswith("cx_") else [])) for n in names],
                                         ["bitset.hpp", "bit.hpp", "cx_multimap.hpp", "cx_queue.hpp", "cx_vector.hpp", "optional.hpp", "span.hpp", "byterator.hpp", "rollover.hpp", "intrusive_list.hpp"])))
        ctx.check_trace("TraceBitset", exes["bitset"], [x for c in sizes for x in [("new", list(c))] + [g["P01"].rnd_op(rng, c[0]) for _ in range(q(25, 90))]])
        ctx.check_trace("TraceBitOps", exes["bitops"], g["P17"].script(rng, offs, q(100, 1000)))
        ctx.check_trace("TraceAlgos", exes["algos"], g["P20"].algos(rng, q(200, 2000)))
        ctx.check_trace("TraceCxQueue", exes["cx_queue"], g["P08"].histories(rng, 0, 1, q(60, 300)))
        for d, spec, p in (("cx_set", "CxSet", "P10"), ("cx_map", "CxMap", "P11"), ("cx_multimap", "CxMultimap", "P12")):
            ctx.check_trace("Trace" + spec, exes[d], ctx.steer(exes[d], g[p].gen(rng, 0, q(1, 8), q(50, 200))))
        ctx.check_trace("TraceCxVector", exes["cx_vector"], g["P09"].histories(rng, 0, 1, q(60, 300)))
        ctx.check_trace("TraceOptional", exes["optional"], g["P13"].histories(rng, range(7), q(2, 20), 50))
        ctx.check_trace("TraceRollover", exes["rollover"], g["P15"].histories(rng, q(1, 10), 60))
        ctx.check_trace("TraceCasts", exes["casts"], [x for x in g["P16"].script(rng, q(2, 20)) if "char" not in x[1]])  # plain char is a type of its own
        ctx.check_trace("TraceByterator", exes["byterator"], g["P18"].histories(rng, range(6), q(2, 20), 80))
        ctx.check_trace("TraceSpan", exes["span"], g["P19"].histories(rng, q(3, 20), 60))
        ctx.check_trace("TraceIList", exes["ilist"], lists(rng, [0, 1, 2], [0, 1], 0, q(2, 20), 50, False))
        for n in names:
            ctx.configs.add(("small", n))

    jobs.append(embedded)

    # generated programs of other checks, built the same way
    def programs(pid, spec, header, n, bare, defs=()):
        k = Cases(ctx, '#include "%s"\n' % header, g[pid].code, bare, flags=small, defs=defs)
        cases = [c for c in g[pid].cases(rng, n) if "char" not in c[1]]
        jobs.append(lambda: k.against_trace(spec, cases, label="small" + pid, group=-(-len(cases) // 2)))
        ctx.configs.add(("small", header))

    programs("P21", "TraceTuple", "tup.hpp", q(40, 400), ["tuple.hpp"])
    programs("P22", "TraceTupleAlgos", "tup.hpp", q(40, 400), ["tuple_algorithms.hpp"])
    programs("P25", "TraceFormat", "fmts.hpp", q(32, 300), ["ct_format.hpp"], defs=["STDX_FREESTANDING"])
    programs("P30", "TraceTypeLevel", "tl.hpp", q(80, 600), ["type_traits.hpp", "utility.hpp"])
    programs("P31", "TraceConstants", "consts.hpp", q(60, 600), ["udls.hpp", "array.hpp", "utility.hpp"])
    h = Histories(ctx, '#include "calls.hpp"\n', g["P26"].code, ["functional.hpp", "for_each_n_args.hpp"], flags=small)
    calling = g["P26"].hists(rng, q(12, 100))
    jobs.append(lambda: h.against_trace("TraceCallables", calling, label="smallP26", group=6))
    ctx.configs.add(("small", "calls.hpp"))
    ctx.parallel(jobs, 5)
    ctx.require_ops(["use", "order", "start", "call", "plan"], 3)
    ctx.assumptions += [
        "conc/atomic.hpp is the stand-in in drivers/conc_stub and format strings use the library's own freestanding implementation",
        "what a header documents is represented by a few uses per header, compiled but not run",
    ]
