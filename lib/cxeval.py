"""Conformance of evaluation by the compiler: every history becomes a constant expression (the
driver's own code, evaluated by the compiler), whose recorded answers TLC accepts or rejects; the
same history is then run, and must give the same answers."""
import importlib.util
import os
import subprocess

from cases import Cases, Histories
from vf import BuildBroken, MachineryError, VERIF, BASE_FLAGS, canon, encode

GCC = ["-O0", "-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=100000000", "-fconstexpr-depth=20000",
       "-fconstexpr-cache-depth=8"]
CLANG_FLAGS = ["-O0", "-fconstexpr-steps=4000000000", "-fconstexpr-depth=20000", "-Wno-invalid-constexpr"]
CLANG = ["/usr/bin/clang++-18", "/usr/bin/clang++-17", "/usr/bin/clang++"]


def generator(pid):
    """The history generators of another check."""
    path = os.path.join(VERIF, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def split(script, keep=lambda op, a: True, cut=10 ** 9):
    """The histories of a script, without the operations that cannot be evaluated by the compiler."""
    out = []
    for op, a in script:
        if op == "new":
            out.append([(op, a)])
        elif keep(op, a) and len(out[-1]) < cut:
            out[-1].append((op, a))
    return out


def chunks(script, n):
    """Histories of at most n calls from one of independent calls."""
    first, rest = script[0], script[1:]
    return [[first] + rest[i:i + n] for i in range(0, len(rest), n)]


class TwoCompilers:
    """A compiler's own defects are not the library's: only what both compilers refuse is refused."""

    def _clang(self, src, out):
        """The second compiler: its log, or None if it evaluates every history."""
        cxx = next((c for c in CLANG if os.path.exists(c)), None)
        if cxx is None:
            return "no second compiler"
        p = subprocess.run([cxx] + BASE_FLAGS + CLANG_FLAGS + ["-D" + d for d in self.defs] + [src, "-o", out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return p.stdout if p.returncode else None

    def _compile(self, name, part):
        try:
            return super()._compile(name, part)
        except (BuildBroken, MachineryError) as first:
            out = os.path.join(self.ctx.work, name)
            if self._clang(out + ".cpp", out) is None:
                self.seconds += 1
                return out
            if isinstance(first, BuildBroken):
                raise
            raise BuildBroken(out + ".cpp", str(first))

    def _broken(self, b, part):
        self.ctx.check_bare(self.bare, defs=self.defs)
        for n, h in part:
            name = self.ctx.uniq("one")
            try:
                self._compile(os.path.basename(name), [(n, h)])
                continue
            except BuildBroken as one:
                log = one.log
            log += self._clang(name + ".cpp", name) or ""
            errs = [l for l in log.splitlines() if "error" in l][:3]
            self.ctx.violation("a history cannot be evaluated by the compiler (%s): %s" %
                               (canon(h)[:300], "; ".join(errs)[:500]),
                               {"kind": "compile", "history": h, "log": log[-8000:]})
        raise MachineryError("histories compile one by one but not together:\n" + b.log[-3000:])

    def against_trace(self, spec, hists, label="t", group=20):
        self.seconds = 0
        super().against_trace(spec, hists, label, group)
        if self.seconds:
            self.ctx.notes.setdefault("evaluated_by_clang_where_gcc_gives_up", []).append("%s: %d groups" % (label, self.seconds))


class CxHistories(TwoCompilers, Histories):
    def __init__(self, ctx, driver, make, bare, defs=(), keep=None):
        """make(args of "new") -> C++ expression of what to make; keep(args): whether the objects
        a history leaves behind also become a constant that is used at run time."""
        super().__init__(ctx, '#include <memory>\n#define DRV_CX\n#define MK(...) [](drv::in &) { return std::make_unique<__VA_ARGS__>(); }\n'
                         '#include "%s"\n' % driver, self.text, bare, flags=GCC, defs=defs)
        self.make, self.keep = make, keep

    def _compile(self, name, part):
        exe = super()._compile(name, part)
        if self.keep and name.endswith("_0"):
            # g++ accepts constants with indeterminate parts
            log = self._clang(exe + ".cpp", exe + "_c")
            bad = [l for l in (log or "").splitlines() if "is not initialized" in l or "read of uninitialized object" in l]
            if bad:
                self.ctx.violation("a constant is left with indeterminate parts: " + "; ".join(bad)[:400],
                                   {"kind": "compile", "histories": [h for _, h in part], "log": log[-8000:]})
        return exe

    def text(self, h):
        script = ";".join(encode(op, a).strip() for op, a in h)
        head = '#define M_@ %s\n#line 1 "case_@"\n' % self.make(h[0][1])
        if self.keep and len(h) > 2 and self.keep(h[0][1]):
            first, rest, last = ('"%s"' % ";".join(encode(op, a).strip() for op, a in x) for x in (h[:1], h[:-1], h[-1:]))
            head += "static constexpr auto r_@ = drv::kept<1 << 17>(%s, M_@);\n" % rest
            return head, "drv::report_kept(r_@, %s, %s, %s, M_@);\n" % (first, rest, last)
        head += "static constexpr auto r_@ = drv::fixed<1 << 17>(\"%s\", M_@);\n" % script
        return head, "drv::report(r_@, \"%s\", M_@);" % script


class CxCases(TwoCompilers, Cases):
    """Single calls: the code of a case, which ends in drv::answer(r, o), evaluated by the compiler."""

    def __init__(self, ctx, prelude, code, bare):
        super().__init__(ctx, prelude, code, bare, flags=GCC)

    def _source(self, part):
        out = ["#include \"drv.hpp\"\n", self.prelude, "\n"]
        for n, (op, a) in part:
            body = self.code(op, a).replace("drv::answer(", "return drv::answered(")
            out.append("constexpr auto f_%d() -> std::string {\n#line 1 \"case_%d\"\n%s\n}\n"
                       "static constexpr auto r_%d = drv::fixed_call<1 << 13>(f_%d);\n" % (n, n, body, n, n))
        out.append("int main() {\n")
        out += ["drv::report_call(r_%d, f_%d);\n" % (n, n) for n, _ in part]
        out.append("}\n")
        return "".join(out)
