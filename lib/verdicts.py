"""Conformance for what is accepted and what is refused when it is compiled: every case (op, args) is a source file
of its own; the answer is whether the compiler takes it. What all cases share is compiled once, ahead of them."""
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

from cases import Cases
from vf import BASE_FLAGS, CXX, DRIVERS, JOBS, MachineryError


class Verdicts(Cases):
    def __init__(self, ctx, header, code, shows=None, defs=(), includes=(), cxx=CXX, std=None):
        """header: in drivers/. shows(op, args, accepted, log) -> the observation."""
        super().__init__(ctx, "", code, [], defs=defs, cxx=cxx)
        self.shows = shows or (lambda op, a, ok, log: [])
        self.flags = ["-O0", "-fsyntax-only", "-fno-caret-diagnostics" if "clang" in cxx else "-fno-diagnostics-show-caret"] + (["-std=" + std] if std else []) + ["-I" + i for i in includes] + ["-D" + d for d in self.defs]
        self.dir = ctx.uniq("pch")
        os.makedirs(self.dir, exist_ok=True)
        top = os.path.join(self.dir, "all.hpp")
        with open(top, "w") as f:
            f.write('#include "%s"\n' % os.path.join(DRIVERS, header))
        cmd = [cxx] + BASE_FLAGS + [f for f in self.flags if f != "-fsyntax-only"] + ["-x", "c++-header", top, "-o", top + ".gch"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode:
            raise MachineryError("headers do not compile on their own:\n" + p.stdout[-3000:])
        self.use = ["-include-pch", top + ".gch"] if "clang" in cxx else []

    def _try(self, n, op, a, label):
        src = os.path.join(self.dir, "%s_%d.cpp" % (label, n))
        with open(src, "w") as f:
            f.write(('' if self.use else '#include "all.hpp"\n') + self.code(op, a))
        cmd = [self.cxx] + BASE_FLAGS + self.flags + self.use + [src]
        for attempt in (1, 2):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode == 0 or (p.returncode == 1 and "error: " in p.stdout and "internal compiler error" not in p.stdout):
                break
        else:
            raise MachineryError("compiler died: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
        os.unlink(src)
        ok = p.returncode == 0
        return {"op": op, "a": a, "r": int(ok), "o": self.shows(op, a, ok, p.stdout)}

    def run(self, cases, label, group=None):
        cases = list(cases)
        with ThreadPoolExecutor(JOBS) as ex:
            events = list(ex.map(lambda c: self._try(c[0], c[1][0], c[1][1], label), enumerate(cases)))
        for op, _ in cases:
            self.ctx.ops[op] += 1
        return events
