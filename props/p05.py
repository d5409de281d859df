"""Every failure of memory, open or read during initialization is survived cleanly."""
import copy
import struct

from vlib import anygen as N
from vlib.core import Part, crash_problem
from vlib.judge import caches, ended, structure
from vlib.scenario import (F_ALLOC, F_ALLOC_FROM, F_OPEN, F_OPEN_FROM, F_READ, F_READ_FROM, OPT_EVENTS, OPT_POSTFAIL)

RULE = ("random systems of every architecture; for each, every allocation in turn fails, alone and with all later ones, and a selection of "
        "opens and reads; a case counts once per distinct (kind and position of the failure, outcome)")
ASSUMPTIONS = ["a failed call returns NULL or -1 with errno set, as the C library does"]


def gen(pers):
    def f(rng, i):
        s = N.scenario(rng, pers, partial=0.3)
        if pers == "andr32" and rng.random() < 0.6:
            # no getauxval: the capabilities come from a file, which may end early or be missing
            s.regs["auxv_missing"] = rng.choice((1, 2))
            recs = [(33, 0xBEEF1000), (6, 4096), (16, s.regs.get("hwcap", 0)), (26, s.regs.get("hwcap2", 0)), (3, 0x10034), (0, 0)]
            data = b"".join(struct.pack("<II", a, b) for a, b in recs)
            if rng.random() < 0.9:
                s.file("/proc/self/auxv", data if rng.random() < 0.7 else data[:rng.randrange(len(data))])
        s.opts = OPT_EVENTS | OPT_POSTFAIL
        s.pre = rng.randrange(1 << 16)
        out = [s]

        def with_fault(kind, at, errno):
            v = copy.deepcopy(s)
            v.fault = (kind, at, errno)
            v.pre = rng.randrange(1 << 16)
            out.append(v)
        for n in range(0, 20):
            with_fault(F_ALLOC, n, 12)
        for n in rng.sample(range(0, 20), 5):
            with_fault(F_ALLOC_FROM, n, 12)
        for kind in (F_OPEN, F_OPEN_FROM, F_READ, F_READ_FROM):
            for n in sorted(set(rng.sample(range(0, 12), 4) + [rng.randint(0, 120)])):
                with_fault(kind, n, rng.choice((2, 5, 13, 24, 23, 12)))
        return out
    return f


NAMES = {F_ALLOC: "allocation", F_ALLOC_FROM: "allocations from", F_OPEN: "open", F_OPEN_FROM: "opens from", F_READ: "read",
         F_READ_FROM: "reads from"}


def judge_for(pers):
    riscv = N.family(pers) == "riscv"

    def judge(ss, rs):
        out = []
        seen = []
        base = rs[0]
        bad = ended(base)
        if bad:
            return bad, None

        def view(r):
            return {k: v for k, v in r.items() if k not in ("id", "ev", "out")}
        for s, r in zip(ss, rs):
            what = "%s %d" % (NAMES[s.fault[0]], s.fault[1]) if s.fault else "no failure"
            ok = r.get("init")
            post = ok is False
            if not post:
                b = ended(r)
                if b:
                    out += [(k, "with %s: %s" % (what, t)) for k, t in b]
                    continue
            elif r.get("returned") or r.get("sig") != 6 or "Sanitizer" in r.get("out", ""):
                out.append(("guard", "with %s: initialization failed, then cpuinfo_get_%s did not stop the program but %s" % (
                    what, r.get("pre"), "returned" if r.get("returned") else (crash_problem(r) or ("", "?"))[1])))
            e = r.get("ev", {})
            if e.get("unclosed"):
                out.append(("fd", "with %s: %d files stay open" % (what, e["unclosed"])))
            if e.get("leak"):
                out.append(("leak", "with %s: %d blocks of memory are lost" % (what, e["leak"])))
            if e.get("bad_close") or e.get("bad_read") or e.get("bad_free"):
                out.append(("misuse", "with %s: %r" % (what, {k: e[k] for k in ("bad_close", "bad_read", "bad_free") if e[k]})))
            if post:
                if e.get("live"):
                    out.append(("live", "with %s: initialization failed and %d blocks are still allocated" % (what, e["live"])))
                if r.get("again"):
                    out.append(("again", "with %s: initialization failed and later succeeded without being run" % what))
            elif ok:
                out += [(k, "with %s: %s" % (what, t)) for k, t in structure(r, riscv)[:1] + caches(r)[:1]]
                if s.fault and not e.get("hits") and view(r) != view(base):
                    out.append(("unstable", "with %s, which is never reached: another answer" % what))
            if s.fault:
                seen.append((s.fault[0], min(s.fault[1], 12), bool(e.get("hits")), bool(ok)))
        return out[:3], tuple(seen)
    return judge


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([Part(p, p, n * k, gen(p), judge_for(p), batch=4) for p, n in (
        ("x64", 48), ("x86", 16), ("arm64", 48), ("arm32", 28), ("andr64", 8), ("andr32", 16), ("rv64", 28), ("rv32", 8),
        ("fbsd64", 8), ("fbsd32", 8), ("mac64", 8), ("mac32", 8), ("macarm", 8), ("ios", 8), ("wasm", 8), ("wasmarm", 8),
        ("win64", 8), ("win32", 8), ("winarm", 12))])
    return rep.finish(level="fault_enumeration")
