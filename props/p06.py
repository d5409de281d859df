"""Queries are guarded: abort before initialization, NULL out of range, arrays and accessors agree."""
import subprocess

from vlib import anygen as N
from vlib.core import Part, crash_problem
from vlib.judge import ended
from vlib.scenario import OPT_EVENTS, OPT_NODUMP, OPT_PREINIT, OPT_RANGES

RULE = ("every query before initialization, on every architecture; on random systems, every index in range and a set of indexes out of "
        "range of every indexed query; a case counts once per distinct (query that stopped the program) or (counts of all arrays)")
ASSUMPTIONS = []


def pre_gen(pers):
    def f(rng, i):
        s = N.scenario(rng, pers)
        s.opts = OPT_PREINIT | OPT_NODUMP
        s.pre = i
        return s
    return f


def pre_judge(ss, rs):
    r = rs[0]
    if r.get("returned") or r.get("sig") != 6 or "Sanitizer" in r.get("out", ""):
        c = crash_problem(r)
        return [("guard", "%s before initialization %s instead of stopping the program" % (
            r.get("pre"), "returned" if r.get("returned") else "ended with " + (c[1] if c else "?")))], None
    return [], r.get("pre")


def gen(pers, big=False):
    def f(rng, i):
        s = N.scenario(rng, pers, big)
        s.opts = OPT_EVENTS | OPT_RANGES
        return s
    return f


def judge(ss, rs):
    r = rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    if r["range_bad"]:
        return [("range", "indexed queries are wrong for: %s" % " ".join(r["range_bad"][:10]))], None
    return [], (len(r["procs"]), len(r["cores"]), len(r["clusters"]), len(r["packages"]), len(r["uarchs"]),
                tuple(len(c) for c in r["caches"]))


def run(rep, tier):
    k = 1 if tier == "quick" else 20
    parts = []
    for p, n in (("x64", 800), ("x86", 400), ("arm64", 800), ("arm32", 500), ("andr32", 200), ("rv64", 500), ("rv32", 200),
                 ("fbsd64", 120), ("fbsd32", 120), ("mac64", 120), ("mac32", 120), ("macarm", 120), ("ios", 120), ("wasm", 120), ("wasmarm", 120),
                 ("win64", 120), ("win32", 120), ("winarm", 120)):
        exe = Part(p, p, 1, None, None).exe()
        names = subprocess.run([exe, "--preinits"], stdout=subprocess.PIPE, text=True).stdout.split()
        parts.append(Part(p + " before initialization", p, len(names), pre_gen(p), pre_judge))
        parts.append(Part(p, p, n * k, gen(p), judge))
    parts.append(Part("x64 large", "x64", 60 * k, gen("x64", True), judge, batch=7))
    rep.run_parts(parts)
    return rep.finish()
