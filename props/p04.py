"""After initialization, the library is quiescent and its answers never change."""
from vlib import anygen as N, x86gen as X
from vlib.core import Part
from vlib.judge import ended
from vlib.scenario import OPT_EVENTS, OPT_GETCPU, OPT_STABLE

RULE = ("random systems of every architecture; after the first initialization the state is fingerprinted, then initialization, "
        "deinitialization and every query are repeated, on a platform whose files and CPUID would now answer differently; a case counts "
        "once per distinct state kept")
ASSUMPTIONS = ["memory, file and CPUID activity of the library is counted by the harness"]


def gen(pers):
    def f(rng, i):
        s = N.scenario(rng, pers)
        s.getcpu = X.probe_ids(rng, s.meta["usable"], 12)
        s.opts = OPT_EVENTS | OPT_STABLE | (OPT_GETCPU if rng.random() < 0.5 else 0)
        return s
    return f


def judge(ss, rs):
    r = rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    st = r["stable"]
    out = []
    if not st["again"]:
        out.append(("again", "initializing again reports failure"))
    if not st["same"]:
        out.append(("same", "arrays, counts, contents or instruction sets changed after initialization"))
    busy = {k: st[k] for k in ("alloc", "free", "open", "read", "cpuid") if st[k]}
    if busy:
        out.append(("busy", "activity after initialization: %r" % busy))
    return out[:1], repr(r["procs"])[:400]


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([Part(p, p, n * k, gen(p), judge) for p, n in (
        ("x64", 1200), ("x86", 500), ("arm64", 1200), ("arm32", 800), ("andr64", 300), ("andr32", 300), ("rv64", 600), ("rv32", 300),
        ("fbsd64", 200), ("fbsd32", 200), ("mac64", 200), ("mac32", 200), ("macarm", 200), ("ios", 200), ("wasm", 200), ("wasmarm", 200),
        ("win64", 200), ("win32", 200), ("winarm", 200))])
    return rep.finish()
