"""Threads that initialize and query at the same time see one complete, equal state."""
import copy

from vlib import anygen as N, x86gen as X
from vlib.core import Part
from vlib.judge import ended
from vlib.scenario import F_ALLOC, OPT_EVENTS, OPT_THREADS

RULE = ("random systems of every architecture, initialized and queried by 2 to 16 threads at once, with random delays inside the calls "
        "the library makes, under TSan and ASan, compared with one thread alone; in some, initialization fails for lack of memory; a case "
        "counts once per distinct (threads, outcome, state)")
ASSUMPTIONS = ["one run shows one schedule; the race detector reports unordered accesses also when they happen not to collide"]


def gen(pers):
    def f(rng, i):
        s = N.scenario(rng, pers)
        s.getcpu = X.probe_ids(rng, s.meta["usable"], 12)
        s.opts = OPT_EVENTS
        if rng.random() < 0.15:
            s.fault = (F_ALLOC, rng.randrange(6), 12)
        t = copy.deepcopy(s)
        t.opts |= OPT_THREADS
        t.pre = rng.getrandbits(31)
        return [s, t]
    return f


def view(r):
    return {k: v for k, v in r.items() if k not in ("id", "ev", "threads", "out")}


def judge(ss, rs):
    a, b = rs
    if not ss[0].fault:
        bad = ended(a)
        if bad:
            return bad, None
    bad = ended(b)
    if bad and bad[0][0] != "init-failed":
        return bad, None
    n, ok, again, differ, cur = b["threads"]
    want = n if a.get("init") else 0
    out = []
    if ok != want or again != want:
        out.append(("result", "initialization alone %s; of %d threads it succeeded in %d, and again in %d" % (
            "succeeds" if a.get("init") else "fails", n, ok, again)))
    if differ:
        out.append(("differ", "%d of %d threads see another state than the first" % (differ, n)))
    if cur:
        out.append(("current", "%d of %d threads get a wrong current processor" % (cur, n)))
    if not out and view(a) != view(b):
        out.append(("view", "the state is not the one a single thread gets"))
    ev = {k: (a["ev"][k], b["ev"][k]) for k in ("alloc", "open", "read", "close", "cpuid", "live") if a["ev"][k] != b["ev"][k]}
    if not out and ev:
        out.append(("once", "the platform was not read exactly once: (alone, threads) %r" % ev))
    return out[:1], (n, ok, repr(b.get("procs"))[:300])


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([Part(p + " races", p, n * k, gen(p), judge, san="tsan", batch=20, confirm=20) for p, n in (
        ("x64", 360), ("arm64", 360), ("andr64", 140), ("rv64", 280), ("fbsd64", 80), ("mac64", 80), ("macarm", 80), ("wasm", 80),
        ("win64", 80), ("winarm", 80))] +
        [Part(p, p, n * k, gen(p), judge, batch=20, confirm=20) for p, n in (("x64", 200), ("x86", 200), ("arm32", 200), ("rv32", 100))])
    return rep.finish()
