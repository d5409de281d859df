"""x86: damaged or malicious kernel files and CPUID answers do no harm."""
from vlib import hostile as H, x86gen as X
from vlib.core import Part, crash_problem
from vlib.judge import LV
from vlib.scenario import OPT_EVENTS, OPT_GETCPU

RULE = ("valid systems with damaged, truncated, exchanged, missing or random kernel files (bytes, numbers, separators, over-long lines), random "
        "CPUID registers and brand strings, and random kernel answers about the current processor, under ASan+UBSan and MSan, at normal and "
        "full logging; a case counts once per distinct (outcome, counts of all objects, reads made)")
ASSUMPTIONS = ["processor lists and kernel limit together allow at most 20000 processors"]


def gen(pers):
    def f(rng, i):
        s = H.scenario(rng, pers)
        s.getcpu = X.probe_ids(rng, s.meta.get("usable") or [0], 6)
        s.opts = OPT_EVENTS | OPT_GETCPU
        return s
    return f


def judge(ss, rs):
    r = rs[0]
    c = crash_problem(r)
    if c:
        return [c], None
    e = r["ev"]
    out = []
    bad = {k: e[k] for k in ("unclosed", "bad_close", "bad_read", "bad_free", "leak") if e.get(k)}
    if bad:
        out.append(("resources", "files or memory are mishandled: %r" % bad))
    if not r["init"]:
        if e.get("live"):
            out.append(("live", "initialization failed and %d blocks are still allocated" % e["live"]))
        return out, ("failed", e["open"], e["read"])
    # every reference stays within the arrays
    P, C, L, K = r["procs"], r["cores"], r["clusters"], r["packages"]
    for i, p in enumerate(P):
        for name, k, arr in (("core", p[1], C), ("cluster", p[2], L), ("package", p[3], K)):
            if not 0 <= k < len(arr):
                out.append(("bounds", "processor %d refers to %s %d of %d" % (i, name, k, len(arr))))
        for lv in range(5):
            if p[6 + lv] != -1 and not 0 <= p[6 + lv] < len(r["caches"][lv]):
                out.append(("bounds", "processor %d refers to %s cache %d of %d" % (i, LV[lv], p[6 + lv], len(r["caches"][lv]))))
    for name, arr, at in (("core", C, 0), ("cluster", L, 0), ("package", K, 1)):
        for i, x in enumerate(arr):
            if x[at] + x[at + 1] > len(P):
                out.append(("bounds", "%s %d covers processors [%d, +%d) of %d" % (name, i, x[at], x[at + 1], len(P))))
    for lv in range(5):
        for i, x in enumerate(r["caches"][lv]):
            if x[6] + x[7] > len(P):
                out.append(("bounds", "%s cache %d covers processors [%d, +%d) of %d" % (LV[lv], i, x[6], x[7], len(P))))
    return out[:1], (len(P), len(C), len(L), len(K), tuple(len(c) for c in r["caches"]), e["read"])


def run(rep, tier):
    k = 1 if tier == "quick" else 60
    rep.run_parts([
        Part("x86-64", "x64", 6000 * k, gen("x64"), judge),
        Part("x86", "x86", 2500 * k, gen("x86"), judge),
        Part("x86-64 debug log", "x64", 2000 * k, gen("x64"), judge, log_level=5),
        Part("x86 debug log", "x86", 1500 * k, gen("x86"), judge, log_level=5),
        Part("x86-64 uninitialised", "x64", 3000 * k, gen("x64"), judge, san="msan", log_level=5),
    ])
    return rep.finish()
