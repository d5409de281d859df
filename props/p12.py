"""Caches cover exactly the processors that name them and are consistent in size."""
from vlib import anygen as N, osgen as O, x86gen as X
from vlib.core import Part
from vlib.judge import LV, ended, caches

RULE = ("random x86 and ARM systems, with random cache geometry in CPUID or /proc/cpuinfo; a case counts once per distinct (sizes, "
        "geometry and processor ranges of all caches) observed")
ASSUMPTIONS = []


def geometry(rng):
    """cache fields as old ARM kernels print them"""
    line = rng.choice((16, 32, 32, 64, 128))
    ways = rng.choice((1, 2, 4, 4, 8, 16, 32))
    sets = rng.choice((1, 2, 32, 64, 128, 256, 512))
    return (line * ways * sets, ways, line, sets)


def gen(pers, big=False):
    def f(rng, i):
        if pers in O.BITS:
            return O.scenario(rng, pers, big)
        fam, d, ids = N.base(rng, pers, big)
        if fam == "arm" and rng.random() < 0.3:
            g = [geometry(rng) for _ in range(2)]
            for c in d["cpus"]:
                if c["listed"] and (d["fmt"] == "blocks" or c["impl"] is not None):
                    if rng.random() < 0.2:
                        g = [geometry(rng) for _ in range(2)]
                    c["icache"], c["dcache"] = g
        return N.write(rng, fam, d)
    return f


def judge(ss, rs):
    r = rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    out = caches(r)
    if not any(r["caches"]):
        return out[:1], None
    return out[:1], repr(r["caches"])


def arm_judge(ss, rs):
    r = rs[0]
    out, sig = judge(ss, rs)
    if sig is None or out:
        return out, sig
    n = len(r["procs"])
    for lv in (0, 1):
        if [c[6:8] for c in r["caches"][lv]] != [[i, 1] for i in range(n)]:
            out.append(("l1", "first-level caches are not one per core: %r" % [c[6:8] for c in r["caches"][lv]][:8]))
    for st, cnt in (c[:2] for c in r["clusters"]):
        for lv in (2, 3, 4):
            if len({p[6 + lv] < 0 for p in r["procs"][st:st + cnt]}) > 1:
                out.append(("levels", "only part of the cluster [%d, +%d) has an %s cache" % (st, cnt, LV[lv])))
            if len({p[6 + lv] < 0 or repr(r["caches"][lv][p[6 + lv]][:6]) for p in r["procs"][st:st + cnt]}) > 1:
                out.append(("levels", "the cores of the cluster [%d, +%d) differ in their %s caches" % (st, cnt, LV[lv])))
    cl = [tuple(c[:2]) for c in r["clusters"]]
    for lv in (2, 3):
        for c in r["caches"][lv]:
            st, cnt = c[6:8]
            # a shared cache never splits a cluster
            if cnt > 1 and not (any((st, cnt) == x for x in cl) or cnt == n):
                out.append(("sharing", "cache covers [%d, +%d), which is neither a cluster nor the package" % (st, cnt)))
    if r["maxcache"] == 0:
        out.append(("max", "the maximum cache size is 0"))
    return out[:1], sig


def x86_judge(ss, rs):
    r = rs[0]
    out, sig = judge(ss, rs)
    if sig is None or out:
        return out, sig
    want = ([a[0][0] for a in r["caches"][1:] if a] or [0])[-1]
    if r["maxcache"] != want:
        out.append(("max", "the maximum cache size is %d, the last-level cache has %d" % (r["maxcache"], want)))
    return out[:1], sig


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    parts = [Part(p, p, n * k, gen(p), x86_judge if N.family(p) == "x86" else arm_judge) for p, n in (
        ("x64", 2500), ("x86", 1200), ("arm64", 3000), ("arm32", 3500), ("andr64", 600), ("andr32", 800))]
    parts += [Part(p, p, 300 * k, gen(p), judge if p.startswith("wasm") or p == "winarm" else x86_judge) for p in O.PERS]
    parts += [Part(p + " large", p, 80 * k, gen(p, True), x86_judge if p == "x64" else arm_judge, batch=7) for p in ("x64", "arm64")]
    rep.run_parts(parts)
    return rep.finish()
