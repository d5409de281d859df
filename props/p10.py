"""ARM: clusters as the kernel reports them, biggest cores first."""
from vlib import armgen as G, armmodel as M
from vlib.core import Part
from vlib.judge import ended

RULE = ("random ARM systems (1..5 clusters, up to 24 in the large part; interleaved and sparse processor numbers; identity of each "
        "cluster given by its first processor); a case counts once per distinct (order of Linux numbers, cluster shape, "
        "microarchitectures) observed from the public API")
ASSUMPTIONS = ["sibling lists in sysfs are consistent with each other"]


def gen(bits, android=False, big=False):
    def f(rng, i):
        return G.files(rng, G.full(rng, bits, android, big))
    return f


def differences(r, x):
    out = []
    for name, cols, key in (("processors", slice(0, 5), "procs"), ("clusters", slice(0, 9), "clusters"),
                            ("cores", slice(0, 8), "cores"), ("uarchs", slice(0, 4), "uarchs")):
        a = [p[cols] for p in r[key]]
        if a != x[key]:
            n = next((k for k, (p, q) in enumerate(zip(a, x[key])) if p != q), min(len(a), len(x[key])))
            out.append((name, "%s differ from #%d: %r, expected %r" % (name, n, a[n:n + 3], x[key][n:n + 3])))
    return out


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    x = M.expect(s.meta)
    out = differences(r, x)
    if len(r["packages"]) != 1 or r["packages"][0][1:] != [0, len(r["procs"]), 0, len(r["procs"]), 0, len(r["clusters"])]:
        out.append(("package", "package is %r" % (r["packages"],)))
    return out[:1], (tuple(p[4] for p in r["procs"]), tuple(tuple(c[:2]) for c in r["clusters"]), tuple(c[7] for c in r["clusters"]))


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([
        Part("arm64", "arm64", 6000 * k, gen(64), judge),
        Part("arm32", "arm32", 4000 * k, gen(32), judge),
        Part("arm64 large", "arm64", 300 * k, gen(64, big=True), judge, batch=10),
    ])
    return rep.finish()
