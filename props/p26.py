"""ARM: incomplete descriptions are completed by fixed rules."""
from vlib import armgen as G, armmodel as M
from vlib.core import Part
from vlib.judge import ended
from props.p10 import differences

RULE = ("random ARM systems from which the kernel leaves out part of the description (processors that are off, one identity block for "
        "all processors, no or partial sysfs topology, missing identity fields or frequencies); a case counts once per distinct "
        "(how clusters and identities were completed, shape, order, microarchitectures) observed")
ASSUMPTIONS = ["sibling lists in sysfs are consistent with each other"]


def gen(bits, android=False):
    def f(rng, i):
        return G.files(rng, G.partial(rng, bits, android))
    return f


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    x = M.expect(s.meta)
    return differences(r, x)[:1], (x["how"], tuple(tuple(c[:2]) for c in r["clusters"]), tuple(p[4] for p in r["procs"]),
                                   tuple(c[7] for c in r["clusters"]))


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([
        Part("arm64", "arm64", 5000 * k, gen(64), judge),
        Part("arm32", "arm32", 4000 * k, gen(32), judge),
        Part("Android arm32", "andr32", 2000 * k, gen(32, True), judge),
    ])
    return rep.finish()
