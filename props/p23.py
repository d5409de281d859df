"""RISC-V: hierarchy, vendor, frequency and instruction sets."""
from vlib import rvgen as G
from vlib.core import Part
from vlib.judge import ended

RULE = ("random RISC-V systems (up to 3 packages with clusters, multi-threaded cores, interleaved and sparse numbers, 64 to 200 "
        "processors in the large part), with random capability words and hwprobe answers; a case counts once per distinct "
        "(hierarchy by Linux numbers, vendors, instruction sets) observed")
ASSUMPTIONS = ["the sibling lists of all present processors are readable and consistent with each other"]


def gen(big=False):
    def f(rng, i):
        return G.files(rng, G.platform(rng, big))
    return f


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    x = G.expect(s.meta)
    if {"riscv_" + l for l in "imafd"} <= x["isa"]:
        x["isa"].add("riscv_g")
    have = dict(procs=[p[1:5] for p in r["procs"]], cores=[c[0:7] for c in r["cores"]], freqs=[c[8] for c in r["cores"]],
                clusters=[c[0:4] + c[5:8] for c in r["clusters"]], packages=[k[1:7] for k in r["packages"]],
                uarchs=[[u[0]] + u[2:4] for u in r["uarchs"]], isa=set(r["isa"]))
    out = []
    for k in x:
        if have[k] != x[k]:
            if k == "isa":
                out.append((k, "instruction sets: extra %s, missing %s" % (sorted(have[k] - x[k]), sorted(x[k] - have[k]))))
            else:
                n = next((j for j, (a, b) in enumerate(zip(have[k], x[k])) if a != b), min(len(have[k]), len(x[k])))
                out.append((k, "%s differ from #%d: %r, expected %r" % (k, n, have[k][n:n + 3], x[k][n:n + 3])))
    if any(r["caches"]):
        out.append(("caches", "caches reported although nothing describes them"))
    return out[:1], (tuple(map(tuple, have["procs"])), tuple(c[5] for c in have["cores"]), tuple(sorted(have["isa"])))


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([
        Part("rv64", "rv64", 6000 * k, gen(), judge),
        Part("rv32", "rv32", 3000 * k, gen(), judge),
        Part("rv64 large", "rv64", 200 * k, gen(True), judge, batch=10),
    ])
    return rep.finish()
