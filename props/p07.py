"""Processors, cores, clusters and packages form one consistent nested hierarchy."""
from vlib import anygen as N
from vlib.core import Part
from vlib.judge import ended, structure

RULE = ("random systems of every architecture, complete and incomplete descriptions, up to 1000 processors in the large parts; a case "
        "counts once per distinct hierarchy (ranges of cores, clusters, packages and microarchitectures) observed")
ASSUMPTIONS = []


def gen(pers, big=False):
    def f(rng, i):
        return N.scenario(rng, pers, big)
    return f


def judge_for(riscv):
    def judge(ss, rs):
        r = rs[0]
        bad = ended(r)
        if bad:
            return bad, None
        return structure(r, riscv)[:1], (tuple(tuple(c[:2]) for c in r["cores"]), tuple(tuple(c[:4]) for c in r["clusters"]),
                                         tuple(tuple(k[1:]) for k in r["packages"]), tuple(tuple(u) for u in r["uarchs"]))
    return judge


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    parts = []
    for pers, n in (("x64", 2500), ("x86", 1200), ("arm64", 2500), ("arm32", 1500), ("andr64", 800), ("andr32", 800), ("rv64", 1500),
                    ("rv32", 700), ("fbsd64", 300), ("fbsd32", 300), ("mac64", 300), ("mac32", 300), ("macarm", 300), ("ios", 300),
                    ("wasm", 300), ("wasmarm", 300), ("win64", 300), ("win32", 300), ("winarm", 300)):
        parts.append(Part(pers, pers, n * k, gen(pers), judge_for(N.family(pers) == "riscv")))
    for pers in ("x64", "arm64", "rv64"):
        parts.append(Part(pers + " large", pers, 100 * k, gen(pers, True), judge_for(pers == "rv64"), batch=7))
    rep.run_parts(parts)
    return rep.finish()
