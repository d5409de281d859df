"""WebAssembly: a consistent description from the number of logical processors alone."""
from props.p27 import compare
from vlib import osgen as O
from vlib.core import Part
from vlib.judge import caches, ended, structure

RULE = ("the x86-like and the ARM-like description for every number of logical processors from -2 to 600, and random ones; a case counts once "
        "per distinct number of processors")
ASSUMPTIONS = ["the number of logical cores is answered by the harness, with the sources compiled as under Emscripten",
               "the sign of a NaN, by which the library tells x86 from ARM hosts, is fixed at compile time"]


def gen(pers):
    def f(rng, i):
        import struct
        s = O.wasm(rng, pers)
        if i < 603:
            n = i - 2
            s.file("cores", struct.pack("<i", n))
            s.meta["n"] = max(n, 1)
        return s
    return f


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    x = O.wasm_expect(s)
    out = compare(r, x, {"procs": lambda p: p[:4] + p[6:], "cores": lambda c: c[:5], "clusters": lambda c: c[:6], "packages": lambda k: k})
    n = s.meta["n"]
    if not out and r["uarchs"] != [[0, r["uarchs"][0][1] if r["uarchs"] else 0, n, len(x["cores"])]]:
        out.append(("uarch", "the microarchitecture list is %r" % r["uarchs"]))
    if not out:
        out = structure(r)[:1] + caches(r)[:1]
    if not out and r["isa"]:
        out.append(("isa", "instruction sets reported: %s" % " ".join(r["isa"])))
    return out[:1], n


def run(rep, tier):
    k = 1 if tier == "quick" else 20
    rep.run_parts([Part("x86 host", "wasm", 900 * k, gen("wasm"), judge), Part("ARM host", "wasmarm", 900 * k, gen("wasmarm"), judge),
                   Part("x86 host uninitialised", "wasm", 650, gen("wasm"), judge, san="msan", log_level=5)])
    return rep.finish()
