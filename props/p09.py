"""x86: cores, clusters and packages follow the APIC IDs."""
from vlib import x86gen as G, x86model as M
from vlib.core import Part
from vlib.judge import ended

RULE = ("random well-formed x86 systems (leaf 0xB, leaf 1+4, AMD leaf 0x80000008 and legacy paths; 1..1000 processors; "
        "sparse and shuffled APIC IDs and Linux numbers); a case counts once per distinct (path, shift pair, "
        "processor/core/cluster/package counts, grouping of processors) observed from the public API")
ASSUMPTIONS = ["CPUID is answered by the harness, the same on every processor", "APIC IDs are distinct"]


def gen(bits, big=False):
    def f(rng, i):
        s, cpus = G.gen_platform(rng, bits, big)
        G.platform_files(rng, s, cpus)
        return s
    return f


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    x = M.expect(M.Cpuid(s.cpuid), s.regs["xcr0"], s.meta["bits"], s.meta["cpus"])
    out = []
    if [p[:6] for p in r["procs"]] != [p[:6] for p in x["procs"]]:
        for i, (a, b) in enumerate(zip(r["procs"], x["procs"])):
            if a[:6] != b[:6]:
                out.append(("topology", "processor %d is [smt, core, cluster, package, linux id, apic id] = %r, expected %r" % (
                    i, a[:6], b[:6])))
                break
        else:
            out.append(("topology", "%d processors reported, expected %d" % (len(r["procs"]), len(x["procs"]))))
    if [c[:5] for c in r["cores"]] != x["cores"]:
        out.append(("topology", "cores differ: %r, expected %r" % ([c[:5] for c in r["cores"]][:8], x["cores"][:8])))
    if [c[:6] for c in r["clusters"]] != x["clusters"]:
        out.append(("topology", "clusters differ: %r, expected %r" % ([c[:6] for c in r["clusters"]][:8], x["clusters"][:8])))
    if [c[1:] for c in r["packages"]] != x["packages"]:
        out.append(("topology", "packages differ: %r, expected %r" % ([c[1:] for c in r["packages"]][:8], x["packages"][:8])))
    return out[:1], (s.meta["kind"], s.meta["tb"], s.meta["cb"], x["counts"], tuple(tuple(p[1:4]) for p in r["procs"]))


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([
        Part("x86-64", "x64", 5000 * k, gen(64), judge),
        Part("x86", "x86", 2500 * k, gen(32), judge),
        Part("x86-64 large", "x64", 240 * k, gen(64, True), judge, batch=10),
    ])
    return rep.finish()
