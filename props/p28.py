"""macOS and iOS on ARM: cores, microarchitectures, instruction sets, name and caches follow the kernel's answers."""
from props.p27 import compare
from vlib import osgen as O
from vlib.core import Part
from vlib.judge import ended

RULE = ("random Apple ARM systems: core counts, chip families, feature answers of new and old kernels, brand strings, every documented device, "
        "cache and line sizes, answers missing at random; a case counts once per distinct (family, cores, instruction sets, name, caches)")
ASSUMPTIONS = ["the kernel's sysctl interface is answered by the harness, with the sources compiled as on these systems",
               "one package, one thread per core, as on every Apple ARM chip"]


def gen(pers):
    return lambda rng, i: O.apple(rng, pers)


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    x = O.apple_expect(s)
    out = compare(r, x, {"procs": lambda p: p[:4] + p[6:], "cores": lambda c: c[:7], "clusters": lambda c: c[:8], "packages": lambda k: k,
                         "uarchs": lambda u: [u[0], u[2], u[3]]})
    have, want = set(r["isa"]), x["isa"]
    if have - want:
        out.append(("isa", "reported without support: %s" % " ".join(sorted(have - want))))
    if want - have:
        out.append(("isa", "supported but not reported: %s" % " ".join(sorted(want - have))))
    return out[:1], (s.meta["family"], s.meta["cores"], tuple(sorted(have)), s.meta["name"], repr(r["caches"]))


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([Part("macOS", "macarm", 6000 * k, gen("macarm"), judge),
                   Part("iOS", "ios", 6000 * k, gen("ios"), judge),
                   Part("iOS uninitialised", "ios", 1500 * k, gen("ios"), judge, san="msan", log_level=5)])
    return rep.finish()
