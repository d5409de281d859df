"""Windows on ARM: cores, caches, identity, frequency, name and instruction sets follow the system's answers."""
from props.p27 import compare
from vlib import osgen as O
from vlib.core import Part
from vlib.judge import ended

RULE = ("random Windows systems on ARM: packages, groups, cache records of new and old systems in several orders, registry names, MIDR values and "
        "frequencies, features, answers missing at random; a case counts once per distinct (packages, processors, identity, instruction sets, "
        "name, caches)")
ASSUMPTIONS = ["the Windows calls are answered by the harness, with the sources compiled as on Windows",
               "one thread per core; the first processor's registry entry speaks for all cores, which is all that the library reads"]


def gen(rng, i):
    return O.windows_arm(rng, "winarm", i % 50 == 0)


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    x = O.windows_arm_expect(s)
    out = compare(r, x, {"procs": lambda p: p[:5] + p[6:], "cores": lambda c: c[:7] + [c[8]], "clusters": lambda c: c[:8] + [c[9]],
                         "packages": lambda k: k, "uarchs": lambda u: [u[0], u[2], u[3]]})
    have, want = set(r["isa"]), x["isa"]
    if have - want:
        out.append(("isa", "reported without support: %s" % " ".join(sorted(have - want))))
    if want - have:
        out.append(("isa", "supported but not reported: %s" % " ".join(sorted(want - have))))
    return out[:1], (tuple(s.meta["n"]), s.meta["chip"][1], tuple(sorted(have)), s.meta["chip"][0], repr(r["caches"]))


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([Part("systems", "winarm", 6000 * k, gen, judge),
                   Part("uninitialised", "winarm", 1500 * k, gen, judge, san="msan", log_level=5)])
    return rep.finish()
