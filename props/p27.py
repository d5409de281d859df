"""FreeBSD and macOS on x86: the report follows the kernel's counts and CPUID."""
from props import p14, p17, p19
from vlib import osgen as O
from vlib.core import Part
from vlib.judge import LV, ended

RULE = ("random FreeBSD and macOS systems on x86: kernel counts of packages, cores and threads, scheduler group descriptions, cache sharing "
        "lists, missing answers, random CPUID of every topology and cache path; and the instruction set, vendor, microarchitecture and name "
        "workloads of the Linux checks; a case counts once per distinct (counts, cache geometry) or identity observed")
ASSUMPTIONS = ["the kernels' sysctl interface is answered by the harness, with the sources compiled as on these systems",
               "counts are consistent: cores a multiple of packages, and within the widths that CPUID gives"]


def gen(pers):
    return lambda rng, i: O.x86(rng, pers, i % 50 == 0)


def first_diff(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "number %d is %r, expected %r" % (k, x, y)
    return "%d, expected %d" % (len(a), len(b))


def compare(r, x, cut):
    """[problem] where the dump, with each row cut as given, differs from what is due"""
    for what, f in cut.items():
        have = [f(row) for row in r[what]]
        if have != x[what]:
            return [("topology", "%s: %s" % (what, first_diff(have, x[what])))]
    for lv in range(5):
        if r["caches"][lv] != x["caches"][lv]:
            return [("cache", "%s caches [size, ways, sets, partitions, line, flags, first processor, count]: %s" % (
                LV[lv], first_diff(r["caches"][lv], x["caches"][lv])))]
    if r["maxcache"] != x["maxcache"]:
        return [("maxcache", "maximum cache size %d, expected %d" % (r["maxcache"], x["maxcache"]))]
    return []


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    x = O.x86_expect(s)
    out = compare(r, x, {"procs": lambda p: p, "cores": lambda c: c[:5], "clusters": lambda c: c[:6], "packages": lambda k: k[1:]})
    return out, (tuple(s.meta["n"]), repr(r["caches"]))


def under(mod, pers):
    """the workload of a check for Linux, on another system"""
    g = mod.gen(O.BITS[pers])

    def f(rng, i):
        s = g(rng, i)
        s.files = {}
        tpc = rng.choice((1, 1, 2))
        n = rng.choice((1, 2, 4))
        p = rng.choice((1, n))
        O.x86_answers(rng, s, pers, p, n, tpc)
        return s
    return f


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    parts = [Part("hierarchy and caches " + p, p, n * k, gen(p), judge) for p, n in (
        ("fbsd64", 2500), ("fbsd32", 1200), ("mac64", 3000), ("mac32", 1200))]
    for p in ("fbsd64", "mac64"):
        parts += [Part("instruction sets " + p, p, len(p14.WALK) + 4096 + 800 * k, under(p14, p), p14.judge, san="plain", batch=200),
                  Part("identity " + p, p, len(p17.SIGS) + 800 * k, under(p17, p), p17.judge, san="plain", batch=200),
                  Part("name " + p, p, 2000 * k, under(p19, p), p19.judge, batch=200)]
    rep.run_parts(parts)
    return rep.finish()
