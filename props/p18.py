"""ARM: vendor, microarchitecture and MIDR of every core."""
from vlib import armgen as G, armmodel as M
from vlib.core import Part
from vlib.judge import ended

RULE = ("systems of up to 128 one-core clusters, each with its own identity: every part number of every known maker, with variants and "
        "revisions, and random other identities; a case counts once per distinct set of (vendor, microarchitecture) reported, and "
        "identities counts the core identities compared")
ASSUMPTIONS = []
N = 128
KNOWN = sorted(M.MAKER)


def platform(rng, bits, idents, android=False):
    cpus = []
    arch = "8" if bits == 64 else rng.choice(("7", "8", "7", "6TEJ", "5TE"))
    for i, (impl, var, part, rev) in enumerate(idents):
        feats = ["vfpv4"] if rng.random() < 0.5 else ["half", "vfp"]
        cpus.append(dict(id=i, listed=True, impl=impl, var=var, part=part, rev=rev, arch=arch, feats=feats, maxf=None, minf=None,
                         pkg=True, clist=[i], slist=None, cl=i))
    return dict(bits=bits, android=android, cpus=cpus, valid=[d["id"] for d in cpus], hw=None, chip=None, fmt="blocks", hwcap=0, hwcap2=0)


def sweep(bits, parts_per_maker=4096):
    """every part of every known maker"""
    per = parts_per_maker // N

    def f(rng, i):
        impl = KNOWN[i // per % len(KNOWN)]
        base = (i % per) * N
        var = lambda: rng.choice((0, 1, 2, 4, rng.getrandbits(4)))
        return G.files(rng, platform(rng, bits, [(impl, var(), base + j, rng.getrandbits(4)) for j in range(N)]), chunk=False)
    return f


def variants(bits):
    """every variant of the parts that are known to anyone, for every maker"""
    parts = sorted({p for t in (M.CORES, M.CORES64, M.CORES32) for _, p in t} | {0xD05, 1, 2, 3, 4, 0x00F})
    every = [(impl, var, part) for impl in KNOWN for part in parts for var in range(16)]

    def f(rng, i):
        take = every[i * N:(i + 1) * N]
        return G.files(rng, platform(rng, bits, [(a, b, c, rng.getrandbits(4)) for a, b, c in take]), chunk=False) if take else None
    f.count = (len(every) + N - 1) // N
    return f


def wild(bits):
    def f(rng, i):
        ids = []
        for _ in range(rng.choice((1, 3, 40))):
            t = G.core_type(rng, bits)
            if rng.random() < 0.4:
                t["impl"], t["part"] = rng.getrandbits(8), rng.choice((rng.getrandbits(12), 0xD03, 0xD05, 0xC07, 0x001))
            ids.append((t["impl"], t["var"], t["part"], t["rev"]))
        return G.files(rng, platform(rng, bits, ids))
    return f


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    m = s.meta
    out = []
    by_id = {p[4]: p for p in r["procs"]}
    got = set()
    for d in m["cpus"]:
        nib = M.arch_of(d["arch"], m["bits"])[2]
        midr = d["impl"] << 24 | d["var"] << 20 | nib << 16 | d["part"] << 4 | d["rev"]
        v, u = M.identity(midr, m["bits"], "vfpv4" in d["feats"])
        p = by_id.get(d["id"])
        if p is None:
            out.append(("missing", "processor %d is not reported" % d["id"]))
            break
        c, cl = r["cores"][p[1]], r["clusters"][p[2]]
        want = [M.VENDOR[v], M.UARCH[u], midr]
        got.add((v, u))
        if c[5:8] != want or cl[6:9] != want:
            out.append(("identity", "implementer %#x part %#x variant %d: [vendor, microarchitecture, MIDR] of core %r, cluster %r, "
                        "expected %r (%s %s)" % (d["impl"], d["part"], d["var"], c[5:8], cl[6:9], want, v, u)))
            break
    # the list of microarchitectures: one entry per run of equal neighbours, with the identity of its first core
    runs = []
    for c in r["cores"]:
        if not runs or runs[-1][0] != c[6]:
            runs.append([c[6], c[7], 0, 0])
        runs[-1][2] += c[1]
        runs[-1][3] += 1
    if runs != r["uarchs"]:
        out.append(("uarchs", "microarchitecture list %r..., expected %r..." % (r["uarchs"][:4], runs[:4])))
    return out[:2], tuple(sorted(got))


def run(rep, tier):
    q = tier == "quick"
    per = 4096 // N
    k = 1 if q else 20
    parts = []
    for bits, pers in ((64, "arm64"), (32, "arm32")):
        v = variants(bits)
        parts += [
            Part("%s, all parts" % pers, pers, per * len(KNOWN) * (1 if q else 8), sweep(bits), judge, batch=5),
            Part("%s, all variants" % pers, pers, v.count, v, judge, batch=3),
            Part("%s, any identity" % pers, pers, 300 * k, wild(bits), judge, batch=10),
        ]
    rep.run_parts(parts)
    return rep.finish()
