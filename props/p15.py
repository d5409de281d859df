"""64-bit ARM: instruction sets follow the kernel's hardware capabilities."""
from vlib import armgen as G, armmodel as M
from vlib.core import Part
from vlib.judge import ended

RULE = ("random 64-bit ARM systems with random hardware capability words (single bits, dense, sparse), SVE vector lengths, core "
        "identities and chipsets; a case counts once per distinct set of instruction sets reported")
ASSUMPTIONS = ["hardware capabilities are answered by the harness in place of the kernel's auxiliary vector"]


def word(rng, used, width):
    r = rng.random()
    if r < 0.3:
        return 1 << rng.choice(used)
    if r < 0.5:
        return ((1 << width) - 1) ^ (1 << rng.choice(used))
    if r < 0.6:
        return 0
    if r < 0.8:
        return rng.getrandbits(width)
    return rng.getrandbits(width) & rng.getrandbits(width)


USED = sorted(set(M.HW64.values()) | {9, 10, 12, 20})
USED2 = sorted(set(M.HW64_2.values()) | {12, 14})


def gen(android):
    def f(rng, i):
        meta = G.full(rng, 64, android)
        meta["hwcap"] = word(rng, USED, 32)
        meta["hwcap2"] = word(rng, USED2, 64)
        meta["sve_vl"] = rng.choice((-1, 16, 32, 64, 128, 256, 8192, rng.randint(1, 512) * 16)) | rng.choice((0, 0, 0, 1 << 17))
        if rng.random() < 0.25:
            # cores that are known to have half precision or dot product, whatever an old kernel says
            last = max(d["id"] for d in meta["cpus"] if d["impl"] is not None)
            k = rng.choice(sorted(M.FP16_64 | M.DOT_64 | {(0x41, 0xD05), (0x41, 0xD0A)}))
            for d in meta["cpus"]:
                if d["id"] == last:
                    d["impl"], d["part"] = k
        if rng.random() < 0.05:
            meta["hw"], meta["chip"] = rng.choice((("Samsung Exynos9810", ("samsung_exynos", 9810)),
                                                   ("universal9810", ("samsung_exynos", 9810))))
        if any((d["impl"], d["part"]) in ((0x41, 0xD05), (0x41, 0xD0A)) and d["var"] < 2 for d in meta["cpus"]):
            # the first revisions have no dot product, and no kernel claims it for them
            meta["hwcap"] &= ~(1 << 20)
        return G.files(rng, meta)
    return f


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    m = s.meta
    x = M.expect(m)
    want = M.isa64(m["hwcap"], m["hwcap2"], m["sve_vl"], x["last"][0], m["chip"])
    have = set(r["isa"])
    out = []
    if have - want:
        out.append(("isa", "reported without support: %s" % " ".join(sorted(have - want))))
    if want - have:
        out.append(("isa", "supported but not reported: %s" % " ".join(sorted(want - have))))
    vl = 0 if m["sve_vl"] < 0 else (m["sve_vl"] & 0xFFFF) * 8
    if r["sve"] != vl:
        out.append(("sve", "SVE length %d bits, expected %d" % (r["sve"], vl)))
    return out, tuple(sorted(have))


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([
        Part("Linux", "arm64", 8000 * k, gen(False), judge),
        Part("Android", "andr64", 3000 * k, gen(True), judge),
    ])
    return rep.finish()
