"""ARM: the caches have the documented geometry of the core type, chip and cluster."""
from vlib import armcache as C, armgen as G, armmodel as A, socmodel as S
from vlib.core import Part
from vlib.judge import LV, ended

RULE = ("random complete ARM systems with every known core type, chip and cluster shape; the geometry, sharing and owner of every cache "
        "and the maximum cache size are compared with a reference table; a case counts once per distinct (core types, chip, cluster sizes)")
ASSUMPTIONS = ["vlib/armcache.py, reviewed against the tables of the manuals quoted in the source, gives the geometry"]

HW = ["Qualcomm Technologies, Inc MSM%d" % m for m in (8937, 8940, 8953, 8952, 8998, 8996, 8994, 8956, 8976)] + \
     ["Qualcomm Technologies, Inc SDM%d" % m for m in (630, 636, 660, 845, 450, 710, 670)] + \
     ["Qualcomm Technologies, Inc APQ8064", "Qualcomm Technologies, Inc SM8150", "Hisilicon Kirin 970", "Hisilicon Kirin 980",
      "Hisilicon Kirin 960", "Hisilicon Kirin 950", "hi6250", "hi3751", "MT8173", "MT6797", "MT6771", "Rockchip RK3368", "Rockchip RK3399", "rk3328",
      "BCM2835", "BCM2835", "BCM2835", "BCM2709", "BCM2711", "Samsung Exynos7420", "universal9810", "universal8890", "Samsung Exynos 9820", "Unisoc T618",
      "sun50iw1p1", "Something else", "sc9863a"]
CORES64 = [(0x41, 0xD03), (0x41, 0xD04), (0x41, 0xD05), (0x41, 0xD06), (0x41, 0xD07), (0x41, 0xD08), (0x41, 0xD09), (0x41, 0xD0A), (0x41, 0xD0B),
           (0x41, 0xD0C), (0x41, 0xD0D), (0x41, 0xD40), (0x41, 0xD49), (0x41, 0xD4F), (0x41, 0xD41), (0x41, 0xD44), (0x41, 0xD46), (0x43, 0x0A0),
           (0x43, 0x0A1), (0x43, 0x0AF), (0x48, 0xD01), (0x48, 0xD40), (0x4E, 0), (0x4E, 3), (0x51, 0x201), (0x51, 0x205), (0x51, 0x211),
           (0x51, 0x800), (0x51, 0x801), (0x51, 0x802), (0x51, 0x803), (0x51, 0x804), (0x51, 0x805), (0x53, 1), (0x53, 2), (0x53, 3), (0x53, 4)]
CORES32 = [(0x41, 0xC05), (0x41, 0xC07), (0x41, 0xC08), (0x41, 0xC09), (0x41, 0xC0C), (0x41, 0xC0D), (0x41, 0xC0E), (0x41, 0xC0F), (0x41, 0xB36),
           (0x41, 0xB76), (0x41, 0x926), (0x51, 0x00F), (0x51, 0x02D), (0x51, 0x04D), (0x51, 0x06F), (0x69, 0x212), (0x69, 0x411), (0x69, 0x688)]


def geometry(rng):
    line, ways, sets = rng.choice((16, 32, 64, 128)), rng.choice((1, 2, 4, 8, 32)), rng.choice((32, 64, 128, 256))
    return (line * ways * sets, ways, line, sets)


def gen(bits, android=False):
    def f(rng, i):
        meta = G.platform(rng, bits, android, big=rng.random() < 0.03)
        if rng.random() < 0.85:
            # the tables, rather than any identity
            types = {}
            pool = CORES64 + (CORES32 * 2 if bits == 32 else [])
            near = rng.random() < 0.5
            for d in meta["cpus"]:
                if d["cl"] not in types:
                    k = rng.choice(pool) if not near else rng.choice(((0x41, 0xD03), (0x51, 0x801), (0x51, 0x800), (0x51, 0x803), (0x41, 0xD05),
                                                                     (0x41, 0xD09), (0x41, 0xD0B), (0x41, 0xD0A), (0x41, 0xD08), (0x53, 2)))
                    v, r = rng.choice(((0, 1), (1, 0), (2, 3), (1, 1), (4, 0), (0, 0), (10, 1), (10, 2)))
                    types[d["cl"]] = dict(impl=k[0], part=k[1], var=10 if k == (0x51, 0x800) and rng.random() < 0.6 else v, rev=r)
                d.update(types[d["cl"]])
        for d in meta["cpus"]:
            if (d["impl"], d["part"]) in CORES64 and A.arch_of(d["arch"], bits)[2] != 15:
                d["arch"] = "8"
        if rng.random() < 0.85:
            meta["hw"] = rng.choice(HW)
        meta["revision"] = rng.choice((None, None, "a02082", "a01041", "c03111"))
        if rng.random() < 0.2:
            g = [geometry(rng), geometry(rng)]
            for d in meta["cpus"]:
                which = rng.choice(("i", "d", "id", "id", ""))
                if rng.random() < 0.2:
                    g = [geometry(rng), geometry(rng)]
                if "i" in which:
                    d["icache"] = g[0]
                if "d" in which:
                    d["dcache"] = g[1]
                for c in ("i", "d"):
                    if rng.random() < 0.15:
                        k = rng.randrange(4)
                        d[c + "bad"] = (k, rng.choice(("drop", "drop", "0", "4x", "-4", "x", "0x20") + (("8", "48", "256", "20") if k == 2 else ())))
        return G.files(rng, meta)
    return f


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    m = s.meta
    n = len(r["procs"])
    by_id = {d["id"]: d for d in m["cpus"]}
    bits, android = m["bits"], m["android"]
    chip = S.android(m["hw"], {}, n, bits) if android else S.linux(m["hw"], m["revision"], n, bits)
    clusters = [(c[0], c[1], A.UNAME.get(c[7], "?"), c[8]) for c in r["clusters"]]
    over = {}
    if bits == 32:
        for i, p in enumerate(r["procs"]):
            d = by_id[p[4]]
            over[i] = tuple((g[0], g[1], g[2], 0, g[3]) if (g := d.get(k)) and not d.get(k[0] + "bad") else None for k in ("icache", "dcache"))
    lists, refs, top = C.expect(clusters, chip, bits, android, lambda p: A.arch_of(by_id[r["procs"][p][4]]["arch"], bits)[0], over)
    sig = (tuple(clusters), chip, n, bool(over))
    out = []
    for k in range(4):
        if r["caches"][k] != lists[k]:
            a, b = r["caches"][k], lists[k]
            j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
            out.append((LV[k], "%s cache %d of %d is %r, expected %r of %d [size, ways, sets, partitions, line, flags, first, count] (chip %r, clusters %r)" % (
                LV[k], j, len(a), a[j] if j < len(a) else None, b[j] if j < len(b) else None, len(b), chip,
                [(x[1], x[2], hex(x[3])) for x in clusters])))
        elif [p[6 + k] for p in r["procs"]] != refs[k]:
            out.append((LV[k], "processors refer to other %s caches than expected" % LV[k]))
    if r["caches"][4]:
        out.append(("l4", "an L4 cache is reported"))
    if r["maxcache"] != top:
        out.append(("max", "maximum cache size %d, expected %d (first processor %s)" % (r["maxcache"], top, clusters[0][2])))
    return out[:1], sig


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([
        Part("arm64", "arm64", 4500 * k, gen(64), judge),
        Part("arm32", "arm32", 4500 * k, gen(32), judge),
        Part("Android arm64", "andr64", 2000 * k, gen(64, True), judge),
        Part("Android arm32", "andr32", 2000 * k, gen(32, True), judge),
    ])
    return rep.finish()
