"""32-bit ARM: instruction sets follow capabilities, architecture and core identity."""
import struct

from vlib import armgen as G, armmodel as M
from vlib.core import Part
from vlib.judge import ended
from props.p15 import word

RULE = ("random 32-bit ARM systems with random capability words, architecture strings, core identities, chipsets and coprocessor ids; on "
        "Android also every fallback source of the capabilities; a case counts once per distinct (source, set of instruction sets)")
ASSUMPTIONS = ["capabilities and coprocessor id registers are answered by the harness"]

BITS = dict(swp=0, half=1, thumb=2, fastmult=4, fpa=5, vfp=6, edsp=7, java=8, iwmmxt=9, crunch=10, thumbee=11, neon=12, vfpv3=13,
            vfpv3d16=14, tls=15, vfpv4=16, idiva=17, idivt=18, vfpd32=19, lpae=20, evtstrm=21)
BITS["26bit"] = 3
BITS2 = dict(aes=0, pmull=1, sha1=2, sha2=3, crc32=4)
USED = [2, 6, 7, 8, 9, 11, 12, 13, 14, 16, 17, 18, 19]


def words(feats):
    return sum(1 << BITS[f] for f in feats if f in BITS), sum(1 << BITS2[f] for f in feats if f in BITS2)


def gen(android):
    def f(rng, i):
        meta = G.full(rng, 32, android)
        meta["hwcap"] = word(rng, USED, 26)
        meta["hwcap2"] = rng.choice((0, 0, 0, word(rng, [0, 1, 2, 3, 4], 5)))
        meta["fpsid"] = rng.getrandbits(32) & rng.choice((0xFFFFFFFF, 0xFF80FFFF, 0xFF81FFFF))
        meta["wcid"] = rng.choice((rng.getrandbits(32), rng.getrandbits(8) | rng.choice((0, 0x0F, 0x10, 0x1F, 0x20, 0xFF)) << 8))
        if rng.random() < 0.15:
            meta["hw"], meta["chip"] = rng.choice((
                ("Samsung Exynos9810", ("samsung_exynos", 9810)), ("universal9810", ("samsung_exynos", 9810)),
                ("SC9863", ("spreadtrum_sc", 9863)), ("sp9863a", ("spreadtrum_sc", 9863)),
                ("Unisoc T310", ("unisoc_t", 310)), ("Unisoc UMS312", ("unisoc_ums", 312))))
        if rng.random() < 0.3:
            last = max(d["id"] for d in meta["cpus"] if d["impl"] is not None)
            k = rng.choice(sorted(M.FP16_32) + [(0x41, 0xC05), (0x41, 0xC09), (0x51, 0x02D), (0x51, 0x04D), (0x51, 0x06F),
                                                (0x51, 0x00F), (0x41, 0xB56), (0x41, 0xB76), (0x41, 0xB36)])
            for d in meta["cpus"]:
                if d["id"] == last:
                    d["impl"], d["part"] = k
        if rng.random() < 0.3:
            a = rng.choice(("7", "8", "6TEJ", "5TEJ", "5TE", "5T", "5", "4T", "4", "6", "7M", "AArch64"))
            for d in meta["cpus"]:
                if d["arch"] is not None:
                    d["arch"] = a
        src = "getauxval"
        if android:
            src = rng.choice(("getauxval", "auxv", "features"))
        missing = 0
        if src != "getauxval":
            missing = rng.choice((1, 2))
        for d in meta["cpus"]:
            if src == "features" and d["feats"] is not None:
                # most processors agree
                if rng.random() < 0.9:
                    base = meta.setdefault("base", [n for n in G.FEATS32 if rng.random() < rng.choice((0.2, 0.7))])
                    d["feats"] = list(base)
                else:
                    d["feats"] = [n for n in G.FEATS32 if rng.random() < 0.7]
                if not d["feats"]:
                    d["feats"] = ["swp"]
        s = G.files(rng, meta)
        s.regs["auxv_missing"] = missing
        meta["src"] = src
        if src == "auxv":
            recs = [(33, 0xBEEF1000), (6, 4096), (17, 100), (3, 0x10034)]
            recs += [(16, meta["hwcap"]), (26, meta["hwcap2"])]
            rng.shuffle(recs)
            s.file("/proc/self/auxv", b"".join(struct.pack("<II", a, b) for a, b in recs + [(0, 0)]))
        return s
    return f


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    m = s.meta
    x = M.expect(m)
    hw, hw2 = m["hwcap"], m["hwcap2"]
    if m["src"] == "features":
        hw = hw2 = None
        for d in m["cpus"]:
            if d["feats"] is not None and d["id"] in m["valid"]:
                a, b = words(d["feats"])
                hw, hw2 = (a, b) if hw is None else (hw & a, hw2 & b)
        hw, hw2 = hw or 0, hw2 or 0
    want = M.isa32(hw, hw2, m["fpsid"], m["wcid"], x["last"][0], x["last"][1], x["last"][2], m["chip"])
    have = set(r["isa"])
    out = []
    if have - want:
        out.append(("isa", "reported without support: %s (capabilities %#x %#x from %s)" % (" ".join(sorted(have - want)), hw, hw2, m["src"])))
    if want - have:
        out.append(("isa", "supported but not reported: %s (capabilities %#x %#x from %s)" % (" ".join(sorted(want - have)), hw, hw2, m["src"])))
    return out, (m["src"],) + tuple(sorted(have))


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([
        Part("Linux", "arm32", 8000 * k, gen(False), judge),
        Part("Android", "andr32", 5000 * k, gen(True), judge),
    ])
    return rep.finish()
