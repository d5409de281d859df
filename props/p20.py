"""ARM: the package is named after the system-on-chip the kernel and the system properties identify."""
import re

from vlib import armgen as G, socmodel as S
from vlib.core import Part
from vlib.judge import ended

RULE = ("Hardware and Revision values and Android properties made of the documented chip signatures and table entries with random models, "
        "suffixes, letter case, surrounding words and small mutations, on systems with 1 to 24 processors; a case counts once per distinct "
        "(identification, processors, name)")
ASSUMPTIONS = ["golden/arm-soc.json, reviewed, lists the platforms identified by name", "Hardware values of at most 63 characters"]

SIG = ["MSM####", "APQ####", "MSM ####", "SDM###", "SM####", "MT####", "MTK####", "Kirin ###", "kirin###", "Kirin###", "RK####", "rk####",
       "Samsung Exynos####", "Samsung Exynos ####", "universal####", "UNIVERSAL####", "SMDK4210", "SMDK4x12", "smdk4x12", "sc####", "SC####",
       "sp####", "scx15", "Unisoc T###", "Unisoc T####", "Unisoc UMS###", "Unisoc UMS####", "PXA###", "PXA####", "PXA1L88", "sun4i", "sun5i",
       "sun6i", "sun7i", "sun8i", "sun9i", "sun50i", "sun50iw1p1", "sun##i", "BCM####", "OMAP####", "WMT", "tcc###x", "exynos####", "lc####",
       "mp523x", "omap4", "rhea", "java", "hawaii", "capri"]
PROP_SIG = {
    "ro.product.board": ["MSM####", "msm####", "APQ####", "universal####", "smdk4x12", "mt####", "MTK####", "sc####", "SC####", "PXA####",
                         "PXA1L88", "lc####", "rhea", "java", "hawaii", "capri"],
    "ro.board.platform": ["msm####", "apq####", "exynos####", "mt####", "kirin###", "sc####", "rk####", "lc####", "rhea", "java", "hawaii",
                          "capri", "tegra", "tegra3", "scx15"],
    "ro.mediatek.platform": ["MT####", "mt####"],
    "ro.arch": ["exynos####"],
    "ro.chipname": ["MSM####", "SM####", "exynos####", "universal####", "mt####", "SC####", "PXA####", "mp523x"],
    "ro.hardware.chipname": ["MSM####", "SM####", "exynos####", "mt####", "SC####"],
}
MODELS = {"MSM": (8916, 8216, 8937, 8960, 8996, 8610, 8976, 8953, 8998), "APQ": (8064, 8084), "MT": (6752, 6735, 6797, 8173),
          "RK": (3288, 3399, 3368), "EXYNOS": (4410, 5420, 7580, 8890), "UNIVERSAL": (5420, 7580, 8895), "BCM": (2708, 2709, 2835, 2711)}
SUFFIX = ("", "", "", "", "MSM", "APQ", "SG", "PRO", "pro", "T", "TURBO", "TRUBO", "turbo", "v2", "AB", "A", "a", "g", "W", "M", "MX", "V/W",
          "V/WT", "-AB", "ABCDEFG", "ABCDEFGH", "x", "X")


def number(rng, sig):
    head = sig.rstrip("#x i").upper().split()[-1] if "#" in sig else ""
    n = sig.count("#")
    for k, v in MODELS.items():
        if head.startswith(k) and n == 4 and rng.random() < 0.5:
            return "%04d" % rng.choice(v)
    return "".join(rng.choice("0123456789") for _ in range(n))


def fill(rng, sig, suffix=None):
    d = iter(number(rng, sig))
    t = "".join(next(d) if c == "#" else c for c in sig)
    if "#" in sig:
        t += rng.choice(SUFFIX) if suffix is None else suffix
    return t


def mutate(rng, t):
    k = rng.randrange(7)
    if not t:
        return t
    p = rng.randrange(len(t))
    if k == 0:
        return t[:p] + t[p + 1:]
    if k == 1:
        return t[:p] + rng.choice("0159aZ -/_x,") + t[p:]
    if k == 2:
        return t[:p] + t[p].swapcase() + t[p + 1:]
    if k == 3:
        return t + rng.choice("0159aZ-/_x")
    if k == 4:
        return t[:p] + rng.choice("0159aZ -/_x") + t[p + 1:]
    if k == 5:
        return rng.choice("0aZ_x") + t
    return t[:-1]


def names(rng, tab):
    return rng.choice(S.gold()[tab])[0]


def hw_text(rng, tegra=False):
    r = rng.random()
    if tegra:
        t = names(rng, "tegra_hardware") if r < 0.9 else names(rng, "special_hardware")
    elif r < 0.7:
        t = fill(rng, rng.choice(SIG))
    elif r < 0.9:
        t = names(rng, "special_hardware")
    else:
        t = names(rng, "tegra_hardware")
    if rng.random() < 0.2:
        t = mutate(rng, t)
    if rng.random() < 0.25:
        t = rng.choice(("Qualcomm Technologies, Inc ", "Qualcomm Technologies, Inc. ", "Hisilicon ", "Rockchip ", "MediaTek ", "x,", "a\t", "Generic ")) + t
    if rng.random() < 0.1:
        t += rng.choice((" (Flattened Device Tree)", " board", ",x", " SM8150", " MT6735", "\tRK3399", " V2"))
    return t.strip()[:63].strip()


def clear(t):
    """False where the documentation is silent: very long suffixes, letter case of the Samsung and sp forms, a symbol after "Samsung Exynos####" """
    l = t.lower()
    if re.match(r"samsung exynos\d{4}.$", l):
        return False
    if l.startswith("spx") or "samsung exynos" in l and "Samsung Exynos" not in t:
        return False
    if l[:2] in ("sc", "sp") and len(t) > 14:
        return False
    return True


def revision(rng):
    r = rng.random()
    if r < 0.4:
        return None
    if r < 0.8:
        return rng.choice(("000e", "0002", "0010", "a01041", "a02082", "a22082", "9000c1", "c03111", "a020d3", "b03114", "2a01041", "00000000"))
    return "".join(rng.choice("0123456789abcdef") for _ in range(rng.randint(1, 8)))


def linux_gen(bits):
    def f(rng, i):
        while True:
            meta = G.platform(rng, bits)
            meta["chip"] = None
            meta["hw"] = hw_text(rng) if rng.random() < 0.95 else None
            meta["revision"] = revision(rng)
            if meta["hw"] == "" or meta["hw"] and not clear(meta["hw"]):
                continue
            return G.files(rng, meta)
    return f


def family(rng, v):
    """sources that agree on a vendor"""
    sig = {"q": {"hw": ["MSM####", "APQ####", "SDM###", "SM####"], "ro.product.board": ["msm####", "MSM####", "apq####"],
                 "ro.board.platform": ["msm####", "apq####"], "ro.chipname": ["MSM####", "SM####"], "ro.hardware.chipname": ["MSM####", "SM####"]},
           "m": {"hw": ["MT####"], "ro.product.board": ["mt####"], "ro.board.platform": ["mt####"], "ro.mediatek.platform": ["MT####"],
                 "ro.chipname": ["mt####"], "ro.hardware.chipname": ["mt####"]},
           "h": {"hw": ["Kirin ###", "hi6250", "hi3635"], "ro.product.board": ["EVA-AL10", "LYA-L09", "hi3650", "BEETHOVEN"],
                 "ro.board.platform": ["kirin###", "hi6250", "hi3660"]},
           "s": {"hw": ["universal####", "Samsung Exynos####"], "ro.product.board": ["universal####"], "ro.board.platform": ["exynos####"],
                 "ro.arch": ["exynos####"], "ro.chipname": ["exynos####", "universal####"], "ro.hardware.chipname": ["exynos####"]},
           "a": {"hw": ["Amlogic Meson8", "Amlogic Meson8B"], "ro.board.platform": ["meson3", "meson6", "meson8", "gxbaby", "gxl", "gxm"]},
           "p": {"hw": ["PXA####", "PXA1L88"], "ro.product.board": ["PXA####", "PXA1L88"], "ro.chipname": ["PXA####", "PXA988"]},
           "r": {"hw": ["RK####", "Rockchip RK####"], "ro.product.board": ["K00F", "T7H"], "ro.board.platform": ["rk####", "rk322x"]},
           "c": {"hw": ["sc####", "SC####"], "ro.product.board": ["SC####", "sp####"], "ro.board.platform": ["sc####", "scx15"],
                 "ro.chipname": ["SC####"], "ro.hardware.chipname": ["SC####"]},
           "l": {"ro.product.board": ["lc####"], "ro.board.platform": ["lc####"]},
           "n": {"ro.product.board": ["flounder", "dragon", "g2mv", "grouper"], "ro.board.platform": ["tegra132", "tegra210_dragon", "tegra4"]},
           "b": {"hw": ["BCM####"], "ro.product.board": ["hawaii", "java", "rhea", "capri"], "ro.board.platform": ["hawaii", "java"]}}[v]
    same = rng.random() < 0.5
    num = "%04d" % rng.choice((8916, 8937, 8996, 8976, 6752, 6797, 7580, 5420, 3288, 3399, 7731, 9830, 1088, rng.randint(0, 9999)))
    out = {}
    suf = rng.choice(SUFFIX)
    for k, sigs in sig.items():
        if rng.random() < 0.6:
            s = rng.choice(sigs)
            if same and "#" in s:
                t = s.replace("####", num).replace("###", num[:3]) + (suf if rng.random() < 0.6 else "")
            else:
                t = fill(rng, s, suf if rng.random() < 0.5 else "" if rng.random() < 0.6 else None)
            out[k] = t
    return out


def android_gen(bits):
    def f(rng, i):
        while True:
            meta = G.platform(rng, bits, True)
            meta["chip"] = None
            props = {}
            hw = None
            r = rng.random()
            if r < 0.55:
                props = family(rng, rng.choice("qqmmhhsaprclnb"))
                hw = props.pop("hw", None)
            elif r < 0.7:
                props["ro.board.platform"] = rng.choice(("tegra", "tegra3", "tegra", "tegra4"))
                hw = hw_text(rng, True)
                if rng.random() < 0.2:
                    props["ro.product.board"] = names(rng, "special_board")
            else:
                if rng.random() < 0.5:
                    hw = hw_text(rng)
                k = rng.choice(list(PROP_SIG))
                q = rng.random()
                if k == "ro.product.board" and q < 0.6:
                    t = names(rng, "special_board") if q < 0.3 else names(rng, "huawei") + rng.choice(("", "-L%02d", "-AL%02d", "-TL%02d", "-A%02d", "-AL%d", "-aL%02d")).replace(
                        "%02d", "%02d" % rng.randrange(100)).replace("%d", "1")
                elif k == "ro.board.platform" and q < 0.6:
                    t = names(rng, "special_platform") if q < 0.4 else names(rng, "amlogic")
                else:
                    t = fill(rng, rng.choice(PROP_SIG[k]))
                if rng.random() < 0.2:
                    t = mutate(rng, t)
                props[k] = t[:91]
            if hw == "" or not all(clear(t) for t in list(props.values()) + [hw or ""]):
                continue
            props = {k: v for k, v in props.items() if v}
            meta["hw"] = hw
            meta["props"] = props
            suf = [c[2] for c in S.sources(hw, props, len(meta["cpus"]), bits) if c]
            if len(suf) > 2 and len(set(suf) - {""}) > 1:
                continue        # what becomes of three different suffixes is not said
            s = G.files(rng, meta)
            s.props = sorted(props.items())
            return s
    return f


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    m = s.meta
    n = len(r["procs"])
    if m["android"]:
        chip = S.android(m["hw"], m["props"], n, m["bits"])
    else:
        chip = S.linux(m["hw"], m["revision"], n, m["bits"])
    want = S.name(chip)
    got = r["packages"][0][0]
    sig = (m["hw"], m.get("revision"), str(m.get("props")), n, got)
    if got.rstrip() != want:
        return [("name", "package name %r, expected %r (Hardware %r, Revision %r, properties %r, %d processors)" % (
            got, want, m["hw"], m.get("revision"), m.get("props"), n))], sig
    return [], sig


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([
        Part("arm64", "arm64", 4500 * k, linux_gen(64), judge),
        Part("arm32", "arm32", 4500 * k, linux_gen(32), judge),
        Part("Android arm64", "andr64", 3500 * k, android_gen(64), judge),
        Part("Android arm32", "andr32", 4500 * k, android_gen(32), judge),
    ])
    return rep.finish()
