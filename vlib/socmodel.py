"""Reference model of the ARM system-on-chip name.

The signatures and tables are the documented ones; the maximum frequency is never given to the decoder and counts as unknown.
A chip is (series, model, suffix), or None when nothing is recognised.
"""
import json
import os
import re

from . import build

_g = None


def gold():
    global _g
    if _g is None:
        _g = json.load(open(os.path.join(build.VERIF, "golden/arm-soc.json")))
    return _g


def vendor(series):
    if series.startswith("texas_"):
        return "texas_instruments"
    return series.split("_")[0]


def table(name, text, bits):
    for p, series, model, suffix, arm in gold()[name]:
        if p == text and (bits == 32 or not arm):
            return series, model, "PRO" if suffix == "P" else suffix
    return None


def rx(series, pattern, flags=0, full=True):
    c = re.compile(pattern, flags | re.ASCII)

    def f(t):
        m = c.fullmatch(t) if full else c.match(t)
        if not m:
            return None
        s = m.groupdict().get("s") or ""
        return series, int(m.group("m")), s.upper()
    return f


I = re.I
_msm = rx("qualcomm_msm", r"msm ?(?P<m>\d{4})(?P<s>[a-z-]{0,8})", I, False)
_apq = rx("qualcomm_apq", r"apq ?(?P<m>\d{4})(?P<s>[a-z-]{0,8})", I, False)
sdm = rx("qualcomm_snapdragon", r"SDM(?P<m>\d{3})")
sm = rx("qualcomm_snapdragon", r"SM(?P<m>\d{4})")
mt_end = rx("mediatek_mt", r"mtk?(?P<m>\d{4})(?P<s>[a-z/]{0,8})", I)
mt_any = rx("mediatek_mt", r"mtk?(?P<m>\d{4})(?P<s>[a-z/]{0,8})", I, False)
kirin = rx("hisilicon_kirin", r"[Kk]irin[ \t]?(?P<m>\d{3})")
rk = rx("rockchip_rk", r"rk(?P<m>\d{4})(?P<s>[a-z]?)", I)
samsung = rx("samsung_exynos", r"S(?i:amsung) E(?i:xynos) ?(?P<m>\d{4})")
exynos = rx("samsung_exynos", r"exynos(?P<m>\d{4})")
universal = rx("samsung_exynos", r"universal(?P<m>\d{4})", I)
_sc = rx("spreadtrum_sc", r"s[cp](?P<m>\d{4})(?P<s>[a-z]{0,8})", I)
unisoc_t = rx("unisoc_t", r"Unisoc T(?P<m>\d{3,4})")
unisoc_ums = rx("unisoc_ums", r"Unisoc UMS(?P<m>\d{3,4})")
_lc = rx("leadcore_lc", r"lc(?P<m>\d{4})(?P<s>[A-Za-z]?)")
_pxa = rx("marvell_pxa", r"PXA(?P<m>\d{3,4})")
bcm = rx("broadcom_bcm", r"BCM(?P<m>\d{4})")
_omap = rx("texas_instruments_omap", r"OMAP(?P<m>\d{4})")
_tcc = rx("telechips_tcc", r"tcc(?P<m>\d{3})(?P<s>x)")


def msm_apq(t):
    return _msm(t) or _apq(t)


def sc(t):
    return ("spreadtrum_sc", 7715, "") if t.lower() == "scx15" else _sc(t)


def pxa(t):
    return ("marvell_pxa", 1088, "") if t == "PXA1L88" else _pxa(t)


def smdk(t, cores):
    if t[:4].lower() != "smdk":
        return None
    model = {"4210": 4210, "4x12": {2: 4212, 4: 4412}.get(cores)}.get(t[4:])
    return ("samsung_exynos", model, "") if model else None


SUNXI32 = {(4, 1): (10, ""), (5, 1): (13, ""), (6, 4): (31, ""), (7, 2): (20, ""), (8, 2): (23, ""), (8, 4): (33, ""),
           (8, 8): (83, "T"), (9, 8): (80, "")}
SUNXI = {(50, 4): (64, "")}


def sunxi(t, cores, bits):
    m = re.match(r"sun([0-9]{1,2})i", t)
    if not m:
        return None
    k = (int(m.group(1)), cores)
    model, suffix = SUNXI.get(k) or bits == 32 and SUNXI32.get(k) or (0, "")
    return "allwinner_a", model, suffix


def broadcom(t, cores):
    model = {("rhea", 1): 21654, ("java", 4): 23550, ("hawaii", 1): 21663, ("hawaii", 2): 21664, ("capri", 2): 28155}.get((t, cores))
    return ("broadcom_bcm", model, "") if model else None


def huawei(t):
    m = re.fullmatch(r"([A-Z]{3})(-[A-Z]{1,2}[0-9]{2})?", t)
    d = dict(gold()["huawei"])
    if not m or m.group(1) not in d:
        return None
    if m.group(2) and not re.fullmatch(r"-(L|[A-Z]L)[0-9]{2}", m.group(2)):
        return None
    return "hisilicon_kirin", d[m.group(1)], ""


def first(t, *fs):
    for f in fs:
        r = f(t)
        if r:
            return r
    return None


def hardware(t, cores, bits, tegra=False):
    t = t or ""
    if tegra:
        return table("tegra_hardware", t, bits)
    for m in re.finditer(r"(?:^|(?<=[ \t,]))[A-Za-z]", t):
        r = first(t[m.start():], msm_apq, sdm, sm, mt_end, kirin, rk)
        if r:
            return r
    arm = bits == 32
    none = lambda t: None
    return first(t, samsung, universal, (lambda t: smdk(t, cores)) if arm else none, sc, unisoc_t, unisoc_ums, pxa if arm else none,
                 lambda t: sunxi(t, cores, bits), bcm, _omap if arm else none,
                 (lambda t: ("wondermedia_wm", 0, "") if t == "WMT" else None) if arm else none, _tcc,
                 lambda t: table("special_hardware", t, bits))


def fixup(chip, cores):
    if not chip:
        return chip
    series, model, suffix = chip

    def by(ok, other, arm_only=False):
        nonlocal series, model
        if cores in ok:
            return
        r = other.get(cores, 0)
        if isinstance(r, tuple):
            series, model = r
        else:
            model = r
    if series == "qualcomm_msm":
        if not suffix:
            if model == 8216:
                model = 8916
            elif model == 8916:
                by((4,), {8: 8939})
            elif model == 8937:
                by((8,), {4: 8917})
            elif model == 8960:
                by((2,), {4: ("qualcomm_apq", 8064)})
            elif model == 8996:
                by((4,), {8: 8994})
            elif model == 8610 and BITS == 32:
                by((2,), {4: 8612})
        elif suffix == "MSM":
            suffix = ""
        elif (model, suffix) == (8976, "SG"):
            suffix = "PRO"
        elif (model, suffix) == (8996, "PRO"):
            suffix = "PRO-AB"
    elif series == "qualcomm_apq":
        if suffix == "APQ":
            suffix = ""
    elif series == "samsung_exynos":
        if model == 4410 and BITS == 32:
            model = 4412
        elif model == 5420 and BITS == 32:
            by((4,), {6: 5260})
        elif model == 7580:
            by((8,), {4: 7578})
    elif series == "mediatek_mt":
        if model == 6752:
            by((8,), {4: 6732})
        if suffix in ("TURBO", "TRUBO"):
            suffix = "T"
    elif series == "rockchip_rk":
        if model == 3288:
            by((4,), {6: 3399})
    return series, model, suffix


BITS = 64


def raspberry(chip, revision, bits):
    series, model, suffix = chip
    n = len(revision or "")
    if n == 4 and bits == 32:
        return series, 2835 if model == 2708 else model, suffix
    if 5 <= n <= 8:
        m = {"0": 2835, "1": 2836, "2": 2837, "3": 2711}.get(revision[-4])
        if m:
            return series, m, ""
    return chip


def linux(hw, revision, cores, bits):
    global BITS
    BITS = bits
    c = hardware(hw, cores, bits)
    if c and vendor(c[0]) == "broadcom":
        return raspberry(c, revision, bits)
    return fixup(c, cores)


def board(t, cores, bits):
    arm = bits == 32
    none = lambda t: None
    return first(t, msm_apq, universal, (lambda t: smdk(t, cores)) if arm else none, mt_end, sc, pxa if arm else none,
                 _lc if arm else none, (lambda t: broadcom(t, cores)) if arm else none, huawei,
                 lambda t: table("special_board", t, bits))


def platform(t, cores, bits):
    arm = bits == 32
    none = lambda t: None
    return first(t, msm_apq, exynos, mt_end, kirin, sc, rk, _lc if arm else none, huawei,
                 (lambda t: broadcom(t, cores)) if arm else none, lambda t: table("amlogic", t, bits),
                 lambda t: table("special_platform", t, bits))


def chipname(t, bits):
    arm = bits == 32
    none = lambda t: None
    return first(t, msm_apq, sm, exynos, universal, mt_end, sc, pxa if arm else none,
                 (lambda t: ("renesas_mp", 5232, "") if t == "mp523x" else None) if arm else none)


# sources in order: Hardware, ro.product.board, ro.board.platform, ro.mediatek.platform, ro.arch, ro.chipname, ro.hardware.chipname
PREFER = {"qualcomm": (6, 5, 0, 1, 2), "mediatek": (5, 0, 1, 2, 3), "hisilicon": (0, 1, 2), "amlogic": (0, 2), "marvell": (5, 1, 0),
          "rockchip": (1, 0, 2), "spreadtrum": (5, 1, 0, 2)}
PROPS = ("ro.product.board", "ro.board.platform", "ro.mediatek.platform", "ro.arch", "ro.chipname", "ro.hardware.chipname")


def sources(hw, props, cores, bits):
    """what each source says, after the corrections by the number of processors"""
    global BITS
    BITS = bits
    g = lambda k: props.get(k, "")
    c = [hardware(hw, cores, bits, g("ro.board.platform") in ("tegra", "tegra3")), board(g("ro.product.board"), cores, bits),
         platform(g("ro.board.platform"), cores, bits), mt_any(g("ro.mediatek.platform")), exynos(g("ro.arch")),
         chipname(g("ro.chipname"), bits), chipname(g("ro.hardware.chipname"), bits)]
    return [fixup(x, cores) for x in c]


def android(hw, props, cores, bits):
    """hw: Hardware value; props: dict of properties. Returns a chip or None"""
    c = sources(hw, props, cores, bits)
    vs = {vendor(x[0]) for x in c if x}
    if len(vs) != 1:
        return None
    # a longer suffix completes a shorter one of the same series
    for i in range(7):
        for j in range(i):
            if c[i] and c[j] and c[i][0] == c[j][0]:
                a, b = c[i][2], c[j][2]
                if a != b and (a.startswith(b) or b.startswith(a)):
                    s = a if len(a) > len(b) else b
                    c[i], c[j] = c[i][:2] + (s,), c[j][:2] + (s,)
    known = [x for x in c if x]
    if all(x == known[0] for x in known):
        return known[0]
    order = PREFER.get(vs.pop())
    if order is None:
        return None
    for k in order[:-1]:
        if c[k]:
            return c[k]
    return c[order[-1]]


def name(chip):
    if not chip:
        return "Unknown"
    series, model, suffix = chip
    g = gold()
    t = "%s %s" % (g["vendors"][vendor(series)], g["series"][series])
    return t.rstrip() if model == 0 else t + "%d%s" % (model, suffix)
