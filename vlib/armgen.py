"""Random ARM Linux platforms with a known description (meta), for armmodel."""
from .scenario import Scenario
from .x86gen import cpulist, chunks_for
from . import armmodel as A

SYS = "/sys/devices/system/cpu/"

FEATS64 = ("fp asimd evtstrm aes pmull sha1 sha2 crc32 atomics fphp asimdhp cpuid asimdrdm jscvt fcma lrcpc dcpop sha3 sm3 sm4 "
           "asimddp sha512 sve asimdfhm dit uscat ilrcpc flagm ssbs sb paca pacg dcpodp sve2 svebf16 i8mm bf16 bti").split()
FEATS32 = ("swp half thumb 26bit fastmult fpa vfp edsp java iwmmxt crunch thumbee neon vfpv3 vfpv3d16 tls vfpv4 idiva idivt "
           "vfpd32 lpae evtstrm fphp asimdhp asimddp asimdfhm aes pmull sha1 sha2 crc32 i8mm bf16").split()

# Hardware values (name in /proc/cpuinfo -> series, model)
CHIPS = [
    ("Qualcomm Technologies, Inc MSM8956", "qualcomm_msm", 8956), ("Qualcomm Technologies, Inc MSM8976", "qualcomm_msm", 8976),
    ("Qualcomm Technologies, Inc MSM8992", "qualcomm_msm", 8992), ("Qualcomm Technologies, Inc MSM8994", "qualcomm_msm", 8994),
    ("Qualcomm Technologies, Inc MSM8916", "qualcomm_msm", 8916), ("Qualcomm Technologies, Inc MSM8939", "qualcomm_msm", 8939),
    ("Samsung Exynos 5422", "samsung_exynos", 5422), ("Samsung Exynos5430", "samsung_exynos", 5430),
    ("universal5433", "samsung_exynos", 5433), ("Samsung Exynos7420", "samsung_exynos", 7420),
    ("universal8890", "samsung_exynos", 8890), ("Kirin 920", "hisilicon_kirin", 920), ("Hisilicon Kirin 925", "hisilicon_kirin", 925),
    ("Kirin928", "hisilicon_kirin", 928), ("Hisilicon Kirin 950", "hisilicon_kirin", 950), ("kirin955", "hisilicon_kirin", 955),
    ("MT8135", "mediatek_mt", 8135), ("MT8173", "mediatek_mt", 8173), ("MT8176", "mediatek_mt", 8176),
    ("MT8735", "mediatek_mt", 8735), ("MT6592", "mediatek_mt", 6592), ("MT6595", "mediatek_mt", 6595),
    ("MT6797", "mediatek_mt", 6797), ("MT6799", "mediatek_mt", 6799), ("Rockchip RK3399", "rockchip_rk", 3399),
    ("Qualcomm Technologies, Inc SDM845", "qualcomm_snapdragon", 845), ("Samsung Exynos9810", "samsung_exynos", 9810),
    ("universal9810", "samsung_exynos", 9810), ("universal9820", "samsung_exynos", 9820), ("MT6771", "mediatek_mt", 6771),
    ("Generic AArch64 board", None, 0), ("sun50iw9", None, None),
]
CHIPS32 = [("gs702a", "actions_atm", 7029)]


def chip_for(rng, bits, cores):
    """(Hardware value or None, (series, model) or None); only chips whose decoding does not depend on anything else"""
    r = rng.random()
    if r < 0.25:
        return None, None
    pool = CHIPS + (CHIPS32 if bits == 32 else [])
    if r < 0.7:
        # one that fits the number of cores, if there is one
        fit = [c for c in pool if (c[1], c[2]) in A.cluster_table(bits) and A.cluster_table(bits)[c[1], c[2]]["cores"] == cores]
        pool = fit or pool
    hw, series, model = rng.choice(pool)
    if model is None:
        return None, None
    if series is None:
        return hw, None
    if (series, model) == ("qualcomm_msm", 8916):
        # known misreport: eight cores mean MSM8939; other counts are rejected
        model = {4: 8916, 8: 8939}.get(cores, 0)
    return hw, (series, model)


def core_type(rng, bits, known_only=False):
    pool = list(A.CORES) + list(A.CORES64 if bits == 64 else A.CORES32)
    r = rng.random()
    if r < 0.5:
        k = rng.choice([(0x41, 0xD03), (0x41, 0xD05), (0x41, 0xD07), (0x41, 0xD08), (0x41, 0xD09), (0x41, 0xD0A), (0x41, 0xD0B),
                        (0x41, 0xD0D), (0x41, 0xD41), (0x41, 0xD44), (0x41, 0xD46), (0x41, 0xD47), (0x41, 0xD48), (0x51, 0x800),
                        (0x51, 0x801), (0x51, 0x802), (0x51, 0x803), (0x51, 0x804), (0x51, 0x805), (0x51, 0x205), (0x51, 0x211),
                        (0x53, 1), (0x53, 2), (0x53, 3), (0x53, 4), (0x4E, 3), (0x41, 0xD04)] +
                       ([(0x41, 0xC07), (0x41, 0xC0F), (0x41, 0xC0E), (0x41, 0xC09)] if bits == 32 else [(0x41, 0xD06)]))
    elif r < 0.85 or known_only:
        k = rng.choice(pool)
    elif r < 0.95:
        k = (rng.choice(list(A.MAKER)), rng.choice((rng.getrandbits(12), rng.choice(pool)[1])))
    else:
        k = (rng.getrandbits(8), rng.getrandbits(12))
    var = rng.choice((0, 0, 1, 1, 2, 3, 4, rng.getrandbits(4)))
    return dict(impl=k[0], part=k[1], var=var, rev=rng.choice((0, 0, 1, 2, 3, 4, rng.getrandbits(4))))


def arch_text(rng, bits, t):
    if bits == 64:
        return rng.choice(("8", "8", "8", "8", "AArch64"))
    if t["impl"] == 0x41 and t["part"] >> 8 in (7, 9):
        return rng.choice(("4T", "5TE", "5TEJ"))
    if t["impl"] == 0x41 and t["part"] >> 8 == 0xB:
        return rng.choice(("6TEJ", "7"))
    if t["impl"] == 0x69:
        return rng.choice(("5TE", "5T"))
    if t["part"] >> 8 in (0xD, 8):
        return rng.choice(("8", "8", "7"))
    return rng.choice(("7", "7", "7", "8", "6TEJ"))


def layout(rng, big=False):
    """sizes of the clusters, in order of processor number"""
    r = rng.random()
    if big:
        n = rng.randint(2, 24)
        return [rng.choice((1, 2, 4, 8, 16, rng.randint(1, 40))) for _ in range(n)]
    if r < 0.55:
        return list(rng.choice(((4,), (4, 4), (4, 2), (2, 2), (4, 4, 2), (4, 3, 1), (6, 2), (4, 1), (2,), (1,), (8,), (1, 4),
                                (2, 4), (4, 2, 2), (1, 3, 4), (3, 2, 2, 1), (4, 4, 4, 4))))
    return [rng.randint(1, 6) for _ in range(rng.randint(1, 5))]


def feats_for(rng, bits, f=None):
    names = FEATS64 if bits == 64 else FEATS32
    return [n for n in names if rng.random() < 0.6]


FREQS = (300000, 408000, 576000, 800000, 1000000, 1200000, 1401000, 1500000, 1766400, 1804800, 2000000, 2208000, 2419200, 2841600,
         3000000, 4294967295)


def platform(rng, bits, android=False, big=False):
    """meta of a platform whose description is complete and consistent"""
    sizes = layout(rng, big)
    n = sum(sizes)
    # processor numbers: mostly 0..n-1, else with gaps
    if rng.random() < 0.8:
        ids = list(range(n))
    else:
        ids = sorted(rng.sample(range(n * 2 + 3), n))
    # which processors form the clusters: consecutive, or interleaved
    cl = []
    for c, k in enumerate(sizes):
        cl += [c] * k
    if rng.random() < 0.15:
        rng.shuffle(cl)
    same = rng.random() < 0.3
    types = []
    for c in range(len(sizes)):
        if types and (same or rng.random() < 0.25):
            t = dict(rng.choice(types))
            if rng.random() < 0.3:
                t["rev"] = rng.getrandbits(4)
        else:
            t = core_type(rng, bits)
        types.append(t)
    fmax = [rng.choice(FREQS) for _ in sizes]
    fmin = [rng.choice((300000, 300000, 500000, 576000)) for _ in sizes]
    archs = [arch_text(rng, bits, t) for t in types]
    have_freq = rng.random() < 0.8
    style = rng.choice(("cluster_cpus", "core_siblings", "both"))
    cpus = []
    f = feats_for(rng, bits)
    for i, c in zip(ids, cl):
        mates = [j for j, d in zip(ids, cl) if d == c]
        d = dict(id=i, listed=True, arch=archs[c], feats=list(f), maxf=fmax[c] if have_freq else None,
                 minf=fmin[c] if have_freq else None, pkg=True, clist=None, slist=None, cl=c, **types[c])
        if style in ("cluster_cpus", "both"):
            d["clist"] = mates
        if style == "core_siblings":
            d["slist"] = mates
        if style == "both":
            # the whole package: a kernel that has cluster_cpus_list reports that in core_siblings_list
            d["slist"] = list(ids)
        cpus.append(d)
    if have_freq and rng.random() < 0.2:
        # processors of a cluster which differ, e.g. one that may boost
        for d in cpus:
            if rng.random() < 0.4:
                d["maxf"] = rng.choice(FREQS + (None, None))
    hw, chip = chip_for(rng, bits, n)
    meta = dict(bits=bits, android=android, cpus=cpus, valid=list(ids), hw=hw, chip=chip, style=style, hwcap=0, hwcap2=0,
                fmt="blocks", sizes=sizes)
    return meta


def degrade(rng, meta):
    """takes information away from a complete description, the ways kernels do"""
    bits = meta["bits"]
    cpus = meta["cpus"]
    how = []

    def offline(d, keep_topology):
        d["listed"] = False
        for k in ("impl", "var", "part", "rev", "arch", "feats"):
            d[k] = None
        if not keep_topology:
            d["pkg"] = False
            d["clist"] = d["slist"] = None

    r = rng.random()
    if r < 0.45:
        # one block with the identity of one core, after all processor numbers
        how.append("single")
        meta["fmt"] = "single"
        src = rng.choice((cpus[0], cpus[-1], rng.choice(cpus)))
        ident = {k: src[k] for k in ("impl", "var", "part", "rev", "arch", "feats")}
        for d in cpus:
            for k in ident:
                d[k] = None
        cpus[-1].update(ident)
    elif r < 0.85:
        how.append("offline")
        keep = rng.random() < 0.3
        mode = rng.random()
        for d in cpus:
            if mode < 0.4:
                off = d["cl"] != 0 if rng.random() < 0.9 else rng.random() < 0.5
            elif mode < 0.7:
                off = d is not rng.choice(cpus) and rng.random() < 0.7
            else:
                off = d["cl"] == 0
            if off:
                offline(d, keep)
        if all(not d["listed"] for d in cpus):
            how.append("none listed")
    if rng.random() < 0.35:
        how.append("no topology")
        for d in cpus:
            d["pkg"] = False
            d["clist"] = d["slist"] = None
    elif rng.random() < 0.2:
        how.append("some topology")
        for d in cpus:
            if rng.random() < 0.5:
                d["pkg"] = False
                d["clist"] = d["slist"] = None
    if rng.random() < 0.3:
        how.append("fields")
        for k in rng.sample(("impl", "var", "part", "rev"), rng.choice((1, 1, 1, 2, 4))):
            for d in cpus:
                if rng.random() < 0.8:
                    d[k] = None
    if rng.random() < 0.4:
        how.append("freq")
        for d in cpus:
            if rng.random() < 0.5:
                d["maxf"] = None
            if rng.random() < 0.5:
                d["minf"] = None
    # what an online processor's list shows of processors that are off
    listed_topology = {d["id"] for d in cpus if d["pkg"]}
    for d in cpus:
        for k in ("clist", "slist"):
            if d[k] is not None:
                d[k] = [j for j in d[k] if j in listed_topology]
    meta["degraded"] = how
    return meta


def block(rng, d, rich):
    out = []
    if d.get("feats") is not None:
        out.append("Features\t: " + " ".join(d["feats"]) + rng.choice((" ", "")))
    for key, k, fmt in (("CPU implementer", "impl", "0x%02x"), ("CPU architecture", "arch", "%s"), ("CPU variant", "var", "0x%x"),
                        ("CPU part", "part", "0x%03x"), ("CPU revision", "rev", "%d")):
        if d.get(k) is not None:
            out.append("%s%s: %s" % (key, "" if key == "CPU architecture" else "\t", fmt % d[k]))
    for c in ("i", "d"):
        g = d.get(c + "cache")
        if g:
            C = c.upper()
            rows = ["%s size\t\t: %d" % (C, g[0]), "%s assoc\t\t: %d" % (C, g[1]), "%s line length\t: %d" % (C, g[2]),
                    "%s sets\t\t: %d" % (C, g[3])]
            bad = d.get(c + "bad")
            if bad:
                # one unusable value: the description as a whole does not count
                rows[bad[0]] = rows[bad[0]][:rows[bad[0]].index(": ") + 2] + bad[1]
            out += [x for x in rows if not x.endswith(": drop")]
    if rich:
        rng.shuffle(out)
    return out


def cpuinfo_text(rng, meta):
    cpus = meta["cpus"]
    out = []
    rich = rng.random() < 0.2
    bogo = rng.random() < 0.6
    if meta["fmt"] == "single":
        if rng.random() < 0.7:
            out.append("Processor\t: " + ("AArch64 Processor rev 3 (aarch64)" if meta["bits"] == 64 else "ARMv7 Processor rev 4 (v7l)"))
        for d in cpus:
            if d["listed"]:
                out.append("processor\t: %d" % d["id"])
                if bogo:
                    out += ["BogoMIPS\t: 26.00", ""]
        for d in cpus:
            if d["listed"]:
                last = d
        out += block(rng, last, rich)
        out.append("")
    else:
        for d in cpus:
            if d["listed"]:
                out.append("processor\t: %d" % d["id"])
                if rng.random() < 0.1:
                    out.append("model name\t: ARMv8 Processor rev %d (v8l)" % rng.randint(0, 9))
                if bogo:
                    out.append("BogoMIPS\t: %d.%02d" % (rng.randint(3, 200), rng.randint(0, 99)))
                out += block(rng, d, rich)
                out.append("")
    if meta.get("hw") is not None:
        out.append("Hardware\t: " + meta["hw"])
    if meta.get("revision") is not None:
        out.append("Revision\t: " + meta["revision"])
    if rng.random() < 0.4:
        out.append("Serial\t\t: 0000000000000000")
    return "\n".join(out) + "\n"


def files(rng, meta, s=None, chunk=True, present=None, possible=None, kmax=None):
    """the files that say what meta says"""
    s = s or Scenario()
    ids = set(meta["valid"])
    top = max(ids)
    ch = (lambda: chunks_for(rng)) if chunk else (lambda: ())
    possible = ids if possible is None else possible
    present = ids if present is None else present
    if possible is not False:
        s.file(SYS + "possible", cpulist(rng, possible, any_order=True) + "\n", chunks=ch())
    if present is not False:
        s.file(SYS + "present", cpulist(rng, present, any_order=True) + "\n", chunks=ch())
    if kmax is not False:
        s.file(SYS + "kernel_max", "%d\n" % (kmax if kmax is not None else rng.choice((top, top + 1, max(top, 7), max(top, 255)))))
    s.file("/proc/cpuinfo", cpuinfo_text(rng, meta), chunks=ch())
    for d in meta["cpus"]:
        base = SYS + "cpu%d/" % d["id"]
        if d.get("maxf"):
            s.file(base + "cpufreq/cpuinfo_max_freq", "%d\n" % d["maxf"])
        if d.get("minf"):
            s.file(base + "cpufreq/cpuinfo_min_freq", "%d\n" % d["minf"])
        if d.get("pkg"):
            s.file(base + "topology/physical_package_id", "%d\n" % 0)
            if d.get("clist") is not None:
                s.file(base + "topology/cluster_cpus_list", cpulist(rng, d["clist"]) + "\n", chunks=ch())
            if d.get("slist") is not None:
                s.file(base + "topology/core_siblings_list", cpulist(rng, d["slist"]) + "\n", chunks=ch())
    s.regs = dict(hwcap=meta.get("hwcap", 0), hwcap2=meta.get("hwcap2", 0), sve_vl=meta.get("sve_vl", -1),
                  fpsid=meta.get("fpsid", 0), mvfr0=meta.get("mvfr0", 0), wcid=meta.get("wcid", 0))
    s.meta = meta
    return s


def full(rng, bits, android=False, big=False):
    """a platform with all clusters reported and every cluster identified by its first processor"""
    meta = platform(rng, bits, android, big)
    # processors other than the first of a cluster may be off
    if rng.random() < 0.3:
        first = {}
        for d in meta["cpus"]:
            first.setdefault(d["cl"], d["id"])
        for d in meta["cpus"]:
            if d["id"] != first[d["cl"]] and rng.random() < 0.5:
                d["listed"] = False
                for k in ("impl", "var", "part", "rev", "arch", "feats"):
                    d[k] = None
    return meta


def partial(rng, bits, android=False):
    while True:
        meta = degrade(rng, platform(rng, bits, android))
        if meta["fmt"] == "single" and not any(d["listed"] for d in meta["cpus"]):
            continue
        return meta
