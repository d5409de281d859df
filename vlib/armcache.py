"""Reference model of ARM caches: (size, ways, line, flags) by core type, chip, cluster and number of cores."""
K, MB = 1024, 1024 * 1024
INCLUSIVE = 2


def c(size, ways, line, flags=0):
    return (size, ways, line, flags)


FIXED = {
    "cortex_a35": (c(16 * K, 2, 64), c(16 * K, 4, 64), c(256 * K, 8, 64), None),
    "cortex_a65": (c(32 * K, 4, 64), c(32 * K, 4, 64), c(128 * K, 4, 64, INCLUSIVE), c(512 * K, 16, 64)),
    "cortex_a77": (c(64 * K, 4, 64), c(64 * K, 4, 64), c(256 * K, 8, 64, INCLUSIVE), c(MB, 16, 64)),
    "neoverse_n1": (c(64 * K, 4, 64), c(64 * K, 4, 64), c(MB, 8, 64, INCLUSIVE), None),
    "neoverse_v1": (c(64 * K, 4, 64), c(64 * K, 4, 64), c(256 * K, 8, 64, INCLUSIVE), None),
    "neoverse_n2": (c(64 * K, 4, 64), c(64 * K, 4, 64), c(256 * K, 8, 64, INCLUSIVE), None),
    "neoverse_v2": (c(64 * K, 4, 64), c(64 * K, 4, 64), c(MB, 8, 64, INCLUSIVE), None),
    "denver": (c(128 * K, 4, 64), c(64 * K, 4, 64), c(2 * MB, 16, 64), None),
    "denver2": (c(128 * K, 4, 64), c(64 * K, 4, 64), c(2 * MB, 16, 64), None),
    "exynos_m1": (c(64 * K, 4, 128), c(32 * K, 8, 64), c(2 * MB, 16, 64), None),
    "exynos_m2": (c(64 * K, 4, 128), c(32 * K, 8, 64), c(2 * MB, 16, 64), None),
    "exynos_m3": (c(64 * K, 4, 128), c(64 * K, 8, 64), c(512 * K, 16, 64), c(4 * MB, 16, 64)),
}
# per core in the cluster
FIXED32 = {
    "arm11": lambda n: (c(16 * K, 4, 32), c(16 * K, 4, 32), None, None),
    "cortex_a5": lambda n: (c(32 * K, 2, 32), c(32 * K, 4, 32), c(256 * K, 8, 32), None),
    "cortex_a7": lambda n: (c(32 * K, 2, 32), c(32 * K, 4, 64), c(n * 128 * K, 8, 64), None),
    "cortex_a9": lambda n: (c(32 * K, 4, 32), c(32 * K, 4, 32), c(MB, 16, 32), None),
    "cortex_a15": lambda n: (c(32 * K, 2, 64), c(32 * K, 2, 64), c(n * 512 * K, 16, 64), None),
    "cortex_a17": lambda n: (c(32 * K, 4, 64), c(32 * K, 4, 64), c(n * 512 * K, 16, 64), None),
    "scorpion": lambda n: (c(32 * K, 4, 32), c(32 * K, 4, 32), c(n * 256 * K, 4, 128), None),
    "krait": lambda n: (c(16 * K, 4, 64), c(16 * K, 4, 64), c(n * 512 * K, 8, 128), None),
}
XSCALE = {2: (c(16 * K, 32, 32), c(16 * K, 4, 64), None, None), 4: (c(32 * K, 32, 32), c(32 * K, 32, 32), None, None),
          6: (c(32 * K, 4, 32), c(32 * K, 4, 32), c(256 * K, 8, 32), None)}


def a53(midr, chip, cluster):
    series, model = chip
    if (midr >> 24, midr >> 4 & 0xFFF) == (0x51, 0x801):
        big = {("qualcomm_msm", 8998): True, ("qualcomm_snapdragon", 630): cluster == 0, ("qualcomm_snapdragon", 636): True,
               ("qualcomm_snapdragon", 660): True}.get(chip, False)
        return c(32 * K, 2, 64), c(32 * K, 4, 64), c(MB if big else 512 * K, 16, 64), None
    l1, l2 = 16 * K, 256 * K
    first = cluster == 0
    if series in ("qualcomm_msm", "qualcomm_apq", "qualcomm_snapdragon", "hisilicon_hi", "hisilicon_kirin"):
        l1, l2 = 32 * K, 512 * K
        if first and chip in (("qualcomm_msm", 8937), ("qualcomm_msm", 8940), ("qualcomm_msm", 8953), ("qualcomm_snapdragon", 450)) or \
                chip == ("hisilicon_kirin", 970):
            l2 = MB
        if chip == ("qualcomm_msm", 8952) and not first:
            l2 = 256 * K
    elif chip == ("mediatek_mt", 8173):
        l1, l2 = 32 * K, 512 * K
    elif series == "rockchip_rk":
        l1 = 32 * K
        if model == 3368 and first:
            l2 = 512 * K
    elif chip == ("broadcom_bcm", 2837):
        l2 = 512 * K
    elif series == "samsung_exynos":
        l1 = 32 * K
    return c(l1, 2, 64), c(l1, 4, 64), c(l2, 16, 64), None


def decode(uarch, cores, midr, chip, cluster, arch, bits, android):
    """(l1i, l1d, l2, l3), each (size, ways, line, flags) or None; chip is (series, model)"""
    series, model = chip
    if uarch in FIXED:
        return FIXED[uarch]
    if bits == 32 and uarch in FIXED32:
        return FIXED32[uarch](cores)
    if bits == 32 and uarch == "xscale":
        return XSCALE[midr >> 12 & 15]
    if bits == 32 and uarch == "cortex_a8":
        return c(32 * K, 4, 64), c(32 * K, 4, 64), c(512 * K if series.startswith("samsung") else 256 * K, 8, 64), None
    if uarch == "cortex_a53":
        return a53(midr, chip, cluster)
    l1 = c(32 * K, 4, 64)
    if uarch in ("cortex_a55", "cortex_a55r0"):
        silver = (midr >> 24, midr >> 4 & 0xFFF) == (0x51, 0x803)
        if not silver and series == "samsung_exynos":
            return l1, l1, c(512 * K, 16, 64), None
        l3 = 2 * MB if silver and chip == ("qualcomm_snapdragon", 845) else 4 * MB if not silver and chip == ("hisilicon_kirin", 980) else MB
        return l1, l1, c(128 * K, 4, 64), c(l3, 16, 64)
    if uarch == "cortex_a57":
        return c(48 * K, 3, 64), c(32 * K, 2, 64), c(cores * 512 * K, 16, 64, INCLUSIVE), None
    if uarch == "cortex_a72":
        return c(48 * K, 3, 64), c(32 * K, 2, 64), c(2 * MB if series == "hisilicon_kirin" else MB, 16, 64, INCLUSIVE), None
    if uarch == "cortex_a73":
        d, l2 = 32 * K, 512 * K
        if series == "hisilicon_kirin":
            d, l2 = 64 * K, 2 * MB
        elif series == "mediatek_mt":
            d, l2 = 64 * K, MB
        elif midr == 0x51AF8001:
            d, l2 = 64 * K, 2 * MB
        elif midr == 0x51AF8002:
            d, l2 = 64 * K, MB
        return c(64 * K, 4, 64), c(d, d >> 12, 64), c(l2, 16, 64, INCLUSIVE), None
    if uarch == "cortex_a75":
        return c(64 * K, 4, 64), c(64 * K, 16, 64), c(256 * K, 8, 64), c(2 * MB if chip == ("qualcomm_snapdragon", 845) else MB, 16, 64)
    if uarch == "cortex_a76":
        k = chip == ("hisilicon_kirin", 980)
        return c(64 * K, 4, 64), c(64 * K, 4, 64), c(512 * K if k else 256 * K, 8, 64, INCLUSIVE), c(4 * MB if k else MB, 16, 64)
    if uarch == "kryo":
        silver = (midr >> 24, midr >> 4 & 0xFFF) in ((0x51, 0x201), (0x51, 0x211))
        return c(32 * K, 4, 64), c(24 * K, 3, 64), c(512 * K if silver else MB, 8, 128), None
    if bits == 64 and not android and uarch == "thunderx":
        return c(78 * K, 4, 64), c(32 * K, 4, 64), c(16 * MB, 8, 64), None
    if bits == 64 and not android and uarch == "taishan_v110":
        return c(64 * K, 4, 128), c(64 * K, 4, 128), c(512 * K, 8, 128, INCLUSIVE), c(cores * MB, 16, 128)
    if arch >= 8:
        return l1, l1, c(cores * 256 * K, 8, 64), None
    l1 = c(16 * K, 4, 32)
    return l1, l1, c(cores * 128 * K, 8, 32) if arch >= 7 else None, None


MAX = {"cortex_a5": 512 * K, "cortex_a7": MB, "cortex_a8": MB, "cortex_a9": MB, "cortex_a12": 8 * MB, "cortex_a17": 8 * MB, "cortex_a15": 4 * MB,
       "cortex_a35": MB, "cortex_a53": 2 * MB, "cortex_a57": 2 * MB, "cortex_a72": 4 * MB, "cortex_a73": 8 * MB}
OWN = {"xscale", "arm11", "scorpion", "krait", "kryo", "exynos_m1", "exynos_m2", "exynos_m3"}


def maximum(uarch, own):
    """own: (l1i, l1d, l2, l3) of the first processor"""
    if uarch in OWN:
        return [x[0] for x in own[1:] if x][-1]
    return MAX.get(uarch, 4 * MB)


def expect(clusters, chip, bits, android, arch_of, override=None):
    """clusters: [(first processor, number, uarch name, midr)]; arch_of(first processor) -> architecture version;
    override: {processor: (l1i, l1d)} from /proc/cpuinfo. Returns (caches[4], names per processor[4], maximum)"""
    n = sum(k[1] for k in clusters)
    chip = chip[:2] if chip else ("unknown", 0)
    lists = [[], [], [], []]
    refs = [[-1] * n for _ in range(4)]

    def add(level, x, start, count):
        size, ways, line, flags = x[:4]
        sets = x[4] if len(x) > 4 else size // (ways * line)
        lists[level].append([size, ways, sets, 1, line, flags, start, count])
        for p in range(start, start + count):
            refs[level][p] = len(lists[level]) - 1
    dec = [decode(u, cnt, midr, chip, i, arch_of(st), bits, android) for i, (st, cnt, u, midr) in enumerate(clusters)]
    for (st, cnt, u, midr), d in zip(clusters, dec):
        for p in range(st, st + cnt):
            o = override.get(p, (None, None)) if override else (None, None)
            add(0, o[0] or d[0], p, 1)
            add(1, o[1] or d[1], p, 1)
    shared = all(d[3] for d in dec) and len({d[3][0] for d in dec}) == 1
    for (st, cnt, u, midr), d in zip(clusters, dec):
        if d[3]:
            for p in range(st, st + cnt):
                add(2, d[2], p, 1)
            if not shared:
                add(3, d[3], st, cnt)
            elif st == 0:
                add(3, d[3], 0, n)
        elif d[2]:
            add(2, d[2], st, cnt)
    first = [lists[k][refs[k][0]] if refs[k][0] >= 0 else None for k in range(4)]
    return lists, refs, maximum(clusters[0][2], first)
