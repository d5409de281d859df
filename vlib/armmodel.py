"""Reference model of what an ARM Linux platform description means.

A platform is a dict (see armgen): what /proc/cpuinfo and sysfs say about each processor.
The model is written over those facts, not over the text of the files.
"""
import json
import os

GOLD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden")

VENDOR = dict(unknown=0, intel=1, arm=3, qualcomm=4, samsung=6, nvidia=7, cavium=12, broadcom=13, apm=14, huawei=15, marvell=31)
UARCH = dict(
    unknown=0, xscale=0x00100600, arm7=0x00300100, arm9=0x00300101, arm11=0x00300102, cortex_a5=0x00300205,
    cortex_a7=0x00300207, cortex_a8=0x00300208, cortex_a9=0x00300209, cortex_a12=0x00300212, cortex_a15=0x00300215,
    cortex_a17=0x00300217, cortex_a32=0x00300332, cortex_a35=0x00300335, cortex_a53=0x00300353, cortex_a55r0=0x00300354,
    cortex_a55=0x00300355, cortex_a57=0x00300357, cortex_a65=0x00300365, cortex_a72=0x00300372, cortex_a73=0x00300373,
    cortex_a75=0x00300375, cortex_a76=0x00300376, cortex_a77=0x00300377, cortex_a78=0x00300378, neoverse_n1=0x00300400,
    neoverse_e1=0x00300401, neoverse_v1=0x00300402, neoverse_n2=0x00300403, neoverse_v2=0x00300404, cortex_x1=0x00300501,
    cortex_x2=0x00300502, cortex_x3=0x00300503, cortex_a510=0x00300551, cortex_a710=0x00300571, cortex_a715=0x00300572,
    scorpion=0x00400100, krait=0x00400101, kryo=0x00400102, falkor=0x00400103, saphira=0x00400104, oryon=0x00400105,
    denver=0x00500100, denver2=0x00500101, carmel=0x00500102, exynos_m1=0x00600100, exynos_m2=0x00600101,
    exynos_m3=0x00600102, exynos_m4=0x00600103, exynos_m5=0x00600104, thunderx=0x00800100, thunderx2=0x00800200,
    pj4=0x00900100, brahma_b15=0x00A00100, brahma_b53=0x00A00101, xgene=0x00B00100, taishan_v110=0x00C00100)
UNAME = {v: k for k, v in UARCH.items()}

# implementer, part -> (vendor, microarchitecture); both 32-bit and 64-bit kernels
CORES = {
    (0x41, 0xD01): ("arm", "cortex_a32"), (0x41, 0xD03): ("arm", "cortex_a53"), (0x41, 0xD04): ("arm", "cortex_a35"),
    (0x41, 0xD06): ("arm", "cortex_a65"), (0x41, 0xD07): ("arm", "cortex_a57"), (0x41, 0xD08): ("arm", "cortex_a72"),
    (0x41, 0xD09): ("arm", "cortex_a73"), (0x41, 0xD0A): ("arm", "cortex_a75"), (0x41, 0xD0B): ("arm", "cortex_a76"),
    (0x41, 0xD0C): ("arm", "neoverse_n1"), (0x41, 0xD0D): ("arm", "cortex_a77"), (0x41, 0xD0E): ("arm", "cortex_a76"),
    (0x41, 0xD40): ("arm", "neoverse_v1"), (0x41, 0xD41): ("arm", "cortex_a78"), (0x41, 0xD44): ("arm", "cortex_x1"),
    (0x41, 0xD46): ("arm", "cortex_a510"), (0x41, 0xD47): ("arm", "cortex_a710"), (0x41, 0xD48): ("arm", "cortex_x2"),
    (0x41, 0xD49): ("arm", "neoverse_n2"), (0x41, 0xD4D): ("arm", "cortex_a715"), (0x41, 0xD4E): ("arm", "cortex_x3"),
    (0x41, 0xD4F): ("arm", "neoverse_v2"),
    (0x42, 0x00F): ("broadcom", "brahma_b15"), (0x42, 0x100): ("broadcom", "brahma_b53"),
    (0x48, 0xD40): ("arm", "cortex_a76"),
    (0x4E, 0x000): ("nvidia", "denver"), (0x4E, 0x003): ("nvidia", "denver2"), (0x4E, 0x004): ("nvidia", "carmel"),
    (0x50, 0x000): ("apm", "xgene"),
    (0x51, 0x201): ("qualcomm", "kryo"), (0x51, 0x205): ("qualcomm", "kryo"), (0x51, 0x211): ("qualcomm", "kryo"),
    (0x51, 0x800): ("arm", "cortex_a73"), (0x51, 0x801): ("arm", "cortex_a53"), (0x51, 0x802): ("arm", "cortex_a75"),
    (0x51, 0x803): ("arm", "cortex_a55r0"), (0x51, 0x804): ("arm", "cortex_a76"), (0x51, 0x805): ("arm", "cortex_a55"),
}
CORES64 = {
    (0x41, 0xD4A): ("arm", "neoverse_e1"), (0x42, 0x516): ("cavium", "thunderx2"),
    (0x43, 0x0A0): ("cavium", "thunderx"), (0x43, 0x0A1): ("cavium", "thunderx"), (0x43, 0x0A2): ("cavium", "thunderx"),
    (0x43, 0x0A3): ("cavium", "thunderx"), (0x43, 0x0AF): ("cavium", "thunderx2"),
    (0x48, 0xD01): ("huawei", "taishan_v110"),
    (0x51, 0x001): ("qualcomm", "oryon"), (0x51, 0xC00): ("qualcomm", "falkor"), (0x51, 0xC01): ("qualcomm", "saphira"),
}
CORES32 = {
    (0x41, 0xC05): ("arm", "cortex_a5"), (0x41, 0xC07): ("arm", "cortex_a7"), (0x41, 0xC08): ("arm", "cortex_a8"),
    (0x41, 0xC09): ("arm", "cortex_a9"), (0x41, 0xC0C): ("arm", "cortex_a12"), (0x41, 0xC0D): ("arm", "cortex_a12"),
    (0x41, 0xC0E): ("arm", "cortex_a17"), (0x41, 0xC0F): ("arm", "cortex_a15"),
    (0x51, 0x02D): ("qualcomm", "scorpion"), (0x51, 0x04D): ("qualcomm", "krait"), (0x51, 0x06F): ("qualcomm", "krait"),
    (0x56, 0x581): ("marvell", "pj4"), (0x56, 0x584): ("marvell", "pj4"),
}
EXYNOS = {(1, 0x001): "exynos_m1", (4, 0x001): "exynos_m2", (1, 0x002): "exynos_m3", (1, 0x003): "exynos_m4",
          (1, 0x004): "exynos_m5"}
MAKER = {0x41: "arm", 0x42: "broadcom", 0x43: "cavium", 0x48: "huawei", 0x69: "intel", 0x4E: "nvidia", 0x50: "apm",
         0x51: "qualcomm", 0x53: "samsung", 0x56: "marvell"}
MAKER64 = {0x43}
MAKER32 = {0x69, 0x56}


def fields(midr):
    return midr >> 24, (midr >> 20) & 15, (midr >> 4) & 0xFFF, midr & 15


def identity(midr, bits, vfpv4=False):
    """(vendor, microarchitecture) names for a MIDR value"""
    impl, var, part, rev = fields(midr)
    k = (impl, part)
    if k == (0x41, 0xD05):
        return "arm", "cortex_a55r0" if var == 0 else "cortex_a55"
    if impl == 0x53:
        return "samsung", EXYNOS.get((var, part), "unknown")
    if k in CORES:
        return CORES[k]
    if bits == 64:
        if k in CORES64:
            return CORES64[k]
    else:
        if k in CORES32:
            return CORES32[k]
        if impl == 0x41 and part >> 8 in (7, 9, 0xB):
            return "arm", {7: "arm7", 9: "arm9", 0xB: "arm11"}[part >> 8]
        if impl == 0x69 and part >> 8 in (2, 4, 6):
            return "intel", "xscale"
        if k == (0x51, 0x00F):
            return ("arm", "cortex_a5") if vfpv4 else ("qualcomm", "scorpion")
    v = MAKER.get(impl, "unknown")
    if bits == 32 and impl in MAKER64 or bits == 64 and impl in MAKER32:
        v = "unknown"
    return v, "unknown"


S6 = {(0x53, 3), (0x53, 4), (0x41, 0xD44), (0x41, 0xD48), (0x41, 0xD4E)}
S5 = {(0x41, p) for p in (0xD08, 0xD09, 0xD0A, 0xD0B, 0xD0D, 0xD0E, 0xD41, 0xD47, 0xD4D)} | {
    (0x48, 0xD40), (0x4E, 3), (0x51, 0x205), (0x51, 0x800), (0x51, 0x802), (0x51, 0x804), (0x53, 1), (0x53, 2)}
S5_32 = {(0x41, p) for p in (0xC0F, 0xC0E, 0xC0D, 0xC0C)}
S2 = {(0x41, 0xD03), (0x41, 0xD05), (0x41, 0xD46)}
S1 = {(0x41, 0xD04), (0x51, 0x805), (0x51, 0x803), (0x51, 0x801), (0x51, 0x211), (0x51, 0x201)}


def role(midr, bits):
    """how big a core is: higher comes first"""
    impl, var, part, rev = fields(midr)
    k = (impl, part)
    if k in S6:
        return 6
    if k in S5 or bits == 32 and k in S5_32:
        return 5
    if k == (0x41, 0xD07):
        return 4
    if k in S2 or bits == 64 and k == (0x41, 0xD06):
        return 2
    if k in S1 or bits == 32 and k == (0x41, 0xC07):
        return 1
    return 3


LITTLE = {0x410FD0A0: 0x410FD050, 0x410FD090: 0x410FD030, 0x410FD080: 0x410FD030, 0x410FD070: 0x410FD030,
          0x530F0010: 0x410FD030, 0x410FC0E0: 0x410FC070, 0x410FC0F0: 0x410FC070, 0x510F8000: 0x51AF8014,
          0x510F2050: 0x510F2110, 0x4E0F0030: 0x410FD070}


def little_for(midr):
    return LITTLE.get(midr & 0xFF0FFFF0, midr)


def arch_of(text, bits):
    """(version, flags, MIDR architecture nibble) of a "CPU architecture" value"""
    if text is None:
        return 0, "", 0
    if text == "AArch64":
        return 8, "", 15
    n = 0
    while n < len(text) and text[n].isdigit():
        n += 1
    v = int(text[:n]) if n else 0
    if v == 0:
        return 0, "", 0
    fl = "".join(c for c in text[n:] if c in "TEJ") if bits == 32 else ""
    nib = 15
    if bits == 32:
        if v == 6:
            nib = 7
        elif v == 5 and "T" in fl and "E" in fl and "J" in fl:
            nib = 6
        elif v == 5 and "T" in fl and "E" in fl:
            nib = 5
        elif v == 5:
            nib = 4
    return v, fl, nib


_CONF = None


def cluster_table(bits):
    global _CONF
    if _CONF is None:
        _CONF = json.load(open(os.path.join(GOLD, "arm-clusters.json")))
    return {(c["series"], c["model"]): c for c in _CONF if c["only"] in ("both", "arm%d" % bits)}


class Cpu:
    PARTS = (("impl", 24, 0xFF), ("var", 20, 0xF), ("part", 4, 0xFFF), ("rev", 0, 0xF))

    def __init__(self, d, bits):
        self.id = d["id"]
        self.listed = d["listed"]
        self.known = {k for k, _, _ in self.PARTS if d.get(k) is not None}
        v, fl, nib = arch_of(d.get("arch"), bits)
        self.arch, self.archfl = v, fl
        self.midr = nib << 16
        for k, sh, m in self.PARTS:
            if k in self.known:
                self.midr |= (d[k] & m) << sh
        self.maxf, self.minf = d.get("maxf") or 0, d.get("minf") or 0
        self.feats = d.get("feats")
        self.leader = self.id
        self.clustered = False

    def full(self):
        return len(self.known) == 4

    def facts(self):
        f = {}
        if self.minf:
            f["minf"] = self.minf
        if self.maxf:
            f["maxf"] = self.maxf
        for k, sh, m in self.PARTS:
            if k in self.known:
                f[k] = (self.midr >> sh) & m
        return f


def mask_of(known):
    return sum(m << sh for k, sh, m in Cpu.PARTS if k in known)


def siblings(meta, C):
    """clusters as sysfs reports them"""
    D = {d["id"]: d for d in meta["cpus"]}
    which = None
    for i in sorted(C):
        d = D[i]
        if not d.get("pkg"):
            continue
        if which is None:
            which = "clist" if d.get("clist") is not None else "slist"
        for j in sorted(d.get(which) or ()):
            if j in C:
                C[i].clustered = C[j].clustered = True
                # the lowest-numbered sibling leads
                lo = min(C[i].leader, C[j].leader)
                C[i].leader = min(C[i].leader, C[j].leader)
                C[j].leader = lo
    for i in sorted(C):
        if C[i].clustered and C[i].leader < i:
            C[i].leader = C[C[i].leader].leader


def merge(acc, f):
    """adds facts f to acc; False if they contradict"""
    for k, v in f.items():
        if k in acc and acc[k] != v:
            return False
    for k, v in f.items():
        acc.setdefault(k, v)
    return True


def by_shape(meta, C):
    shape = {10: (4, 4, 2), 8: (4, 4), 6: (4, 2)}.get(len(C))
    if len(C) == 5 and meta["bits"] == 32 and meta.get("android"):
        shape = (4, 1)
    if shape is None:
        return False
    ids = sorted(C)
    at = 0
    groups = []
    for n in shape:
        groups.append(ids[at:at + n])
        at += n
    for g in groups:
        head = C[g[0]]
        if head.clustered:
            if head.leader != head.id:
                return False
            for j in g[1:]:
                if not C[j].clustered or C[j].leader != head.id:
                    return False
        else:
            acc = {}
            merge(acc, head.facts())
            for j in g[1:]:
                if C[j].clustered or not merge(acc, C[j].facts()):
                    return False
    for g in groups:
        for j in g[1:]:
            C[j].leader = g[0]
            C[j].clustered = True
    return True


def by_scan(C):
    """the processors without a reported cluster, in order: a new cluster at each contradiction"""
    acc, start = None, None
    for i in sorted(C):
        if C[i].clustered:
            continue
        f = C[i].facts()
        if acc is None or not merge(acc, f):
            acc, start = dict(f), i
        C[i].leader = start
        C[i].clustered = True


def assign_midr(meta, C, bits):
    ids = sorted(C)
    D = {i: C[i] for i in ids}
    leaders = [i for i in ids if D[i].leader == i]
    size = {l: sum(1 for i in ids if D[i].leader == l) for l in leaders}
    own = {i for i in ids if {"impl", "part"} <= D[i].known}
    last_listed = max((i for i in ids if D[i].listed), default=None)
    last_own = max(own, default=None)
    for i in ids:
        l = D[D[i].leader]
        if l.id != i:
            if D[i].maxf and not l.maxf:
                l.maxf = D[i].maxf
            if not l.full() and D[i].full():
                l.midr = D[i].midr
                l.known = set(D[i].known)

    def by_chipset(verify):
        if len(leaders) > 3 or not meta.get("chip"):
            return False
        c = cluster_table(bits).get(tuple(meta["chip"]))
        if c is None or c["cores"] != len(ids) or c["clusters"] != len(leaders):
            return False
        if [size[l] for l in leaders] != c["counts"]:
            return False
        if verify and any((D[l].midr ^ m) & mask_of(D[l].known) for l, m in zip(leaders, c["midrs"])):
            return False
        for l, m in zip(leaders, c["midrs"]):
            D[l].midr = m
            D[l].known = {"impl", "var", "part", "rev"}
        return True

    def big_little(count, verify):
        if len(leaders) != 2 or count != 1:
            return False
        src = D[D[last_own].leader]
        big, flags = src.midr, set(src.known)
        small = little_for(big)
        lit = leaders[0]
        if D[leaders[0]].maxf and D[leaders[1]].maxf and D[leaders[0]].maxf > D[leaders[1]].maxf:
            lit = leaders[1]
        want = {l: small if l == lit else big for l in leaders}
        if verify and any((D[l].midr ^ want[l]) & mask_of(D[l].known) for l in leaders):
            return False
        for l in leaders:
            if not D[l].full():
                D[l].midr = want[l]
                D[l].known |= flags
        return True

    def scan():
        m = D[D[last_own].leader].midr
        for l in leaders:
            if D[l].full():
                m = D[l].midr
            else:
                D[l].midr = m
                D[l].known = {"impl", "var", "part", "rev"}

    how = "reported"
    if len(own) == 1 and last_listed == last_own and len(leaders) > 1:
        how = "chipset" if by_chipset(False) else "big.LITTLE" if big_little(1, False) else "scan"
        if how == "scan":
            scan()
    elif len(own) < len(ids) and any(not D[l].full() for l in leaders):
        if by_chipset(True):
            how = "chipset, verified"
        elif last_own is not None:
            how = "big.LITTLE, verified" if big_little(len(own), True) else "scan"
            if how == "scan":
                scan()
        else:
            how = "nothing"
    return leaders, size, how


def expect(meta):
    bits = meta["bits"]
    by_id = {d["id"]: d for d in meta["cpus"]}
    C = {i: Cpu(by_id[i], bits) for i in meta["valid"]}
    last_midr, last_arch, last_fl = 0, 0, ""
    for i in sorted(C):
        if C[i].full():
            last_midr = C[i].midr
        if C[i].arch:
            last_arch, last_fl = C[i].arch, C[i].archfl
    siblings(meta, C)
    how_c = "reported"
    if not all(c.clustered for c in C.values()):
        how_c = "shape"
        if not by_shape(meta, C):
            how_c = "scan"
            by_scan(C)
    leaders, size, how_m = assign_midr(meta, C, bits)
    info = {}
    for l in leaders:
        feats = by_id[l].get("feats")
        v, u = identity(C[l].midr, bits, bool(feats) and "vfpv4" in feats)
        info[l] = (VENDOR[v], UARCH[u], C[l].midr)
    order = sorted(C, key=lambda i: (-role(C[C[i].leader].midr, bits), -C[C[i].leader].maxf, -C[i].leader, i))
    procs, clusters, uarchs = [], [], []
    for n, i in enumerate(order):
        l = C[i].leader
        if i == l:
            clusters.append([n, size[l], n, size[l], len(clusters), 0, *info[l]])
        procs.append([0, n, len(clusters) - 1, 0, i])
        if not uarchs or uarchs[-1][0] != info[l][1]:
            uarchs.append([info[l][1], info[l][2], 0, 0])
        uarchs[-1][2] += 1
        uarchs[-1][3] += 1
    cores = [[n, 1, n, procs[n][2], 0, *info[C[i].leader]] for n, i in enumerate(order)]
    return dict(procs=procs, clusters=clusters, cores=cores, uarchs=uarchs, how=(how_c, how_m),
                last=(last_midr, last_arch, last_fl))


# ---------------------------------------------------------------- instruction sets

A64_ALWAYS = ("arm_v8 arm_idiv arm_vfpv3 arm_vfpv3_d32 arm_vfpv3_fp16 arm_vfpv3_fp16_d32 arm_vfpv4 arm_vfpv4_d32 arm_neon "
              "arm_neon_fp16 arm_neon_fma arm_neon_v8").split()
HW64 = {"arm_aes": 3, "arm_pmull": 4, "arm_sha1": 5, "arm_sha2": 6, "arm_crc32": 7, "arm_atomics": 8, "arm_jscvt": 13,
        "arm_fcma": 14, "arm_fhm": 23, "arm_sve": 22}
HW64_2 = {"arm_sve2": 1, "arm_i8mm": 13, "arm_sme": 23, "arm_sme2": 37, "arm_sme2p1": 38, "arm_sme_i16i32": 39,
          "arm_sme_bi32i32": 40, "arm_sme_b16b16": 41, "arm_sme_f16f16": 42}
FP16_64 = {(0x41, p) for p in (0xD05, 0xD06, 0xD0A, 0xD0B, 0xD0C, 0xD0D, 0xD0E, 0xD40, 0xD49, 0xD4F)} | {(0x48, 0xD40)} | {
    (0x51, p) for p in (0x802, 0x803, 0x804, 0x805)} | {(0x53, 3), (0x53, 4)}
DOT_64 = {(0x41, p) for p in (0xD06, 0xD0B, 0xD0C, 0xD0D, 0xD0E, 0xD40, 0xD49, 0xD4A, 0xD4F)} | {(0x48, 0xD40)} | {
    (0x51, 0x804), (0x51, 0x805), (0x53, 3), (0x53, 4)}
FP16_32 = {(0x41, p) for p in (0xD05, 0xD0A, 0xD0B, 0xD0C, 0xD0D, 0xD0E, 0xD40, 0xD41, 0xD44, 0xD46, 0xD47, 0xD48, 0xD49,
                               0xD4D, 0xD4E, 0xD4F)} | {(0x48, 0xD40)} | {
    (0x51, p) for p in (0x802, 0x803, 0x804, 0x805)} | {(0x53, 3), (0x53, 4)}
DOT_32 = FP16_32 - {(0x41, 0xD05), (0x41, 0xD0A), (0x51, 0x802), (0x51, 0x803)}


def dot_by_variant(midr):
    impl, var, part, rev = fields(midr)
    return impl == 0x41 and (part == 0xD05 and var >= 1 or part == 0xD0A and var >= 2)


def isa64(hwcap, hwcap2, sve_vl, midr, chip):
    has = set(A64_ALWAYS)
    for n, b in HW64.items():
        if hwcap >> b & 1:
            has.add(n)
    for n, b in HW64_2.items():
        if hwcap2 >> b & 1:
            has.add(n)
    if hwcap2 >> 14 & 1 or hwcap2 >> 12 & 1:
        has |= {"arm_bf16", "arm_neon_bf16"}
        if "arm_sve" in has:
            has.add("arm_sve_bf16")
    k = (midr >> 24, (midr >> 4) & 0xFFF)
    ex9810 = tuple(chip or ()) == ("samsung_exynos", 9810)
    if not ex9810:
        if k in FP16_64 or (hwcap >> 9 & 1 and hwcap >> 10 & 1):
            has |= {"arm_fp16_arith", "arm_neon_fp16_arith"}
        if k in FP16_64 or hwcap >> 12 & 1:
            has.add("arm_neon_rdm")
    if k in DOT_64 or dot_by_variant(midr) or hwcap >> 20 & 1:
        has.add("arm_neon_dot")
    return has


def isa32(hwcap, hwcap2, fpsid, wcid, midr, arch, archfl, chip):
    """cpuinfo_has_arm_* on a 32-bit kernel"""
    def bit(n):
        return hwcap >> n & 1
    impl, var, part, rev = fields(midr)
    k = (impl, part)
    chip = tuple(chip or ())
    h = set()
    for n, b in (("arm_aes", 0), ("arm_pmull", 1), ("arm_sha1", 2), ("arm_sha2", 3), ("arm_crc32", 4)):
        if hwcap2 >> b & 1:
            h.add(n)
    if h:
        arch = 8
    vfpv3 = d32 = fp16 = fma = neon = fp16arith = False
    if arch >= 8:
        h |= {"arm_v5e", "arm_v6", "arm_v6k", "arm_v7", "arm_v7mp", "arm_v8", "arm_thumb", "arm_thumb2", "arm_idiv"}
        vfpv3 = d32 = fp16 = fma = neon = True
        if chip != ("samsung_exynos", 9810) and k in FP16_32:
            fp16arith = True
            h.add("arm_neon_rdm")
        if chip not in (("spreadtrum_sc", 9863), ("unisoc_t", 310), ("unisoc_ums", 312)) and (
                k in DOT_32 or dot_by_variant(midr)):
            h.add("arm_neon_dot")
    else:
        if arch == 7 and impl == 0x41 and part & 0xF00 == 0xB00:
            arch = 6
        if arch < 7 and (bit(13) or bit(14) or bit(19) or bit(16) or bit(12) or bit(18) or bit(17)):
            arch = 7
        if arch >= 6 or bit(7) or "E" in archfl:
            h.add("arm_v5e")
        if arch >= 6:
            h.add("arm_v6")
        if arch >= 7:
            h |= {"arm_v6k", "arm_v7"}
            if k in ((0x41, 0xC05), (0x41, 0xC09), (0x51, 0x02D), (0x51, 0x04D), (0x51, 0x06F)) or bit(17) and bit(18):
                h.add("arm_v7mp")
        if bit(9):
            if (wcid >> 8) & 0xFF >= 0x10:
                h.add("arm_wmmx")
            if (wcid >> 8) & 0xFF >= 0x20:
                h.add("arm_wmmx2")
        if bit(2) or "T" in archfl:
            h.add("arm_thumb")
            if arch >= 7 or k == (0x41, 0xB56):
                h.add("arm_thumb2")
        if bit(17) and bit(18) or k in ((0x51, 0x04D), (0x51, 0x06F)):
            h.add("arm_idiv")
        if bit(6) or bit(13) or bit(14) or bit(19) or bit(16) or bit(12):
            if arch >= 7 or bit(13) or bit(14) or bit(19) or bit(16) or bit(12):
                vfpv3 = True
                d32 = bool(bit(19) or bit(12))
            elif (fpsid >> 16) & 0x7F >= 1:
                h.add("arm_vfpv2")
            neon = bool(bit(12))
            fp16 = bool(bit(16) or k == (0x41, 0xC09) or k in ((0x51, 0x00F), (0x51, 0x02D)))
            fma = bool(bit(16))
    v8 = "arm_v8" in h
    for n, c in (("arm_vfpv3", vfpv3), ("arm_vfpv3_d32", vfpv3 and d32), ("arm_vfpv3_fp16", vfpv3 and fp16),
                 ("arm_vfpv3_fp16_d32", vfpv3 and fp16 and d32), ("arm_vfpv4", vfpv3 and fma),
                 ("arm_vfpv4_d32", vfpv3 and fma and d32), ("arm_neon", neon), ("arm_neon_fp16", neon and fp16),
                 ("arm_neon_fma", neon and fma), ("arm_neon_v8", neon and v8), ("arm_fp16_arith", fp16arith),
                 ("arm_neon_fp16_arith", neon and fp16arith)):
        if c:
            h.add(n)
    return h
