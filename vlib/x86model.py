"""Reference model of x86 detection, written from the vendor manuals' CPUID tables.

expect() maps a virtual platform (CPUID contents, XCR0, the CPUs Linux lists) to
what the public API has to report for it.
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M32 = 0xFFFFFFFF

UNIFIED, INCLUSIVE, COMPLEX = 1, 2, 4

# vendor strings -> (vendor enumerator name, recognised on x86-64 as well)
VENDOR_STRINGS = {
    "GenuineIntel": ("intel", True), "AuthenticAMD": ("amd", True), "CentaurHauls": ("via", True),
    "HygonGenuine": ("hygon", True), "AMDisbetter!": ("amd", False), "AMD ISBETTER": ("amd", False),
    "VIA VIA VIA ": ("via", False), "GenuineTMx86": ("transmeta", False), "TransmetaCPU": ("transmeta", False),
    "CyrixInstead": ("cyrix", False), "RiseRiseRise": ("rise", False), "Geode by NSC": ("nsc", False),
    "SiS SiS SiS ": ("sis", False), "NexGenDriven": ("nexgen", False), "UMC UMC UMC ": ("umc", False),
    "Genuine  RDC": ("rdc", False), "Vortex86 SoC": ("dmp", False),
}


def enums():
    """vendor and microarchitecture enumerators of the public header"""
    import re
    from . import build
    text = open(os.path.join(build.REPO, "include/cpuinfo.h"), encoding="utf-8", errors="replace").read()
    v, u = {}, {}
    for m in re.finditer(r"\bcpuinfo_(vendor|uarch)_(\w+)\s*=\s*(0[xX][0-9a-fA-F]+|\d+)", text):
        (v if m.group(1) == "vendor" else u)[m.group(2)] = int(m.group(3), 0)
    return v, u


def ceil_log2(n):
    return (n - 1).bit_length() if n > 0 else 0


class Cpuid:
    def __init__(self, entries):
        self.exact = {}
        self.any = {}
        for (leaf, sub, a, b, c, d) in entries:
            if sub is None:
                self.any.setdefault(leaf, (a & M32, b & M32, c & M32, d & M32))
            else:
                self.exact.setdefault((leaf, sub), (a & M32, b & M32, c & M32, d & M32))

    def __call__(self, leaf, sub=0):
        if (leaf, sub) in self.exact:
            return self.exact[(leaf, sub)]
        return self.any.get(leaf, (0, 0, 0, 0))


def vendor_of(cp, bits):
    _, b, c, d = cp(0)
    s = b"".join(x.to_bytes(4, "little") for x in (b, d, c)).decode("latin-1")
    name, on64 = VENDOR_STRINGS.get(s, ("unknown", True))
    return name if (bits == 32 or on64) else "unknown"


def max_leaves(cp):
    base = cp(0)[0]
    ext = cp(0x80000000)[0]
    return base, (ext if ext >= 0x80000000 else 0)


_desc = None


def descriptor_table():
    global _desc
    if _desc is None:
        _desc = json.load(open(os.path.join(VERIF, "golden/x86-descriptors.json")))
    return _desc


def signature(eax):
    """(family, model) per the display-family / display-model rules"""
    bf, bm = (eax >> 8) & 15, (eax >> 4) & 15
    fam = bf + ((eax >> 20) & 0xFF)
    model = bm + (((eax >> 16) & 15) << 4)
    return fam, model


def caches(cp, bits):
    """{level: (size, ways, sets, partitions, line, flags, apic_bits)} and the core-count of leaf 4"""
    vendor = vendor_of(cp, bits)
    base, ext = max_leaves(cp)
    out = {}
    cores_max = 0
    if base < 1:
        return out, 0
    if base >= 2:
        regs = cp(2)
        if regs[0] & 0xFF and not regs[0] >> 31:
            # bit 31 marks a register without descriptors
            by = b"".join((0 if x >> 31 else x).to_bytes(4, "little") for x in regs)
            for d in by[1:]:
                fam, model = signature(cp(1)[0])
                ctx = "intel-f06" if (vendor == "intel" and (fam, model) == (0xF, 6)) else (
                    "cyrix" if vendor in ("cyrix", "nsc") else "any")
                t = descriptor_table()
                e = t["special"].get(ctx, {}).get("%02x" % d) if ctx != "any" else None
                if e is None:
                    e = t["any"].get("%02x" % d)
                for lvl, g in (e or {}).items():
                    out[lvl] = tuple(g) + (0,)
        if vendor not in ("amd", "hygon") and base >= 4:
            sub = 0
            while True:
                a, b, c, d = cp(4, sub)
                sub += 1
                if a & 31 == 0:
                    break
                cores_max = 1 + (a >> 26)
                _leaf(out, a, b, c, d, 4, True)
    if (cp(0x80000001)[2] >> 22) & 1 and ext >= 0x8000001D:
        sub = 0
        while True:
            a, b, c, d = cp(0x8000001D, sub)
            sub += 1
            if a & 31 == 0:
                break
            _leaf(out, a, b, c, d, 3, False)
    return {k: v for k, v in out.items() if v[0] != 0}, cores_max


def _leaf(out, a, b, c, d, max_level, complex_ok):
    typ, level = a & 31, (a >> 5) & 7
    ways, parts, line, sets = 1 + (b >> 22), 1 + ((b >> 12) & 0x3FF), 1 + (b & 0xFFF), (1 + c) & M32
    flags = (INCLUSIVE if d & 2 else 0) | (COMPLEX if complex_ok and d & 4 else 0) | (UNIFIED if typ == 3 else 0)
    g = ((ways * parts * line * sets) & M32, ways, sets, parts, line, flags, ceil_log2(1 + ((a >> 14) & 0xFFF)))
    if level == 1:
        if typ in (1, 3):
            out["l1d"] = g
        if typ in (2, 3):
            out["l1i"] = g
    elif 2 <= level <= max_level and typ in (1, 3):
        out["l%d" % level] = g


def topology(cp, bits):
    """(thread_bits, package_shift): APIC ID >> thread_bits names the core, >> package_shift the package"""
    base, ext = max_leaves(cp)
    if base < 1:
        return 0, 0
    _, b1, c1, d1 = cp(1)
    _, cores_max = caches(cp, bits)
    tb, ps = 0, (ceil_log2(cores_max) if cores_max else 0)
    if (d1 >> 28) & 1:
        cmp_legacy = ext >= 0x80000001 and (cp(0x80000001)[2] >> 1) & 1
        logical = (b1 >> 16) & 0xFF
        if cmp_legacy:
            if ext >= 0x80000008:
                ps = ceil_log2(1 + (cp(0x80000008)[2] & 0xFF))
            elif logical:
                ps = ceil_log2(logical)
        elif logical:
            cb = ps
            tb = max(0, ceil_log2(logical) - cb)
            ps = cb + tb
    if (c1 >> 21) & 1 and base >= 0xB:
        tb = ps = 0
        shift_core = None
        sub = 0
        while True:
            a, _, c, _ = cp(0xB, sub)
            sub += 1
            typ = (c >> 8) & 0xFF
            if typ == 0:
                break
            if typ == 1:
                tb = a & 31
            elif typ == 2:
                shift_core = a & 31
        ps = max(tb, shift_core) if shift_core is not None else tb
    return tb, ps


def features(cp, xcr0, bits, uarch_is_geode=False):
    vendor = vendor_of(cp, bits)
    base, ext = max_leaves(cp)
    f = set()
    Z = (0, 0, 0, 0)
    l1 = cp(1) if base >= 1 else Z
    e1 = cp(0x80000001) if ext >= 0x80000001 else Z
    e8 = cp(0x80000008) if ext >= 0x80000008 else Z
    s0 = cp(7, 0) if base >= 7 else Z
    s1 = cp(7, 1) if base >= 7 else Z
    a10 = cp(0x24, 0) if base >= 0x24 else Z
    valid = 0
    if base >= 0xD:
        d = cp(0xD, 0)
        valid = d[0] | (d[3] << 32)
    os_on = (l1[2] >> 26) & 3 == 3
    state = (xcr0 & valid) if os_on else 0

    def has(mask):
        return state & mask == mask
    avx, avx512, mpx, amx = has(0x6), has(0xE6), has(0x18), has(0x60000)

    def put(name, cond):
        if cond:
            f.add("x86_" + name)

    def bit(reg, n):
        return (reg >> n) & 1
    A, B, C, D = 0, 1, 2, 3
    if base < 1:
        l1 = e1 = e8 = s0 = s1 = a10 = Z
    both = l1[D] | e1[D]
    if bits == 64:
        for n in "rdtsc fpu mmx mmx_plus daz sse sse2 cmov cmpxchg8b".split():
            f.add("x86_" + n)
        put("cmpxchg16b", bit(l1[C], 13))
        put("lahf_sahf", bit(e1[C], 0))
    else:
        f.add("x86_lahf_sahf")
        put("rdtsc", bit(both, 4))
        put("fpu", bit(both, 0))
        put("mmx", bit(both, 23))
        put("mmx_plus", bit(l1[D], 25) or bit(e1[D], 22))
        put("sse", bit(l1[D], 25))
        put("sse2", bit(l1[D], 26))
        put("cmov", bit(both, 15))
        put("cmpxchg8b", bit(both, 8))
        fxsave = vendor not in ("cyrix", "nsc") and bit(both, 24)
        put("daz", bit(l1[C], 0) or (bit(l1[D], 25) and fxsave))
        put("3dnow_geode", bit(e1[D], 30) and uarch_is_geode)
    put("fxsave", bit(both, 24) and not (bits == 32 and vendor in ("cyrix", "nsc")))
    for name, reg, n in (
            ("mwait", l1[C], 3), ("xsave", l1[C], 26), ("sse3", l1[C], 0), ("ssse3", l1[C], 9), ("sse4_1", l1[C], 19),
            ("sse4_2", l1[C], 20), ("movbe", l1[C], 22), ("popcnt", l1[C], 23), ("aes", l1[C], 25),
            ("pclmulqdq", l1[C], 1), ("rdrand", l1[C], 30),
            ("rdtscp", e1[D], 27), ("mwaitx", e1[C], 29), ("3dnow", e1[D], 31), ("3dnow_plus", e1[D], 30),
            ("sse4a", e1[C], 6), ("misaligned_sse", e1[C], 7), ("lzcnt", e1[C], 5), ("tbm", e1[C], 21),
            ("clzero", e8[B], 0),
            ("rdpid", s0[C], 22), ("prefetchwt1", s0[C], 0), ("hle", s0[B], 4), ("rtm", s0[B], 11), ("clwb", s0[B], 24),
            ("bmi", s0[B], 3), ("bmi2", s0[B], 8), ("adx", s0[B], 19), ("gfni", s0[C], 8), ("rdseed", s0[B], 18),
            ("sha", s0[B], 29)):
        put(name, bit(reg, n))
    put("xtest", bit(s0[B], 4) or bit(s0[B], 11))
    if vendor in ("amd", "hygon"):
        put("prefetch", bit(e1[C], 8) or e1[D] >> 29)
        put("prefetchw", bit(e1[C], 8) or e1[D] >> 29)
    else:
        put("prefetch", vendor != "intel" and e1[D] >> 30)
        put("prefetchw", bit(e1[C], 8) or e1[D] >> 30)
    if avx:
        for name, reg, n in (
                ("avx", l1[C], 28), ("fma3", l1[C], 12), ("fma4", e1[C], 16), ("xop", e1[C], 11), ("f16c", l1[C], 29),
                ("avx2", s0[B], 5), ("avxvnni", s1[A], 4), ("avx_vnni_int8", s1[D], 4), ("avx_vnni_int16", s1[D], 10),
                ("avx_ne_convert", s1[D], 5), ("vaes", s0[C], 9), ("vpclmulqdq", s0[C], 10)):
            put(name, bit(reg, n))
    if avx512:
        for name, reg, n in (
                ("avx512f", s0[B], 16), ("avx512pf", s0[B], 26), ("avx512er", s0[B], 27), ("avx512cd", s0[B], 28),
                ("avx512dq", s0[B], 17), ("avx512bw", s0[B], 30), ("avx512vl", s0[B], 31), ("avx512ifma", s0[B], 21),
                ("avx512vbmi", s0[C], 1), ("avx512vbmi2", s0[C], 6), ("avx512bitalg", s0[C], 12),
                ("avx512vpopcntdq", s0[C], 14), ("avx512vnni", s0[C], 11), ("avx512_4vnniw", s0[D], 2),
                ("avx512_4fmaps", s0[D], 3), ("avx512vp2intersect", s0[D], 8), ("avx512fp16", s0[D], 23),
                ("avx512bf16", s1[A], 5), ("avx10_1", s1[D], 19)):
            put(name, bit(reg, n))
        put("avx10_2", bit(s1[D], 19) and (a10[B] & 0xFF) >= 2)
    if amx:
        for name, reg, n in (("amx_bf16", s0[D], 22), ("amx_tile", s0[D], 24), ("amx_int8", s0[D], 25),
                             ("amx_fp16", s1[A], 21)):
            put(name, bit(reg, n))
    put("mpx", mpx and bit(s0[B], 14))
    return f


LEVELS = ("l1i", "l1d", "l2", "l3", "l4")


def group(keys):
    """indices of consecutive groups, for keys in sorted-by-APIC order: dense numbering by first appearance"""
    seen = {}
    return [seen.setdefault(k, len(seen)) for k in keys]


def expect(cp, xcr0, bits, cpus):
    """cpus: [(linux id, APIC id)] of the usable processors, with distinct APIC ids"""
    tb, ps = topology(cp, bits)
    ch, _ = caches(cp, bits)
    order = sorted(cpus, key=lambda c: c[1])
    apic = [c[1] for c in order]
    llc = 0
    for lvl in ("l4", "l3", "l2", "l1d"):
        if lvl in ch:
            llc = ch[lvl][6]
            break
    llc = max(llc, tb)  # threads of a core are never in different clusters
    core_k = [a >> tb for a in apic]
    pkg_k = [a >> ps for a in apic]
    clu_k = [(a >> ps, a >> llc) for a in apic]
    core, pkg, clu = group(core_k), group(pkg_k), group(clu_k)
    exp = {}
    n = len(order)
    cidx = {}
    clists = []
    for lvl in LEVELS:
        if lvl in ch:
            g = group([a >> ch[lvl][6] for a in apic])
            cidx[lvl] = g
            lst = []
            for i in range(max(g) + 1 if g else 0):
                members = [k for k in range(n) if g[k] == i]
                lst.append(list(ch[lvl][:6]) + [members[0], len(members)])
            clists.append(lst)
        else:
            cidx[lvl] = [-1] * n
            clists.append([])
    exp["caches"] = clists
    smt = []
    for i in range(n):
        smt.append(smt[-1] + 1 if i and core[i] == core[i - 1] else 0)
    exp["procs"] = [[smt[i], core[i], clu[i], pkg[i], order[i][0], apic[i]] + [cidx[l][i] for l in LEVELS]
                    for i in range(n)]

    def members(g, k):
        return [i for i in range(n) if g[i] == k]
    nc, ncl, npk = (max(x) + 1 if x else 0 for x in (core, clu, pkg))
    exp["counts"] = (n, nc, ncl, npk)
    mc = [members(core, k) for k in range(nc)]
    ml = [members(clu, k) for k in range(ncl)]
    mp = [members(pkg, k) for k in range(npk)]
    core_in_pkg, seen = [], {}
    for k in range(nc):
        p = pkg[mc[k][0]]
        core_in_pkg.append(seen.get(p, 0))
        seen[p] = seen.get(p, 0) + 1
    clu_in_pkg, seen = [], {}
    for k in range(ncl):
        p = pkg[ml[k][0]]
        clu_in_pkg.append(seen.get(p, 0))
        seen[p] = seen.get(p, 0) + 1
    # [processor_start, processor_count, core_id, cluster, package]
    exp["cores"] = [[mc[k][0], len(mc[k]), core_in_pkg[k], clu[mc[k][0]], pkg[mc[k][0]]] for k in range(nc)]
    # [processor_start, processor_count, core_start, core_count, cluster_id, package]
    exp["clusters"] = [[ml[k][0], len(ml[k]), core[ml[k][0]], len({core[i] for i in ml[k]}), clu_in_pkg[k],
                        pkg[ml[k][0]]] for k in range(ncl)]
    # [processor_start, processor_count, core_start, core_count, cluster_start, cluster_count]
    exp["packages"] = [[mp[k][0], len(mp[k]), core[mp[k][0]], len({core[i] for i in mp[k]}), clu[mp[k][0]],
                        len({clu[i] for i in mp[k]})] for k in range(npk)]
    for lvl in ("l4", "l3", "l2", "l1d"):
        if lvl in ch:
            exp["maxcache"] = ch[lvl][0]
            break
    else:
        exp["maxcache"] = 0
    return exp


_enums = None


def enums_cached():
    global _enums
    if _enums is None:
        _enums = enums()
    return _enums
