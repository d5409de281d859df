"""Systems other than Linux: FreeBSD and macOS on x86, macOS and iOS on ARM, WebAssembly, Windows; and what is due on them."""
import struct

from . import armgen as G, armmodel as A, x86gen as X, x86model as M
from .scenario import Scenario

BITS = {"fbsd64": 64, "fbsd32": 32, "mac64": 64, "mac32": 32, "macarm": 64, "ios": 64, "wasm": 32, "wasmarm": 32,
        "win64": 64, "win32": 32, "winarm": 64}
PERS = tuple(BITS)
X86 = ("fbsd64", "fbsd32", "mac64", "mac32", "win64", "win32")
SYSCTL = ("fbsd64", "fbsd32", "mac64", "mac32", "macarm", "ios")
WIN = ("win64", "win32", "winarm")


def sysctl(s, name, value, size=4):
    """one answer of the kernel; a number of the given size, or a string"""
    if isinstance(value, str):
        s.file("sysctl:" + name, value + "\0")
    else:
        s.file("sysctl:" + name, (value & ((1 << 8 * size) - 1)).to_bytes(size, "little"))


def topology_spec(rng, packages, cores, tpc):
    """FreeBSD's description of the scheduler's groups"""
    q = "\t" if rng.random() < 0.3 else " "
    n = cores * tpc
    per = n // packages

    def cpu(a, b):
        return '<cpu count="%d" mask="%x,0,0,0">%s</cpu>\n' % (b - a, ((1 << (b - a)) - 1) << a & (1 << 64) - 1,
                                                            ", ".join(str(i) for i in range(a, b)))

    def inner(a, b, lv):
        """the cores of one package"""
        o = q * lv + "<children>\n"
        for c in range(a, b, tpc):
            o += q * lv + '<group level="%d" cache-level="%d">\n' % (lv, rng.choice((1, 2))) + cpu(c, c + tpc)
            if tpc > 1:
                o += '<flags><flag name="THREAD">THREAD group</flag><flag name="SMT">SMT group</flag></flags>\n'
            o += "</group>\n"
        return o + "</children>\n"
    o = "<groups>\n"
    if packages == 1 or rng.random() < 0.3:
        # each package is one outermost group
        for p in range(packages):
            a = p * per
            o += ' <group level="1" cache-level="%d">\n' % rng.choice((0, 2, 3)) + cpu(a, a + per)
            k = rng.random()
            if k < 0.4:
                o += inner(a, a + per, 2)
            elif k < 0.6:
                # two groups below, sharing a cache each
                o += '<children><group level="2" cache-level="3">' + cpu(a, a + per) + inner(a, a + per, 3) + "</group></children>\n"
            o += " </group>\n"
    else:
        o += ' <group level="1" cache-level="0">\n' + cpu(0, n) + "<children>\n"
        for p in range(packages):
            a = p * per
            o += '  <group level="2" cache-level="0">\n' + cpu(a, a + per)
            if rng.random() < 0.6:
                o += inner(a, a + per, 3)
            o += "  </group>\n"
        o += "</children>\n </group>\n"
    return o + "</groups>\n"


def counts(rng, tb, ps, big=False):
    """packages, cores, threads per core that fit the bits of the APIC ID"""
    tpc = rng.choice([t for t in (1, 2, 2, 3, 4, 8) if t <= 1 << tb])
    cap = min(1 << (ps - tb), 128 if big else 24)
    cpp = rng.choice((1, 2, 4, rng.randint(1, cap), cap))
    cpp = min(cpp, cap)
    packages = rng.choice((1, 1, 1, 2, 2, 3, 4, 8)) if cpp * tpc <= 64 else rng.choice((1, 2))
    return packages, cpp * packages, tpc


def x86_answers(rng, s, pers, packages, cores, tpc):
    """what the kernel says about its processors; meta gets what is due"""
    m = s.meta
    if pers in WIN:
        m["os"] = pers
        windows_x86(rng, s, BITS[pers], [[[tpc] * (cores // packages)] for _ in range(packages)])
        return
    n = cores * tpc
    m["os"], m["n"] = pers, [packages, cores, n]
    if pers.startswith("fbsd"):
        sysctl(s, "kern.sched.topology_spec", topology_spec(rng, packages, cores, tpc))
        sysctl(s, "kern.smp.cores", cores)
        sysctl(s, "kern.smp.threads_per_core", tpc)
        m["share"] = [0] * 8
        return
    sysctl(s, "hw.physicalcpu_max", cores)
    sysctl(s, "hw.logicalcpu_max", n)
    sysctl(s, "hw.packages", packages)
    # number of processors that share memory, L1, L2, ...
    share = [n, tpc, rng.choice((tpc, tpc, n // packages)), n // packages, rng.choice((n, n // packages)), 0, 0, 0]
    r = rng.random()
    if r < 0.2:
        share = None
    elif r < 0.5:
        share = share[:rng.randint(1, 8)]
    elif r < 0.7:
        share = share + [rng.getrandbits(64)] * rng.randint(1, 4)
    if share is not None:
        share = [0 if i and rng.random() < 0.08 else v for i, v in enumerate(share)]
        s.file("sysctl:hw.cacheconfig", struct.pack("<%dQ" % len(share), *share))
    m["share"] = ((share or []) + [0] * 8)[:8]
    # answers that are missing or senseless are replaced by one package, and as many threads as cores
    if packages == 1 and rng.random() < 0.1:
        absent(rng, s, "hw.packages", (0, -1, cores + 1))
    if tpc == 1 and rng.random() < 0.1:
        absent(rng, s, "hw.logicalcpu_max", (0, -1, cores + 1) if cores > 1 else (0, -1))
    if share is not None and rng.random() < 0.1:
        # as in a virtual machine that shows the caches of its host
        k = rng.randrange(len(share))
        share[k] = rng.choice((n + 1, 2 * n, n * 4 + 2, 1 << 32, (1 << 32) + 1, (1 << 64) - 1))
        s.file("sysctl:hw.cacheconfig", struct.pack("<%dQ" % len(share), *share))
        if k < 8:
            m["share"][k] = 0


def absent(rng, s, name, bad):
    if rng.random() < 0.5:
        del s.files["sysctl:" + name]
    else:
        sysctl(s, name, rng.choice(bad))


def x86(rng, pers, big=False):
    s, _ = X.gen_platform(rng, BITS[pers], big)
    tb, ps = M.topology(M.Cpuid(s.cpuid), BITS[pers])
    if pers in WIN:
        tree = win_tree(rng, tb, ps, big)
        s.meta["os"] = pers
        windows_x86(rng, s, BITS[pers], tree)
        s.meta["usable"] = list(range(len(s.meta["ids"])))
        return s
    p, c, t = counts(rng, tb, ps, big)
    x86_answers(rng, s, pers, p, c, t)
    s.meta["usable"] = list(range(c * t))
    return s


def x86_expect(s):
    """processors, cores, clusters, packages and caches in the form of the dump"""
    m = s.meta
    if m["os"] in WIN:
        return windows_expect(s)
    cp = M.Cpuid(s.cpuid)
    bits = m["bits"]
    packages, cores, n = m["n"]
    tpc, tpp, cpp = n // cores, n // packages, cores // packages
    tb, ps = M.topology(cp, bits)
    ch, _ = M.caches(cp, bits)
    per = {}
    for k, lvl in enumerate(M.LEVELS):
        if lvl not in ch:
            continue
        sh = m["share"][max(k, 1)]
        if not sh:
            sh = (tpc, tpc, tpc if "l3" in ch else tpp, tpp, n)[k]
        per[lvl] = sh
    x = {}
    x["procs"] = [[i % tpc, i // tpc, i // tpp, i // tpp, i, (i // tpp) << ps | (i // tpc % cpp) << tb | i % tpc] +
                  [i // per[l] if l in per else -1 for l in M.LEVELS] for i in range(n)]
    x["cores"] = [[k * tpc, tpc, k % cpp, k // cpp, k // cpp] for k in range(cores)]
    x["clusters"] = [[k * tpp, tpp, k * cpp, cpp, 0, k] for k in range(packages)]
    x["packages"] = [[k * tpp, tpp, k * cpp, cpp, k, 1] for k in range(packages)]
    x["caches"] = [[list(ch[l][:6]) + [k * per[l], per[l]] for k in range(n // per[l])] if l in per else [] for l in M.LEVELS]
    x["maxcache"] = next((ch[l][0] for l in ("l4", "l3", "l2", "l1d") if l in ch), 0)
    return x


# ---- Apple's ARM chips

FAMILY = {
    "cyclone": 0x37A09642, "typhoon": 0x2C91A47E, "twister": 0x92FB37C8, "hurricane": 0x67CEEE93,
    "monsoon_mistral": 0xE81E7EF6, "vortex_tempest": 0x07D34B9F, "lightning_thunder": 0x462504D2,
    "firestorm_icestorm": 0x1B588BB3, "avalanche_blizzard": 0xDA33D83D,
}
ORDER = list(FAMILY)
# instruction set -> (names the kernel knows it by, chips that have it although an old kernel does not say so)
V82 = ("monsoon_mistral", "vortex_tempest", "lightning_thunder", "firestorm_icestorm")
V84 = ("lightning_thunder", "firestorm_icestorm")
FEATS = {
    "arm_atomics": (("FEAT_LSE",), V82), "arm_neon_rdm": (("FEAT_RDM",), V82), "fp16": (("FEAT_FP16",), V82),
    "arm_fhm": (("FEAT_FHM", "armv8_2_fhm"), V84), "arm_fcma": (("FEAT_FCMA",), V84), "arm_jscvt": (("FEAT_JSCVT",), V84),
    "arm_neon_dot": (("FEAT_DotProd",), V84), "arm_bf16": (("FEAT_BF16",), ()), "arm_i8mm": (("FEAT_I8MM",), ()),
    "arm_sme": (("FEAT_SME",), ()), "arm_sme2": (("FEAT_SME2",), ()),
}
OPTS = {n: ("hw.optional." + n if n.startswith("armv8") else "hw.optional.arm." + n) for k in FEATS.values() for n in k[0]}

# documented devices
DEVICES = {}
for gen, minors, chip in (
        (3, (1, 2, 3), "A4"), (4, (1,), "A5"), (5, (1, 2, 3, 4), "A6"), (6, (1, 2), "A7"), (7, (1, 2), "A8"), (8, (1, 2, 4), "A9"),
        (9, (1, 2, 3, 4), "A10"), (10, (1, 2, 3, 4, 5, 6), "A11"), (11, (2, 4, 6, 8), "A12")):
    for mi in minors:
        DEVICES["iPhone%d,%d" % (gen, mi)] = chip
for gen, minors, chip in (
        (2, (1, 2, 3, 4, 5, 6, 7), "A5"), (3, (1, 2, 3), "A5X"), (3, (4, 5, 6), "A6X"), (4, range(1, 10), "A7"), (5, (1, 2), "A8"),
        (5, (3, 4), "A8X"), (6, (3, 4, 7, 8), "A9X"), (6, (11, 12), "A9"), (7, (1, 2, 3, 4), "A10X"), (7, (5, 6), "A10")):
    for mi in minors:
        DEVICES["iPad%d,%d" % (gen, mi)] = chip
DEVICES["iPod5,1"], DEVICES["iPod7,1"] = "A5", "A8"
OTHER = ("arm64", "x86_64", "Watch3,4", "AppleTV5,3", "AudioAccessory1,1", "iPad99,1", "iPod1,1", "iPod9,1", "", "iPhone", "Mac14,2",
         "RealityDevice14,1", "i386", "VirtualMac2,1", "iPhoneX,1")
BRANDS = ("Apple M1", "Apple M1 Pro", "Apple M1 Max", "Apple M1 Ultra", "Apple M2", "Apple M3 Max", "Apple M4", "Apple processor")


def apple(rng, pers, big=False):
    s = Scenario()
    ios = pers == "ios"
    fam = rng.choice(ORDER) if rng.random() < 0.92 else None
    cores = rng.choice((1, 2, 2, 3, 4, 6, 6, 8, 8, 10, rng.randint(1, 32)))
    m = s.meta
    m["os"], m["cores"] = pers, cores
    r = rng.random()
    if r < 0.05:
        # unavailable or senseless count: a system of one core
        if rng.random() < 0.5:
            sysctl(s, "hw.physicalcpu_max", rng.choice((0, -1, -8)))
        m["threads"] = rng.choice((1, cores))
        sysctl(s, "hw.logicalcpu_max", m["threads"])
        m["cores"] = cores = 1
    else:
        m["threads"] = cores
        sysctl(s, "hw.physicalcpu_max", cores)
        r = rng.random()
        if r < 0.9:
            sysctl(s, "hw.logicalcpu_max", cores)
        elif r < 0.95:
            sysctl(s, "hw.logicalcpu_max", rng.choice((0, -1) if cores == 1 else (0, -1, cores + 1, cores - 1, 2 * cores - 1)))
        elif r < 0.97:
            m["threads"] = cores * rng.choice((2, 3))
            sysctl(s, "hw.logicalcpu_max", m["threads"])
    if rng.random() < 0.9 or ios:
        sysctl(s, "hw.packages", 1 if not ios else rng.choice((1, 2, 0)))
    else:
        if rng.random() < 0.5:
            sysctl(s, "hw.packages", rng.choice((0, -1)))
    if rng.random() < 0.7:
        v = [cores, 1, cores, 0, 0, 0, 0, 0, 0, 0][:rng.randint(1, 10)]
        s.file("sysctl:hw.cacheconfig", struct.pack("<%dQ" % len(v), *v))
    code = FAMILY[fam] if fam else rng.choice((0, 0x8765EDEA, rng.getrandbits(32)))
    if fam or rng.random() < 0.7:
        sysctl(s, "hw.cpufamily", code)
    m["family"] = fam
    # instruction sets: new kernels answer, old ones do not know the names
    style = rng.random()
    said = set()
    for name, full in OPTS.items():
        r = rng.random()
        if style < 0.3:
            continue
        if style < 0.45 and name != "armv8_2_fhm":
            continue
        if r < 0.15:
            continue
        v = rng.choice((0, 1))
        sysctl(s, full, v)
        if v:
            said.add(name)
    m["feats"] = sorted(said)
    # names
    m["name"] = ""
    brand = None
    if rng.random() < (0.35 if ios else 0.8):
        brand = rng.choice(BRANDS) if rng.random() < 0.7 else "Apple " + "".join(
            rng.choice("ABMWXYZ 0123456789") for _ in range(rng.randint(0, 60)))
        sysctl(s, "machdep.cpu.brand_string", brand)
        m["name"] = brand[:47]
    if rng.random() < 0.9:
        dev = rng.choice(sorted(DEVICES)) if rng.random() < 0.85 else rng.choice(OTHER)
        sysctl(s, "hw.machine", dev)
        if brand is None:
            m["name"] = "Apple " + DEVICES[dev] if dev in DEVICES else ""
    # caches
    m["line"] = rng.choice((32, 64, 64, 128, 128))
    sizes = {"l1i": rng.choice((32, 64, 128, 192)) << 10, "l1d": rng.choice((32, 48, 64, 128)) << 10,
             "l2": rng.choice((1, 2, 3, 4, 8, 12)) << 20, "l3": rng.choice((4, 8, 16, 24)) << 20}
    for k in sizes:
        if rng.random() < (0.5 if k == "l3" else 0.08):
            sizes[k] = 0
    m["sizes"] = sizes
    ids = {"line": 16, "l1i": 17, "l1d": 18, "l2": 20, "l3": 22}
    for k, v in sizes.items():
        if v or rng.random() < 0.3:
            sysctl(s, "6.%d" % ids[k], v)
    if rng.random() < 0.97:
        sysctl(s, "6.16", m["line"])
    else:
        m["line"] = 0   # without the size of a line, no cache can be described
    m["bits"] = 64
    m["usable"] = list(range(m["threads"]))
    return s


def apple_uarch(fam, i, n):
    if fam is None:
        return "unknown"
    if "_" not in fam:
        return fam
    big, little = fam.split("_")
    return big if (i < 2 if fam == "monsoon_mistral" else i + 4 < n) else little


def apple_expect(s):
    m = s.meta
    V, U = M.enums_cached()
    n = m["cores"]
    names = [apple_uarch(m["family"], i, n) for i in range(n)]
    runs = []
    for i, u in enumerate(names):
        if not runs or names[i - 1] != u:
            runs.append([i, 0, u])
        runs[-1][1] += 1
    clu = [k for k, r in enumerate(runs) for _ in range(r[1])]
    x = {}
    p = m["threads"]
    t = p // n
    line, sz = m["line"], m["sizes"]
    on = {k: v for k, v in sz.items() if v and line}

    def geo(k, ways, a, c):
        return [on[k], ways, on[k] // (ways * line), 1, line, 0, a, c]
    x["caches"] = [[geo(k, 4, i * t, t) for i in range(n)] if k in on else [] for k in ("l1i", "l1d")] + \
        [[geo(k, w, 0, p)] if k in on else [] for k, w in (("l2", 8), ("l3", 16))] + [[]]
    x["procs"] = [[i % t, i // t, clu[i // t], 0] + [i // t if k in on else -1 for k in ("l1i", "l1d")] +
                  [0 if k in on else -1 for k in ("l2", "l3")] + [-1] for i in range(p)]
    ap = V["apple"]
    x["cores"] = [[i * t, t, i, clu[i], 0, ap, U[names[i]]] for i in range(n)]
    x["clusters"] = [[a * t, c * t, a, c, k, 0, ap, U[u]] for k, (a, c, u) in enumerate(runs)]
    x["packages"] = [[m["name"], 0, p, 0, n, 0, len(runs)]]
    x["uarchs"] = [[U[u], c * t, c] for a, c, u in runs]
    x["maxcache"] = next((on[k] for k in ("l3", "l2", "l1d") if k in on), 0)
    said = set(m["feats"])
    isa = set(A.A64_ALWAYS) | {"arm_aes", "arm_sha1", "arm_sha2", "arm_pmull", "arm_crc32"}
    for f, (n_, fams) in FEATS.items():
        if said & set(n_) or m["family"] in fams:
            isa |= {"fp16": {"arm_fp16_arith", "arm_neon_fp16_arith"}, "arm_bf16": {"arm_bf16", "arm_neon_bf16"}}.get(f, {f})
    x["isa"] = isa
    return x


# ---- WebAssembly

def wasm(rng, pers, big=False):
    s = Scenario()
    n = rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 0, -1, -2147483648, rng.randint(1, 300), rng.randint(1, 40)))
    s.file("cores", struct.pack("<i", n))
    s.meta = {"os": pers, "bits": 32, "n": max(n, 1), "usable": list(range(max(n, 1)))}
    return s


def wasm_expect(s):
    n = s.meta["n"]
    x86_ = s.meta["os"] == "wasm"
    x = {}
    K = 1024
    if x86_:
        t = 2 if n % 2 == 0 else 1
        c = n // t
        l1 = [[32 * K, 4, 128, 1, 64, 0, i * t, t] for i in range(c)]
        x["caches"] = [l1, l1, [[256 * K, 8, 512, 1, 64, 0, i * t, t] for i in range(c)], [[2048 * K, 16, 2048, 1, 64, 0, 0, n]], []]
        x["procs"] = [[i % t, i // t, 0, 0] + [i // t] * 3 + [0, -1] for i in range(n)]
        x["cores"] = [[i * t, t, i, 0, 0] for i in range(c)]
        x["clusters"] = [[0, n, 0, c, 0, 0]]
        x["packages"] = [["x86 vCPU", 0, n, 0, c, 0, 1]]
        x["maxcache"] = 128 * K * K
    else:
        big = n if n <= 4 else 4 if n >= 8 else 2
        runs = [(0, big)] + ([(big, n - big)] if n > big else [])
        g = [0] * big + [1] * (n - big)
        l1 = [[32 * K, 4, 128, 1, 64, 0, i, 1] for i in range(n)]
        x["caches"] = [l1, l1, [([1024 * K, 8, 2048, 1, 64, 0] if k == 0 else [256 * K, 8, 512, 1, 64, 0]) + [a, b]
                                for k, (a, b) in enumerate(runs)], [], []]
        x["procs"] = [[0, i, g[i], 0, i, i, g[i], -1, -1] for i in range(n)]
        x["cores"] = [[i, 1, i, g[i], 0] for i in range(n)]
        x["clusters"] = [[a, b, a, b, k, 0] for k, (a, b) in enumerate(runs)]
        x["packages"] = [["ARM vCPU", 0, n, 0, n, 0, len(runs)]]
        x["maxcache"] = 8 * K * K
    return x


# ---- Windows

CORE, CACHE, PACKAGE = 0, 2, 3


def win_tree(rng, tb, ps, big):
    """packages of runs of cores, as [[[threads per core, ...]]]: cores of one package may differ in threads"""
    packages, cores, tpc = counts(rng, tb, ps, big)
    tree = []
    for _ in range(packages):
        c = [tpc] * (cores // packages)
        if tpc > 1 and rng.random() < 0.3:
            k = rng.randint(0, len(c) - 1)
            c[k:] = [1] * (len(c) - k)
        tree.append([c])
    return tree


def win_place(rng, bits, units):
    """group and number within it of each processor; a unit, which is a list of cores' threads, tends to stay in one group"""
    cap = rng.choice((bits, bits, bits, rng.randint(4, bits)))
    groups, ids = [0], []
    for u in units:
        if groups[-1] and (groups[-1] + sum(u) > cap or rng.random() < 0.2):
            groups.append(0)
        for t in u:
            if groups[-1] + t > cap and groups[-1]:
                groups.append(0)
            for _ in range(t):
                ids.append((len(groups) - 1, groups[-1]))
                groups[-1] += 1
    return groups, ids


def win_masks(bits, ids):
    """group affinities of the given processors"""
    by = {}
    for g, k in ids:
        by[g] = by.get(g, 0) | 1 << k
    return [struct.pack("<QHHHH" if bits == 64 else "<IHHHH", v, g, 0, 0, 0) for g, v in sorted(by.items())]


def win_processor(bits, rel, ids, smt=0, eff=0):
    ms = win_masks(bits, ids)
    body = struct.pack("<BB20sH", smt, eff, b"", len(ms)) + b"".join(ms)
    return struct.pack("<II", rel, 8 + len(body)) + body


def win_cache(bits, level, kind, size, ways, line, ids, old=False):
    """old: a system that leaves the number of groups out"""
    ms = win_masks(bits, ids)
    body = struct.pack("<BBHII18sH", level, ways, line, size, kind, b"", 0 if old else len(ms)) + b"".join(ms)
    return struct.pack("<II", CACHE, 8 + len(body)) + body


def win_topology(rng, s, bits, tree):
    """describes packages and cores; returns the processors' (group, number) and the (first, count) of cores and packages"""
    groups, ids = win_place(rng, bits, [r for p in tree for r in p])
    s.file("win:groups", struct.pack("<%dI" % len(groups), *groups))
    most = list(groups)
    if rng.random() < 0.15:
        # room for processors that may be added later
        most = [g if rng.random() < 0.5 else min(bits, rng.choice((g + 1, 2 * g, bits))) for g in most]
        if rng.random() < 0.3:
            most.append(rng.choice((1, bits)))
    s.file("win:max", struct.pack("<%dI" % len(most), *most))
    at = core = 0
    cs, ps, rec = [], [], {CORE: b"", PACKAGE: b""}
    for p in tree:
        ps.append([at, 0, core, 0])
        for r in p:
            for t in r:
                rec[CORE] += win_processor(bits, CORE, ids[at:at + t], int(t > 1), rng.choice((0, 0, 1)))
                cs.append((at, t))
                at, core = at + t, core + 1
        ps[-1][1], ps[-1][3] = at - ps[-1][0], core - ps[-1][2]
        rec[PACKAGE] += win_processor(bits, PACKAGE, ids[ps[-1][0]:at])
    for k, v in rec.items():
        s.file("win:rel:%d" % k, v)
    s.meta["ids"] = ids
    s.meta["cs"], s.meta["ps"] = cs, ps
    s.meta["n"] = [len(ps), len(cs), at]
    return most


def windows_x86(rng, s, bits, tree):
    groups = win_topology(rng, s, bits, tree)
    if len(groups) == 1 and rng.random() < 0.15:
        s.file("win:wine", b"1")
    elif rng.random() < 0.05:
        s.file("win:no-ntdll", b"1")


def windows_expect(s):
    m = s.meta
    cp = M.Cpuid(s.cpuid)
    tb, sh = M.topology(cp, m["bits"])
    ch, _ = M.caches(cp, m["bits"])
    n = len(m["ids"])
    core_of = [k for k, (a, t) in enumerate(m["cs"]) for _ in range(t)]
    pkg_of = [k for k, p in enumerate(m["ps"]) for _ in range(p[1])]
    apic = [pkg_of[i] << sh | core_of[i] - m["ps"][pkg_of[i]][2] << tb | i - m["cs"][core_of[i]][0] for i in range(n)]
    x = {}
    use = []
    x["caches"] = []
    for l in M.LEVELS:
        rows, idx, last = [], [], None
        for i in range(n):
            if l not in ch:
                idx.append(-1)
                continue
            k = apic[i] >> ch[l][6]
            if k != last:
                rows.append(list(ch[l][:6]) + [i, 0])
                last = k
            rows[-1][7] += 1
            idx.append(len(rows) - 1)
        x["caches"].append(rows)
        use.append(idx)
    x["procs"] = [[i - m["cs"][core_of[i]][0], core_of[i], pkg_of[i], pkg_of[i], m["ids"][i][0] << 16 | m["ids"][i][1], apic[i]] +
                  [u[i] for u in use] for i in range(n)]
    first = [p[2] for p in m["ps"]]
    x["cores"] = [[a, t, k - first[pkg_of[a]], pkg_of[a], pkg_of[a]] for k, (a, t) in enumerate(m["cs"])]
    x["clusters"] = [p + [0, k] for k, p in enumerate(m["ps"])]
    x["packages"] = [p + [k, 1] for k, p in enumerate(m["ps"])]
    x["maxcache"] = next((ch[l][0] for l in ("l4", "l3", "l2", "l1d") if l in ch), 0)
    return x


WIN_FEATURES = {34: ("arm_atomics",), 43: ("arm_neon_dot", "arm_neon_rdm", "arm_fp16_arith", "arm_neon_fp16_arith"),
                30: ("arm_aes", "arm_sha1", "arm_sha2", "arm_pmull"), 31: ("arm_crc32",)}
CHIPS = ("Snapdragon (TM) 850 @ 2.96 GHz", "Microsoft SQ1 @ 3.0 GHz", "Snapdragon(R) X Elite - X1E80100 - Qualcomm(R) Oryon(TM) CPU",
         "Ampere(R) Altra(R) Processor", "Cobalt 100", "Snapdragon Compute Platform", "Apple Silicon", "", "ARMv8 (64-bit) Family 8")


def windows_arm(rng, pers, big=False):
    s = Scenario()
    m = s.meta
    m["os"], m["bits"] = pers, 64
    n = rng.choice((1, 2, 4, 8, 8, 8, 12, 16, rng.randint(1, 20)))
    if big:
        n = rng.choice((64, 65, 80, 128, 160))
    np = rng.choice((1, 1, 1, 2)) if n < 60 else rng.choice((1, 2, 4))
    tree = []
    for _ in range(np):
        # clusters, which share an L2
        left, clusters = n, []
        while left:
            k = min(left, rng.choice((1, 1, 2, 4, 4, n)))
            clusters.append([1] * k)
            left -= k
        tree.append(clusters)
    groups = win_topology(rng, s, 64, tree)
    ids = m["ids"]
    n *= np
    old = len(groups) == 1 and rng.random() < 0.3
    clusters, at = [], 0
    for c in [c for p in tree for c in p]:
        clusters.append((at, len(c)))
        at += len(c)
    m["caches"] = [[], [], [], [], []]
    recs = []

    def cache(slot, level, kind, a, c):
        line = rng.choice((64, 64, 128))
        ways = rng.choice((1, 2, 4, 8, 12, 16, 16, 24))
        size = ways * line * rng.choice((16, 64, 128, 256, 1024))
        m["caches"][slot].append([size, ways, size // line // ways, 1, line, 1 if kind == 0 else 0, a, c])
        recs.append(win_cache(64, level, kind, size, ways, line, ids[a:a + c], old))
    style = rng.random()
    l2 = clusters if rng.random() < 0.5 else [(i, 1) for i in range(n)]
    pk = [(p[0], p[1]) for p in m["ps"]]
    per_core = rng.random() < 0.5
    k2 = 2 if rng.random() < 0.1 else 0
    have = [rng.random() < 0.95 for _ in range(3)] + [rng.random() < 0.6]
    if not any(have):
        have[1] = True
    if per_core:
        for i in range(n):
            for slot, kind in ((1, 2), (0, 1)):
                if have[slot]:
                    cache(slot, 1, kind, i, 1)
            for a, c in l2:
                if a == i and have[2]:
                    cache(2, 2, k2, a, c)
    else:
        for slot, level, kind, where in ((0, 1, 1, [(i, 1) for i in range(n)]), (1, 1, 2, [(i, 1) for i in range(n)]), (2, 2, k2, l2)):
            for a, c in where:
                if have[slot]:
                    cache(slot, level, kind, a, c)
    if have[3]:
        for a, c in pk:
            cache(3, 3, 0, a, c)
    if rng.random() < 0.1:
        # kinds of cache without a place in the report
        for _ in range(rng.randint(1, 3)):
            level, kind = rng.choice(((1, 0), (1, 3), (4, 0), (4, 2), (0, 0)))
            recs.insert(rng.randint(0, len(recs)), win_cache(64, level, kind, 1 << 20, 16, 64, ids[:rng.randint(1, n)], old))
    s.file("win:rel:%d" % CACHE, b"".join(recs))
    # the registry
    reg = {"name": rng.choice(CHIPS) if rng.random() < 0.7 else "".join(rng.choice("ABC xyz-019@().") for _ in range(rng.randint(0, 70)))}
    c = G.core_type(rng, 64)
    midr = c["impl"] << 24 | c["var"] << 20 | 15 << 16 | c["part"] << 4 | c["rev"]
    mhz = rng.choice((1, 1800, 2956, 3000, 3417, rng.randint(1, 6000), 4294, 4295, 0xFFFFFFFF))
    if rng.random() < 0.95:
        s.file("win:reg:ProcessorNameString", b"\1" + reg["name"].encode())
    if rng.random() < 0.95:
        s.file("win:reg:CP 4000", b"\x0b" + struct.pack("<Q", midr | (rng.getrandbits(32) << 32 if rng.random() < 0.1 else 0)))
    if rng.random() < 0.95:
        s.file("win:reg:~MHz", b"\4" + struct.pack("<I", mhz))
    if all("win:reg:" + k in s.files for k in ("ProcessorNameString", "CP 4000", "~MHz")):
        m["chip"] = [reg["name"][:47], midr, mhz * 1000000]
    else:
        m["chip"] = ["Unknown", None, 0]
    feats = [f for f in list(WIN_FEATURES) + [18, 19, 24, 29, 44, 45] if rng.random() < 0.5]
    s.file("win:features", bytes(feats))
    s.file("win:level", struct.pack("<H", rng.choice((0x803, 0xD0C, 0x001, rng.getrandbits(16)))))
    m["feats"] = feats
    m["usable"] = list(range(n))
    return s


def windows_arm_expect(s):
    m = s.meta
    V, U = A.VENDOR, A.UARCH
    name, midr, freq = m["chip"]
    v, u = A.identity(midr, 64) if midr is not None else ("unknown", "unknown")
    v, u = V[v], U[u]
    n = len(m["ids"])
    pkg_of = [k for k, p in enumerate(m["ps"]) for _ in range(p[1])]
    x = {"caches": m["caches"]}
    use = []
    for rows in m["caches"]:
        idx = [-1] * n
        for k, r in enumerate(rows):
            for i in range(r[6], r[6] + r[7]):
                idx[i] = k
        use.append(idx)
    x["procs"] = [[0, i, i, pkg_of[i], m["ids"][i][0] << 16 | m["ids"][i][1]] + [w[i] for w in use] for i in range(n)]
    at = [i - m["ps"][pkg_of[i]][0] for i in range(n)]
    x["cores"] = [[i, 1, at[i], i, pkg_of[i], v, u, freq] for i in range(n)]
    x["clusters"] = [[i, 1, i, 1, at[i], pkg_of[i], v, u, freq] for i in range(n)]
    x["packages"] = [[name, p[0], p[1], p[2], p[3], p[0], p[1]] for p in m["ps"]]
    x["uarchs"] = [[u, n, n]]
    x["maxcache"] = next((m["caches"][k][use[k][0]][0] for k in (3, 2, 1) if use[k][0] >= 0), 0)
    x["isa"] = set(A.A64_ALWAYS).union(*(WIN_FEATURES.get(f, ()) for f in m["feats"]))
    return x


def scenario(rng, pers, big=False):
    if pers == "winarm":
        return windows_arm(rng, pers, big)
    if pers in X86:
        return x86(rng, pers, big)
    return (wasm if pers.startswith("wasm") else apple)(rng, pers, big)
