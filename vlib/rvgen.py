"""RISC-V platforms: files, capability word and hwprobe answers, and what the API has to say about them."""
from .scenario import Scenario
from .x86gen import cpulist, chunks_for

SYS = "/sys/devices/system/cpu/"
LETTERS = "imafdcv"
SIFIVE = 0x489
V_UNKNOWN, V_SIFIVE = 0, 17


def split(rng, ids, parts, interleave):
    ids = list(ids)
    if interleave:
        rng.shuffle(ids)
    parts = min(parts, len(ids))
    cuts = sorted(rng.sample(range(1, len(ids)), parts - 1)) if parts > 1 else []
    out = []
    for a, b in zip([0] + cuts, cuts + [len(ids)]):
        out.append(sorted(ids[a:b]))
    return out


def platform(rng, big=False):
    n = rng.choice((1, 2, 3, 4, 4, 5, 8, 8, 12, 16, 24)) if not big else rng.choice((64, 100, 128, 200))
    pool = n + rng.choice((0, 0, 0, rng.randint(0, 12)))
    ids = sorted(rng.sample(range(pool), n))
    if rng.random() < 0.7 and 0 not in ids:
        ids[0] = 0
    inter = rng.random() < 0.4
    cpus = {}
    npk = rng.choice((1, 1, 1, 2, 3))
    core_ids = rng.choice(("seq", "hart", "random"))
    nth = 0
    uniform = rng.random() < 0.6
    for pk in split(rng, ids, npk, inter and rng.random() < 0.7):
        for cl in split(rng, pk, rng.choice((1, 1, 2, 3, 5)), inter):
            vend = rng.choice((SIFIVE, SIFIVE, 0, 0x5B7, 0x710, 0x48A, 0x488, 0x10489, 0x80000489, 0x489 << 16, 0x89, 0x1489, 1 << 31, rng.getrandbits(32)))
            for co in split(rng, cl, rng.choice((len(cl), len(cl), len(cl), 1, 2)), inter):
                freq = rng.choice((0, 1200000, 1500000, 4294967, 4294968, 4294967295, rng.randint(1, 4000000)))
                cid = nth if core_ids == "seq" else co[0] if core_ids == "hart" else rng.choice((nth, rng.getrandbits(16), 4294967295))
                nth += 1
                if rng.random() < 0.05:
                    cid = None
                for c in co:
                    v = vend if uniform else rng.choice((SIFIVE, vend))
                    ret = rng.choice((0, 0, 0, 0, 0, 0, -22, -38))
                    mask = rng.choice((7, 7, 7, 7, 6, 1, 0))
                    cpus[c] = dict(id=c, core=co, cluster=cl, package=pk, core_id=cid, freq=freq, vendor=v, arch=rng.getrandbits(64),
                                   impl=rng.getrandbits(64), ret=ret, mask=mask)
    hwcap = rng.choice((rng.getrandbits(32), rng.getrandbits(26), (1 << 26) - 1 ^ 1 << rng.randrange(26), 1 << rng.randrange(26), 0x112D))
    return dict(cpus=[cpus[i] for i in sorted(cpus)], hwcap=hwcap)


def files(rng, meta, s=None, chunk=True, present=None, possible=None, kmax=None):
    s = s or Scenario()
    ids = {c["id"] for c in meta["cpus"]}
    top = max(ids)
    ch = (lambda: chunks_for(rng)) if chunk else (lambda: ())
    s.file(SYS + "present", cpulist(rng, ids if present is None else present, any_order=True) + "\n", chunks=ch())
    if possible is not False:
        s.file(SYS + "possible", cpulist(rng, set(range(top + 1)) if possible is None else possible, any_order=True) + "\n", chunks=ch())
    if kmax is not False:
        s.file(SYS + "kernel_max", "%d\n" % (kmax if kmax is not None else rng.choice((top, top + 1, 63 + top, 8191))))
    for c in meta["cpus"]:
        t = SYS + "cpu%d/topology/" % c["id"]
        s.file(t + "core_cpus_list", cpulist(rng, c["core"]) + "\n", chunks=ch())
        s.file(t + "cluster_cpus_list", cpulist(rng, c["cluster"]) + "\n", chunks=ch())
        s.file(t + "package_cpus_list", cpulist(rng, c["package"]) + "\n", chunks=ch())
        if c["core_id"] is not None:
            s.file(t + "core_id", "%d\n" % c["core_id"])
        if c["freq"]:
            s.file(SYS + "cpu%d/cpufreq/cpuinfo_cur_freq" % c["id"], "%d\n" % c["freq"])
        s.hwprobe.append((c["id"], c["ret"], c["vendor"], c["arch"], c["impl"], c["mask"]))
    s.regs = dict(hwcap=meta["hwcap"])
    s.meta = meta
    return s


def vendor_of(c):
    if c["ret"] < 0 or not c["mask"] & 1:
        return V_UNKNOWN
    return V_SIFIVE if c["vendor"] & 0xFFFFFFFF == SIFIVE else V_UNKNOWN


def expect(meta):
    """the hierarchy by Linux ids, in listing order: the groups with the smallest member first"""
    cpus = sorted(meta["cpus"], key=lambda c: (c["package"][0], c["cluster"][0], c["core"][0], c["id"]))
    procs, cores, clusters, packages = [], [], [], []
    for c in cpus:
        if not packages or packages[-1]["m"] != c["package"]:
            packages.append(dict(m=c["package"], p0=len(procs), c0=len(cores), l0=len(clusters)))
        if not clusters or clusters[-1]["m"] != c["cluster"]:
            clusters.append(dict(m=c["cluster"], p0=len(procs), c0=len(cores), pk=len(packages) - 1, lead=c))
        if not cores or cores[-1]["m"] != c["core"]:
            cores.append(dict(m=c["core"], p0=len(procs), cl=len(clusters) - 1, pk=len(packages) - 1, lead=c))
        procs.append([len(cores) - 1, len(clusters) - 1, len(packages) - 1, c["id"]])
    X = dict(
        procs=procs,
        cores=[[c["p0"], len(c["m"]), c["lead"]["core_id"] or 0, c["cl"], c["pk"], vendor_of(c["lead"]), 0] for c in cores],
        freqs=[c["lead"]["freq"] * 1000 for c in cores],
        clusters=[[c["p0"], len(c["m"]), c["c0"], sum(1 for k in cores if k["cl"] == i), c["pk"], vendor_of(c["lead"]), 0]
                  for i, c in enumerate(clusters)],
        packages=[[c["p0"], len(c["m"]), c["c0"], sum(1 for k in cores if k["pk"] == i), c["l0"],
                   sum(1 for k in clusters if k["pk"] == i)] for i, c in enumerate(packages)],
        uarchs=[[0, len(procs), len(cores)]],
        isa={"riscv_" + l for l in LETTERS if meta["hwcap"] >> (ord(l) - 97) & 1})
    return X
