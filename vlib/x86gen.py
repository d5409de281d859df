"""Random x86 platforms: well-formed ones with a known layout, and hostile ones."""
import struct

from .scenario import Scenario
from . import x86model as M

SYS = "/sys/devices/system/cpu/"
M32 = 0xFFFFFFFF


def vendor_regs(s):
    b = s.encode("latin-1")
    return tuple(int.from_bytes(b[i:i + 4], "little") for i in (0, 8, 4))  # ebx, ecx, edx


def cpulist(rng, ids, style=None, any_order=False):
    """the kernel's list format: 0-3,5,7-9; rarely with white space, split ranges or leading zeros"""
    ids = sorted(ids)
    odd = rng.random() < 0.06 and len(ids) > 0
    out = []
    i = 0
    while i < len(ids):
        j = i
        while j + 1 < len(ids) and ids[j + 1] == ids[j] + 1 and not (odd and rng.random() < 0.2):
            j += 1
        # the kernel always merges maximal ranges
        out.append(str(ids[i]) if i == j else "%d-%d" % (ids[i], ids[j]))
        i = j + 1
    if odd:
        if rng.random() < 0.3:
            out = ["%02d" % int(e) if "-" not in e and rng.random() < 0.3 else e for e in out]
        sp = lambda: rng.choice(("", "", "", " ", "\t", "\r", "\n", "  \t"))
        if rng.random() < 0.7:
            out = [sp() + e + sp() for e in out]
    if any_order and rng.random() < 0.06:
        rng.shuffle(out)
    return ",".join(out)


def cache_leaf(rng, typ, level, apic_bits, cores_field=0, max_size_bits=26, exact_ids=None):
    line = rng.choice((64, 64, 64, 128, 32, 16))
    ways = rng.choice((1, 2, 3, 4, 6, 8, 8, 11, 12, 16, 20, 24, 1024))
    parts = rng.choice((1, 1, 1, 1, 2, 4, 1024))
    setbits = rng.randint(0, 14)
    sets = rng.choice((1 << setbits, (1 << setbits), 3 << max(0, setbits - 1), rng.randint(1, 1 << 14)))
    while ways * parts * line * sets >= 1 << 32:
        sets = max(1, sets >> 1)
        parts = 1
    ids = exact_ids if exact_ids is not None else _ids_for_bits(rng, apic_bits)
    eax = typ | (level << 5) | (rng.getrandbits(2) << 8) | ((ids - 1) << 14) | (cores_field << 26)
    ebx = (line - 1) | ((parts - 1) << 12) | ((ways - 1) << 22)
    edx = rng.getrandbits(3)
    return eax, ebx, sets - 1, edx


def _ids_for_bits(rng, bits):
    if bits == 0:
        return 1
    hi = 1 << bits
    return rng.choice((hi, hi, rng.randint((hi >> 1) + 1, hi)))


def noise_line(rng):
    keys = ("vendor_id", "cpu family", "model", "model name", "stepping", "microcode", "cpu MHz", "cache size",
            "physical id", "siblings", "core id", "cpu cores", "fpu", "fpu_exception", "cpuid level", "wp", "bugs",
            "bogomips", "clflush size", "cache_alignment", "address sizes", "power management", "TLB size")
    return "%s\t: %s" % (rng.choice(keys), rng.choice(("GenuineIntel", "6", "yes", "0x1", "2400.000", "",
                                                       "spectre_v1 spectre_v2", "46 bits physical, 48 bits virtual")))


FLAGS = ("fpu vme de pse tsc msr pae mce cx8 apic sep mtrr pge mca cmov pat pse36 clflush dts acpi mmx fxsr sse sse2 ss ht "
         "tm pbe syscall nx pdpe1gb rdtscp lm constant_tsc art arch_perfmon pebs bts rep_good nopl xtopology nonstop_tsc "
         "cpuid aperfmperf pni pclmulqdq dtes64 monitor ds_cpl vmx smx est tm2 ssse3 sdbg fma cx16 xtpr pdcm pcid dca "
         "sse4_1 sse4_2 x2apic movbe popcnt tsc_deadline_timer aes xsave avx f16c rdrand lahf_lm abm 3dnowprefetch "
         "cpuid_fault epb cat_l3 cdp_l3 invpcid_single intel_ppin ssbd mba ibrs ibpb stibp ibrs_enhanced tpr_shadow vnmi "
         "flexpriority ept vpid ept_ad fsgsbase tsc_adjust bmi1 avx2 smep bmi2 erms invpcid cqm mpx rdt_a avx512f avx512dq "
         "rdseed adx smap clflushopt clwb intel_pt avx512cd avx512bw avx512vl xsaveopt xsavec xgetbv1 xsaves cqm_llc "
         "cqm_occup_llc cqm_mbm_total cqm_mbm_local split_lock_detect dtherm ida arat pln pts hwp hwp_act_window hwp_epp "
         "hwp_pkg_req pku ospke avx512_vnni md_clear flush_l1d arch_capabilities").split()


def proc_cpuinfo(rng, cpus, rich=None):
    """cpus: [(linux id, APIC id)] in the order in which they are printed"""
    if rich is None:
        rich = rng.random() < 0.4
    out = []
    for n, a in cpus:
        lines = ["processor\t: %d" % n]
        if rich:
            for _ in range(rng.randint(0, 6)):
                lines.append(noise_line(rng))
            lines.append("flags\t\t: " + " ".join(rng.sample(FLAGS, rng.randint(1, len(FLAGS)))))
            if rng.random() < 0.8:
                lines.append("initial apicid\t: %d" % rng.choice((a, a ^ 1, rng.getrandbits(8))))
        ap = "apicid\t\t: %d" % a
        lines.insert(rng.randint(1, len(lines)), ap)
        if rich and rng.random() < 0.5:
            lines.append("power management:")
        out.append("\n".join(lines) + "\n")
    return "\n".join(out) + ("\n" if rng.random() < 0.9 else "")


def chunks_for(rng):
    r = rng.random()
    if r < 0.55:
        return ()
    if r < 0.7:
        return (1,) if rng.random() < 0.3 else (rng.randint(1, 40),)
    return tuple(rng.choice((1, 2, 3, 5, 7, 16, 31, 63, 64, 65, 127, 255, 256, 257, 1024, 4096))
                 for _ in range(rng.randint(1, 12)))


def platform_files(rng, s, cpus, listed=None, max_id=None, present=None, possible=None, chunk=True):
    """files for usable CPUs `cpus`; the three enumeration files may carry more ids than are usable"""
    ids = {c[0] for c in cpus}
    mode = rng.random()
    top = max(ids)
    possible = set(ids) if possible is None else possible
    present = set(ids) if present is None else present
    kmax = max_id if max_id is not None else rng.choice((top, top + 1, max(top, 255), max(top, 8191)))
    ch = (lambda: chunks_for(rng)) if chunk else (lambda: ())
    nl = "\n" if rng.random() < 0.95 else ""
    if possible is not False:
        s.file(SYS + "possible", cpulist(rng, possible, any_order=True) + nl, chunks=ch())
    if present is not False:
        s.file(SYS + "present", cpulist(rng, present, any_order=True) + nl, chunks=ch())
    if kmax is not False:
        s.file(SYS + "kernel_max", "%d%s" % (kmax, nl))
    listed = sorted(listed if listed is not None else cpus)
    if rng.random() < 0.06:
        rng.shuffle(listed)
    s.file("/proc/cpuinfo", proc_cpuinfo(rng, listed), chunks=ch())
    return mode


def apic_layout(rng, big=False):
    """(thread bits, core bits, [apic ids])"""
    tb = rng.choice((0, 0, 1, 1, 1, 2, 3))
    cb = rng.choice((0, 1, 2, 3, 4, 5, 6, 7)) if not big else rng.choice((5, 6, 7, 8))
    npk = rng.choice((1, 1, 1, 2, 2, 3, 4, 8))
    style = rng.random()
    wide = rng.random() < 0.25  # x2APIC-wide ids
    pkgs = rng.sample(range(0, 16 if not wide else 1 << 16), npk)
    # keep ids below 2**31
    pkgs = [p & ((1 << max(1, 31 - tb - cb)) - 1) for p in pkgs]
    pkgs = list(dict.fromkeys(pkgs))
    if style < 0.5:
        pkgs = list(range(len(pkgs)))
    apics = []
    for p in pkgs:
        cores = list(range(1 << cb))
        want = rng.randint(1, len(cores))
        if len(pkgs) * want > (64 if not big else 512):
            want = max(1, (64 if not big else 512) // len(pkgs))
        sel = cores[:want] if rng.random() < 0.5 else sorted(rng.sample(cores, want))
        for c in sel:
            th = list(range(1 << tb))
            k = len(th) if rng.random() < 0.7 else rng.randint(1, len(th))
            for t in (th[:k] if rng.random() < 0.6 else rng.sample(th, k)):
                apics.append((p << (tb + cb)) | (c << tb) | t)
    rng.shuffle(apics)
    cap = 96 if not big else 1000
    return tb, cb, apics[:cap] if rng.random() < 0.9 else apics[:max(1, rng.randint(1, len(apics)))][:cap]


def linux_ids(rng, n):
    r = rng.random()
    if r < 0.6:
        return list(range(n))
    if r < 0.9:
        return sorted(rng.sample(range(0, n * 2 + 2), n))
    return sorted(rng.sample(range(0, 1000 + n), n))


def gen_platform(rng, bits=64, big=False, topo=None, with_caches=None):
    """A well-formed x86 system; the scenario's meta carries the usable CPUs."""
    s = Scenario()
    tb, cb, apics = apic_layout(rng, big)
    ids = linux_ids(rng, len(apics))
    order = rng.random()
    if order < 0.4:
        apics.sort()
    cpus = list(zip(ids, apics))
    kind = topo or rng.choice(("leafB", "leafB", "leafB", "htt4", "htt4", "nohtt", "amd8", "amd1", "amdB", "hygon", "via"))
    base, ext = rng.choice((0xB, 0xD, 0xD, 0x16, 0x1F, 0x20)), 0x80000008
    vs = "GenuineIntel"
    l1c = l1d = 0
    logical = 0
    e1c = 0
    e8c = 0
    use_d = False
    leafB = []
    corefield = 0
    if kind == "leafB":
        l1c |= 1 << 21
        l1d |= (1 << 28) if rng.random() < 0.95 else 0
        logical = rng.choice((0, 1, 16, 255))
        leafB = [(1, tb), (2, tb + cb)]
        if rng.random() < 0.1 and tb == 0:
            leafB = [(2, cb)]
        corefield = rng.randint(0, 63)
    elif kind == "htt4":
        base = rng.choice((4, 5, 7, 0xA, 0xD))
        tb, cb = min(tb, 2), min(cb, 5)
        l1d |= 1 << 28
        corefield = (1 << cb) - 1
        if cb and rng.random() < 0.3:
            corefield = rng.randint(1 << (cb - 1), (1 << cb) - 1)
        hi = 1 << (tb + cb)
        logical = hi if rng.random() < 0.6 or tb + cb == 0 else rng.randint((hi >> 1) + 1, hi)
        if rng.random() < 0.2:
            base = 0xD  # x2APIC not advertised: leaf 0xB must not be used
            leafB = [(1, 3), (2, 7)]
    elif kind == "nohtt":
        base = rng.choice((2, 4, 0xD))
        tb = 0
        corefield = (1 << min(cb, 6)) - 1
        cb = min(cb, 6)
        if base < 4:
            cb = 0
    elif kind in ("amd8", "amd1", "amdB", "hygon"):
        vs = "HygonGenuine" if kind == "hygon" else "AuthenticAMD"
        l1d |= 1 << 28
        e1c |= 1 << 1
        use_d = rng.random() < 0.7
        if use_d:
            e1c |= 1 << 22
            ext = 0x8000001D
        if kind == "amd1":
            ext = rng.choice((0x80000001, 0x80000004, 0x80000007))
            use_d = False
            hi = 1 << min(cb, 7)
            logical = hi if rng.random() < 0.6 or cb == 0 else rng.randint((hi >> 1) + 1, hi)
            cb, tb = min(cb, 7), 0
        elif kind in ("amdB", "hygon") and rng.random() < 0.8:
            l1c |= 1 << 21
            base = rng.choice((0xD, 0x10))
            leafB = [(1, tb), (2, tb + cb)]
            e8c = (1 << cb) - 1
        else:
            e8c = (1 << min(cb, 8)) - 1
            if cb and rng.random() < 0.3:
                e8c = rng.randint(1 << (cb - 1), (1 << cb) - 1)
            tb = 0
            base = rng.choice((1, 2, 5, 7, 0xD))
    else:
        vs = rng.choice(("CentaurHauls", "Some  Vendor", "GenuineIotel"))
        base = rng.choice((1, 2, 4, 0xB))
        tb = 0
        if base < 4:
            cb = 0
        cb = min(cb, 6)
        corefield = (1 << cb) - 1
    ps = tb + cb
    b, c, d = vendor_regs(vs)
    sig = rng.choice((0x306A9, 0x50654, 0x906EA, 0xF43, 0x100F42, 0x800F11, 0xA20F10, 0x90F00, 0x000F00, 0x6FB))
    cp = [(0, None, base, b, c, d),
          (1, None, sig, (rng.getrandbits(8) << 24) | (logical << 16) | (8 << 8) | rng.getrandbits(8),
           l1c | (rng.getrandbits(32) & ~(1 << 21) & ~(3 << 26)), l1d | (rng.getrandbits(32) & ~(1 << 28)))]
    # caches: sharing between one thread's worth and the whole package, non-decreasing with the level
    levels = []
    if with_caches is not False:
        lo, hi = tb, min(11, max(ps, tb) + rng.choice((0, 0, 0, 1)))
        shares = sorted(rng.randint(lo, max(lo, hi)) for _ in range(4))
        shares[0] = min(shares[0], lo + 1)
        maxlvl = rng.choice((1, 2, 3, 3, 3, 4))
        if rng.random() < 0.1:
            levels.append((3, 1, shares[0]))
        else:
            levels.append((1, 1, shares[0]))
            if rng.random() < 0.95:
                levels.append((2, 1, rng.choice((shares[0], lo))))
        for lv in range(2, maxlvl + 1):
            levels.append((rng.choice((3, 3, 3, 1)), lv, shares[lv - 1]))
        if rng.random() < 0.15:
            levels.append((2, rng.randint(2, 4), hi))          # instruction caches above L1 are not reported
        if rng.random() < 0.15:
            levels.append((3, rng.choice((0, 5, 6, 7)), hi))   # nor are unknown levels
        if rng.random() < 0.15:
            levels.append((rng.randint(4, 31), rng.randint(1, 4), hi))  # nor unknown types
        if rng.random() < 0.3:
            rng.shuffle(levels)
    if kind in ("leafB", "htt4", "nohtt", "via") and (levels or kind == "htt4" or cb):
        if not levels and base >= 4:
            levels = [(1, 1, tb)]
    for leaf in (4, 0x8000001D):
        for i, (t, lv, sh) in enumerate(levels):
            cp.append((leaf, i) + cache_leaf(rng, t, lv, sh, corefield if leaf == 4 else rng.getrandbits(6)))
        # a poisoned entry behind the terminator must never be read
        cp.append((leaf, len(levels), 0 if rng.random() < 0.5 else (rng.getrandbits(27) << 5), rng.getrandbits(32),
                   rng.getrandbits(32), rng.getrandbits(32)))
        cp.append((leaf, len(levels) + 1) + cache_leaf(rng, 3, 2, 11, 63))
    for i, (t, sh) in enumerate(leafB):
        cp.append((0xB, i, sh | (rng.getrandbits(27) << 5), rng.getrandbits(16), (t << 8) | i, apics[0]))
    cp.append((0xB, len(leafB), rng.choice((0, 0, 5)), 0, len(leafB), apics[0]))
    cp.append((0xB, len(leafB) + 1, 9, 0, (2 << 8) | 9, 0))
    cp += [(0x80000000, None, ext, b, c, d),
           (0x80000001, None, 0, 0, e1c | (rng.getrandbits(32) & ~(1 << 1) & ~(1 << 22)), rng.getrandbits(32)),
           (0x80000008, None, 0, 0, e8c | (rng.getrandbits(20) << 12), 0)]
    if rng.random() < 0.3:
        cp.append((2, None, 0x01 | (rng.choice((0x2C, 0x30, 0x60, 0)) << 8), rng.choice((0, 0x7D, 0xF0)),
                   rng.choice((0, 0x4D, 0x49, 0x80, 0x82)), rng.choice((0, 0x0C, 0xD2))))
    s.cpuid = cp
    s.regs = {"xcr0": rng.choice((0, 3, 7, 0xE7, 0x1F))}
    s.meta = {"kind": kind, "bits": bits, "cpus": cpus, "tb": tb, "cb": cb}
    return s, cpus


def probe_ids(rng, ids, limit=40):
    top = max(ids)
    extra = [top + 1, top + 2, top + 64, 1023, 1024, 0x7FFFFFFF, M32, -1]
    holes = [i for i in range(min(top, 4096)) if i not in ids]
    rng.shuffle(holes)
    sel = list(ids)
    if len(sel) > limit:
        sel = [sel[0], sel[-1]] + rng.sample(sel, limit - 2)
    return sel + holes[:6] + extra
