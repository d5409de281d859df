"""Platforms whose kernel files and CPUID answers are damaged or malicious."""
import re

from . import anygen as N, osgen as O, armgen as A, x86gen as X

NUMS = (b"0", b"1", b"7", b"15", b"16", b"31", b"32", b"63", b"64", b"255", b"1023", b"1024", b"4095", b"65535", b"65536", b"2147483647",
        b"2147483648", b"4294967294", b"4294967295", b"4294967296", b"18446744073709551616", b"99999999999999999999999999", b"-1", b"0x10",
        b"", b"00000000000000000000000000000000000000000000007")
WORDS = (b"processor", b"processor\t: ", b"apicid\t\t: ", b"CPU implementer\t: ", b"CPU part\t: 0x", b"CPU variant\t: 0x", b"CPU revision\t: ",
         b"CPU architecture: ", b"CPU architecture: 7TEJ(", b"Features\t: ", b"Hardware\t: ", b"Revision\t: ", b"I size\t\t: ", b"D sets\t\t: ",
         b"D line length\t: ", b"I assoc\t\t: ", b"Serial\t: ", b":", b" : ", b"\t:", b": \n", b"Hardware\t: \n", b"Features\t: \n",
         b"CPU part\t: \n", b"Processor\t: ", b"model name\t: ")
CHUNKS = (b"\0", b"\xff", b"\n", b"\n\n\n", b"\r\n", b" ", b"\t\t\t", b",", b",,,", b"-", b"--", b"0-", b"-5", b"3-1", b"0-0-0", b"%s%n", b"%",
          b"A" * 63, b"A" * 64, b"A" * 65, b"B" * 255, b"9" * 300, b"c" * 1023, b"d" * 1100, b"e" * 2047, b"f" * 2100, b"0x", b"0xg")


def mutate(rng, t):
    t = bytearray(t)
    for _ in range(rng.choice((1, 1, 2, 3, 6, 15))):
        k = rng.randint(0, len(t))
        r = rng.random()
        if r < 0.15 and t:
            t[k % len(t)] = rng.randrange(256)
        elif r < 0.3:
            del t[k:k + rng.choice((1, 2, 3, 10, 60, 1000))]
        elif r < 0.55:
            # replace a number
            j = k
            while j < len(t) and not 48 <= t[j] <= 57:
                j += 1
            e = j
            while e < len(t) and 48 <= t[e] <= 57:
                e += 1
            t[j:e] = rng.choice(NUMS)
        elif r < 0.75:
            t[k:k] = rng.choice(CHUNKS)
        elif r < 0.9:
            t[k:k] = b"\n" * rng.randint(0, 1) + rng.choice(WORDS) + rng.choice(NUMS) + b"\n" * rng.randint(0, 1)
        elif r < 0.95:
            t = t[:k]
        else:
            a = rng.randint(0, len(t))
            t[k:k] = t[a:a + rng.choice((5, 30, 200))]
    return bytes(t[:60000])


def noise(rng):
    r = rng.random()
    if r < 0.2:
        return b""
    if r < 0.4:
        return bytes(rng.randrange(256) for _ in range(rng.choice((1, 5, 31, 32, 33, 300, 3000))))
    if r < 0.7:
        return b"".join(rng.choice(WORDS + CHUNKS + NUMS) for _ in range(rng.randint(1, 40)))
    return rng.choice(NUMS) + rng.choice((b"", b"\n", b",", b"-", b" x"))


TOP = 20000


def cap(data):
    """numbers below TOP, so that the lists do not honestly ask for gigabytes and hours"""
    return re.sub(rb"\d+", lambda m: m.group(0) if int(m.group(0)) % (1 << 32) < TOP else b"%d" % (int(m.group(0)) % TOP), data)


LISTS = ("possible", "present")
SYS = X.SYS


def spoil_files(rng, s):
    names = list(s.files)
    style = rng.random()
    for p in names:
        r = rng.random()
        if style < 0.35:
            hit = p == "/proc/cpuinfo"
        elif style < 0.6:
            hit = r < 0.3 and p != "/proc/cpuinfo"
        elif style < 0.7:
            hit = False
        else:
            hit = r < 0.4
        if hit:
            q = rng.random()
            if q < 0.75:
                s.files[p][0] = mutate(rng, s.files[p][0])
            elif q < 0.9:
                s.files[p][0] = noise(rng)
            else:
                del s.files[p]
                continue
        if rng.random() < 0.4:
            s.files[p][3] = X.chunks_for(rng)
    km = s.files.get(SYS + "kernel_max")
    if km is not None and rng.random() < 0.2:
        km[0] = rng.choice(NUMS) + b"\n"
    limit = None
    if km is not None:
        m = re.match(rb"\s*(\d+)", km[0])
        limit = int(m.group(1)) % (1 << 32) if m else None
        if limit is not None and TOP <= limit < (1 << 32) - 1:
            # without readable lists the limit alone is in charge
            km[0] = rng.choice((b"4294967295\n", b"%d\n" % TOP, b"8191\n", b"1\n", b"0\n"))
            limit = TOP
    if limit is not None and limit >= TOP:
        for l in LISTS:
            if SYS + l in s.files:
                s.files[SYS + l][0] = cap(s.files[SYS + l][0])
    return s


def cpuid_noise(rng, s):
    """random register contents, cache and topology lists that never end"""
    out = []
    style = rng.random()
    for e in s.cpuid:
        l, sub, a, b, c, d = e
        if rng.random() < (0.15 if style < 0.6 else 0.7):
            v = [a, b, c, d]
            for k in range(4):
                r = rng.random()
                if r < 0.3:
                    v[k] ^= 1 << rng.randrange(32)
                elif r < 0.5:
                    v[k] = rng.getrandbits(32)
                elif r < 0.6:
                    v[k] = rng.choice((0, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF))
            a, b, c, d = v
        out.append((l, sub, a, b, c, d))
    for leaf in (4, 0x8000001D):
        if not any(e[0] == leaf and (e[1] is None or e[2] & 31 == 0) for e in out):
            n = max([e[1] for e in out if e[0] == leaf and e[1] is not None] or [-1]) + 1
            out.append((leaf, n, 0, 0, 0, 0))
    # unlisted subleaves answer zero, which ends every list; a list shared by all subleaves must end at once
    out = [e if not (e[1] is None and e[0] in (4, 0x8000001D, 0xB)) else (e[0], None, 0, 0, 0, 0) for e in out]
    if rng.random() < 0.2:
        # an answer that does not depend on the subleaf: the list never ends
        leaf = rng.choice((4, 0x8000001D, 0xB))
        a, b, c, d = rng.choice([e for e in out if e[0] == leaf] or [(leaf, 0) + tuple(rng.getrandbits(32) for _ in range(4))])[2:]
        if leaf == 0xB:
            c = c & ~0xFF00 | rng.choice((1, 2, 3, 255)) << 8
        else:
            a = a & ~31 | rng.choice((1, 2, 3, 3, 4, 31))
        out = [e for e in out if e[0] != leaf] + [(leaf, None, a, b, c, d)]
    if rng.random() < 0.5:
        out.append((2, None, 0x01 | rng.getrandbits(24) << 8, rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32)))
    if rng.random() < 0.5:
        # brand string
        style = rng.random()
        for k in range(3):
            if style < 0.3:
                w = [rng.getrandbits(32) for _ in range(4)]
            else:
                al = rng.choice((b" ()@RTMC0", b"AMD Intel(R) Core(TM) CPU @ 2.0GHz", b"aZ -", b"\0 x", b"QEMU "))
                w = [int.from_bytes(bytes(rng.choice(al) for _ in range(4)), "little") for _ in range(4)]
            out.append((0x80000002 + k, None) + tuple(w))
        out = [(l, sub, max(a, 0x80000004) if l == 0x80000000 else a, b, c, d) for l, sub, a, b, c, d in out]
    s.cpuid = out
    s.regs["xcr0"] = rng.getrandbits(rng.choice((3, 8, 20, 64)))
    return s


PROPS = ("ro.product.board", "ro.board.platform", "ro.mediatek.platform", "ro.arch", "ro.chipname", "ro.hardware.chipname")
FRAG = ("MSM8996", "msm8937", "APQ8064", "SDM845", "SM8150", "mt6797", "MT6592T", "exynos8890", "universal7420", "Samsung Exynos7420", "smdk4x12",
        "kirin970", "hi3660", "rk3288", "RK3399", "sc9830i", "sp9832a", "scx15", "Unisoc T610", "ums512", "UMS512", "lc1860c", "PXA1088", "PXA1L88",
        "OMAP4430", "sun8i", "sun50i", "WMT", "tcc893x", "BCM2835", "hawaii", "capri", "java", "rhea", "montblanc", "gs702a", "k3v2oem1", "hi6620oem",
        "mt6735", "Qualcomm Technologies, Inc ", "LGE MSM8974 HAMMERHEAD", "Hisilicon Kirin 950", "msm", "MSM", "mt", "MT", "S5E8890", "exynos",
        "Tegra", "grouper", "flo", "s3ve3g", "codina", "NXT-AL10", "BLA-L29", "omap4", "crespo", "tuna", "molly", "T", "ro", "MT8163", "MTK6589")


def word(rng):
    r = rng.random()
    w = rng.choice(FRAG)
    if r < 0.3:
        return w
    if r < 0.6:
        w = bytearray(w.encode())
        for _ in range(rng.randint(1, 3)):
            k = rng.randint(0, len(w))
            q = rng.random()
            if q < 0.4 and w:
                w[k % len(w)] = rng.choice(b"0123456789abcMSTXZ -_/\t,") 
            elif q < 0.7:
                w[k:k] = bytes([rng.choice(b"0123456789abMSPRO -_/,")])
            else:
                del w[k:k + rng.randint(1, 4)]
        return bytes(w).decode("latin-1")
    if r < 0.8:
        return w + "".join(rng.choice(FRAG) for _ in range(rng.randint(0, 4)))
    if r < 0.9:
        return "".join(chr(rng.randrange(1, 256)) for _ in range(rng.choice((1, 2, 3, 4, 5, 6, 7, 63, 64, 91, 92))))
    return w[:rng.randint(0, len(w))]


def win_records(rng, f, kind, bits, prob):
    """lists of processors that name others, none, too many, and records that are lost, doubled or of another kind"""
    d, at, out = f[0], 0, []
    head, one = (8 + 32 if kind == O.CACHE else 8 + 24), (16 if bits == 64 else 12)
    while at < len(d):
        size = int.from_bytes(d[at + 4:at + 8], "little")
        r = bytearray(d[at:at + size])
        at += size
        copies = 1
        if rng.random() < prob:
            k = rng.randrange(8)
            m = head + one * rng.randrange(max((size - head) // one, 1))
            if k == 0:
                copies = rng.choice((0, 2, 3))
            elif k == 1:
                r[0:4] = rng.choice((0, 1, 2, 3, 4, 77)).to_bytes(4, "little")
            elif k == 2:
                r[head - 2:head] = rng.randint(0, (size - head) // one).to_bytes(2, "little")
            elif k == 3:
                r[m + bits // 8:m + bits // 8 + 2] = rng.choice((0, 1, 2, 19, 65535)).to_bytes(2, "little")
            else:
                v = int.from_bytes(r[m:m + bits // 8], "little")
                w = rng.getrandbits(bits)
                v = rng.choice((0, (1 << bits) - 1, v >> 1, v << 1, v << 1 | 1, v ^ 1 << rng.randrange(bits), v & w, w))
                r[m:m + bits // 8] = (v & ((1 << bits) - 1)).to_bytes(bits // 8, "little")
        out += [bytes(r)] * copies
    f[0] = b"".join(out)


def windows(rng, pers):
    """senseless and contradictory records, caches, registry entries and CPUID, and missing answers"""
    s = O.scenario(rng, pers, rng.random() < 0.03)
    if pers in O.X86 and rng.random() < 0.7:
        cpuid_noise(rng, s)
    if rng.random() < 0.15:
        del s.files["win:rel:%d" % rng.choice([k for k in (O.CORE, O.CACHE, O.PACKAGE) if "win:rel:%d" % k in s.files])]
    if rng.random() < 0.5:
        prob = rng.choice((0.02, 0.2, 0.7))
        for k in (O.CORE, O.PACKAGE, O.CACHE):
            if "win:rel:%d" % k in s.files and rng.random() < 0.6:
                win_records(rng, s.files["win:rel:%d" % k], k, O.BITS[pers], prob)
        if rng.random() < 0.3:
            for f in ("win:groups", "win:max"):
                d = s.files[f][0]
                n = [int.from_bytes(d[i:i + 4], "little") for i in range(0, len(d), 4)]
                n = [rng.choice((0, 1, v // 2, max(v, 1) - 1, v + 1, 64)) if rng.random() < 0.5 else v for v in n]
                if rng.random() < 0.3:
                    n = n[:1]
                s.files[f][0] = b"".join(v.to_bytes(4, "little") for v in n)
    if pers != "winarm":
        return s
    f = "win:rel:%d" % O.CACHE
    if f in s.files and rng.random() < 0.7:
        d, at = bytearray(s.files[f][0]), 0
        prob = rng.choice((0.02, 0.3, 1))
        while at < len(d):
            size = int.from_bytes(d[at + 4:at + 8], "little")
            if rng.random() < prob:
                k = rng.randrange(5)
                if k == 0:
                    d[at + 8] = rng.choice((0, 1, 2, 3, 4, 5, 255))
                elif k == 1:
                    d[at + 9] = rng.choice((0, 1, 255, rng.getrandbits(8)))
                elif k == 2:
                    d[at + 10:at + 12] = rng.choice((0, 1, 64, 65535)).to_bytes(2, "little")
                elif k == 3:
                    d[at + 12:at + 16] = rng.choice((0, 1, rng.getrandbits(32), 2**32 - 1)).to_bytes(4, "little")
                else:
                    d[at + 16:at + 20] = rng.choice((0, 1, 2, 3, 4, 77)).to_bytes(4, "little")
            at += size
        s.files[f][0] = bytes(d)
    for k in ("ProcessorNameString", "CP 4000", "~MHz"):
        f = "win:reg:" + k
        if f in s.files and rng.random() < 0.5:
            t = rng.choice((1, 3, 4, 11))
            n = rng.choice((0, 1, 4, 8, 8, 47, 48, 49, 200, 5000))
            d = bytes(rng.getrandbits(8) if rng.random() < 0.1 else 65 + i % 26 for i in range(n))
            s.files[f][0] = bytes((t,)) + d
    return s


def other_system(rng, pers):
    """senseless answers of the sysctl interface; the counts that are allocated from stay below 20000"""
    s = O.scenario(rng, pers)
    if pers in O.X86 and rng.random() < 0.6:
        cpuid_noise(rng, s)
    prob = rng.choice((0, 0.1, 0.3, 0.7))
    cores = tpc = None
    for f in list(s.files):
        d = s.files[f][0]
        if rng.random() >= prob:
            continue
        r = rng.random()
        if r < 0.15:
            del s.files[f]
        elif f.endswith(("topology_spec", "brand_string", "hw.machine", "cacheconfig")):
            d = mutate(rng, d) if rng.random() < 0.6 else noise(rng)[:8192]
            if rng.random() < 0.2:
                d = d * rng.randint(2, 20)
            if f.endswith("topology_spec") and rng.random() < 0.3:
                d = rng.choice((b'<group level="1" ', b'<group level="2" cache-level="0">')) * rng.randint(0, 40)
            s.files[f][0] = (d[:100000] if f.endswith("cacheconfig") else d.replace(b"\0", b" ") + b"\0")
        elif r < 0.3 and f != "cores":
            n = rng.choice((0, 1, 2, 3, 5, 8, 8, 16) if "hw.optional" in f or ":6." in f or "cpufamily" in f else (0, 1, 2, 3))
            s.files[f][0] = (d + bytes(rng.getrandbits(8) for _ in range(12)))[:n]
        else:
            v = rng.choice((0, 1, 2, 3, 7, 64, 139, -1, -2147483648, rng.randint(-5, 140), rng.getrandbits(7), -rng.getrandbits(31)))
            if f == "sysctl:hw.cpufamily" or f.startswith("sysctl:hw.optional") or f.startswith("sysctl:6."):
                v = rng.choice((v, rng.getrandbits(32), 1 << rng.randrange(32)))
            if f == "sysctl:6.16":
                v &= 0xFFFF
            s.files[f][0] = (v & 0xFFFFFFFF).to_bytes(4, "little")
    return s


def scenario(rng, pers):
    if pers in O.WIN:
        return windows(rng, pers)
    if pers in O.BITS:
        return other_system(rng, pers)
    fam = N.family(pers)
    s = N.scenario(rng, pers, partial=0.5)
    if fam == "x86":
        if rng.random() < 0.6:
            cpuid_noise(rng, s)
        if rng.random() < 0.8:
            spoil_files(rng, s)
    else:
        if fam == "arm" and rng.random() < 0.4 and "/proc/cpuinfo" in s.files:
            t = s.files["/proc/cpuinfo"][0]
            hw = word(rng).replace("\n", " ").encode("latin-1")
            rev = (word(rng) if rng.random() < 0.3 else "%x" % rng.getrandbits(rng.choice((4, 16, 24, 32)))).replace("\n", " ").encode("latin-1")
            t += b"Hardware\t: " + hw + b"\nRevision\t: " + rev + b"\n"
            s.files["/proc/cpuinfo"][0] = t
        if pers.startswith("andr"):
            for p in PROPS:
                if rng.random() < 0.5:
                    s.props.append((p, word(rng)[:91].replace("\0", " ")))
            s.regs["auxv_missing"] = rng.choice((0, 0, 1, 2))
            if rng.random() < 0.5:
                s.file("/proc/self/auxv", noise(rng) if rng.random() < 0.5 else
                       b"".join(rng.choice((16, 26, 0, 3, 6)).to_bytes(A_WORD[pers], "little") +
                                rng.getrandbits(32).to_bytes(A_WORD[pers], "little") for _ in range(rng.randint(0, 30))), chunks=X.chunks_for(rng))
        if rng.random() < 0.8:
            spoil_files(rng, s)
        if fam == "riscv" and rng.random() < 0.4:
            s.hwprobe = [(c, rng.choice((0, -1, -38, 5)), rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(3))
                         for c, *_ in s.hwprobe]
        if fam == "arm":
            s.regs["fpsid"], s.regs["mvfr0"], s.regs["wcid"] = rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32)
    return s


A_WORD = {"andr64": 8, "andr32": 4}
