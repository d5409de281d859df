"""x86: the package name is the vendor and the undecorated brand string."""
from vlib import namemodel as B, x86gen as G, x86model as M
from vlib.core import Part
from vlib.judge import ended
from vlib.scenario import Scenario

RULE = ("brand strings put together from the vocabulary of real ones (vendors, families, model numbers, core counts, frequencies, graphics, "
        "trademark signs, engineering samples) with random spacing, order, case and cuts, every two meaningful words in a row, all vendor strings, multi-package systems; a case "
        "counts once per distinct (vendor, name) observed")
ASSUMPTIONS = ["vlib/namemodel.py states the documented decoration of brand strings"]

NAMES = sorted(M.VENDOR_STRINGS)
LEAD = ("Intel(R) ", "Intel ", "Genuine Intel(R) ", "AMD ", "AMD-", "VIA ", "IDT ", "Cyrix ", "Transmeta(tm) ", "Transmeta ", "Hygon ", "Quad-Core AMD ",
        "Dual-Core AMD ", "Six-Core AMD ", "Mobile ", "", "", "    ", "Common KVM ", "QEMU Virtual ")
FAMILY = ("Core(TM)", "Core(TM)2", "Core(TM)2 Duo", "Core(TM) i7", "Xeon(R)", "Xeon", "Atom(TM)", "Pentium(R)", "Pentium(R) 4", "Pentium(R) III",
          "Celeron(R)", "Pentium(R) Dual", "Athlon(tm)", "Athlon(tm) 64 X2", "Athlon(tm) II", "Turion(tm) X2 Ultra", "Opteron(tm)", "Phenom(tm) II",
          "FX(tm)-6100", "Ryzen 7", "Ryzen Threadripper", "EPYC", "K6(tm)-III", "K6tm", "K6(tm) 3D+", "Geode(TM)", "MediaGXtm", "WinChip", "C3 Ezra",
          "C7-M", "Nano", "Eden", "Crusoe(tm)", "Efficeon(tm)", "Sempron(tm)", "E1-2100", "GX-212JC", "A10-4600M", "A12-9800", "Gold", "C86 7185")
MODEL = ("650", "990", "X 990", "Q 820", "M 480", "X3210", "D2700", "E5-2690", "E5-2690 v4", "E5-2690 V4", "E3-1230 V2", "i7-6700K", "i5-2520M", "0", "000",
         "0000", "T4200", "3800+", "2347 HE", "ZM-82", "L3050@1800MHz", "1950X", "7 1700", "2600", "4", "U 1", "X 123456", "N830", "L4700", "TM5800",
         "5Y70", "6142", "M", "HE", "v2", "V", "VV", "V10", "model", "Z", "2-3D", "8650", "9")
REST = ("CPU", "Processor", "processor", "Processors", "Dual-Core", "Quad-Core", "Six-Core", "Eight-Core", "Triple-Core", "QuadCore", "12-Core", "16-Core",
        "32-Core", "8-Core", "Dual Core", "Dual", "Core", "Dual  Core", "Dual Mobile", "Dual-Core Mobile", "Mobile", "family", "model unknown", "model",
        "unknown", "with Radeon(tm) HD Graphics", "APU with Radeon(TM) R7 Graphics", "APU", "SOC", "SOC with Radeon(TM)", "RADEON R7, 12 COMPUTE CORES",
        "Radeon R5", "w/ multimedia extensions", "MMXtm Enhanced", "MMX", "Integrated Processor by National Semi", "Eng Sample", "Engineering Sample",
        "Eng Sample, ZD302046W4K43_36", "Eng Sample: 2D3151A2M88E4", "Engineering", "Eng", "(tm)", "(unclosed", ")", "-", "-II", "II-", "tm", "5tm",
        "Atm", "atm", "AMD", "VIA", "Intel", "Cyrix", "AMD-", "AMD-X", "Genuine", "Geode", "Samples", "Sample")
FREQ = ("@ 3.47GHz", "@ 2.13GHz", "@ 2 GHz", "@ 1.2+ GHz", "800MHz", "1266MHz", "@ 728\0MHz", "@1800MHz", "@ 0000 @ 1.87GHz", "@", "@ ", "GHz", "9GHz",
        "500KHz", "3.2GHZ", "2.0Hz", "@ x", "@ 2.40GHz (max)", "", "", "")

# words with a meaning of their own: every two of them follow each other
WORDS = sorted(B.DROP | B.CORES | B.STOP | {"Core", "Dual", "Mobile", "model", "unknown", "Eng", "Engineering", "Sample", "Sample,", "Sample:", "Geode", "AMD-K6",
                                            "X", "V2", "MMXtm", "0000", "990", "3.2GHz", "-", "(tm)", "@"})


def pair(rng, i):
    a, b = WORDS[i // len(WORDS) % len(WORDS)], WORDS[i % len(WORDS)]
    t = rng.choice(("", "", "C7-M ", "Athlon(tm) ", "T4200 ", "@ ")) + a + rng.choice((" ", " ", " ", "  ", "\0")) + b
    t += rng.choice(("", "", " ZM-82", " 650", " Gold", " Mobile", " @ 2.13GHz", " Processor"))
    return t[:47].ljust(48, "\0")


def brand(rng):
    r = rng.random()
    if r < 0.03:
        return "\0" * 48
    sp = lambda: " " * rng.choice((1, 1, 1, 1, 2, 5, 0)) if rng.random() < 0.95 else rng.choice(("\t", "\0", "\0 ", " \t"))
    parts = []
    if rng.random() < 0.8:
        parts.append(rng.choice(LEAD).rstrip() if rng.random() < 0.1 else rng.choice(LEAD))
    if rng.random() < 0.8:
        parts.append(rng.choice(FAMILY))
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        parts.append(rng.choice(REST if rng.random() < 0.6 else MODEL))
    if rng.random() < 0.6:
        parts.insert(rng.randint(1, len(parts)) if parts else 0, rng.choice(MODEL))
    if rng.random() < 0.7:
        parts.append(rng.choice(FREQ))
    if rng.random() < 0.07:
        rng.shuffle(parts)
    t = ""
    for p in parts:
        t += (sp() if t and not t.endswith(("-", " ")) else "") + p
    t = " " * rng.choice((0, 0, 0, 1, 8)) + t
    if rng.random() < 0.08 and t:
        k = rng.randrange(len(t))
        t = t[:k] + rng.choice("aZ0 -()@\xe9\x7f") + t[k + rng.randint(0, 1):]
    if rng.random() < 0.1:
        t = t.rjust(47)
    elif rng.random() < 0.1:
        t = (t + " " + "".join(rng.choice("ABCdef19 -") for _ in range(48)))[:rng.choice((46, 47, 48))]
    return t[:48 if rng.random() < 0.3 else 47].ljust(48, "\0")


def gen(bits, text=lambda rng, i: brand(rng)):
    def f(rng, i):
        s = Scenario()
        vs = rng.choice(NAMES) if rng.random() < 0.6 else rng.choice(("GenuineIntel", "AuthenticAMD"))
        if rng.random() < 0.05:
            vs = "Unknown CPU!"
        b, c, d = G.vendor_regs(vs)
        t = text(rng, i)
        ext = rng.choice((0x80000004, 0x80000008, 0x8000001D, 0x8000001F)) if rng.random() < 0.97 else rng.choice((0x80000000, 0x80000001, 0x80000003))
        raw = t.encode("latin-1")
        s.cpuid = [(0, None, 1, b, c, d), (1, None, 0x000006F0 | rng.getrandbits(4), 0, 0, 0), (0x80000000, None, ext, 0, 0, 0)]
        for k in range(3):
            s.cpuid.append((0x80000002 + k, None) + tuple(int.from_bytes(raw[16 * k + 4 * j:16 * k + 4 * j + 4], "little") for j in range(4)))
        s.meta = {"brand": t, "bits": bits, "ext": ext}
        n = rng.choice((1, 1, 2, 5))
        G.platform_files(rng, s, [(k, 3 * k) for k in range(n)], chunk=False)
        return s
    return f


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    e = s.meta
    vendor = M.vendor_of(M.Cpuid(s.cpuid), e["bits"])
    try:
        want = B.package_name(vendor, e["brand"] if e["ext"] >= 0x80000004 else "")
    except B.Unclear:
        return [], None
    for k in r["packages"]:
        if k[0] != want:
            return [("name", "brand string %r of %s gives package name %r, expected %r" % (e["brand"].rstrip("\0"), vendor, k[0], want))], None
    return [], (vendor, want)


def run(rep, tier):
    k = 1 if tier == "quick" else 60
    rep.run_parts([
        Part("x86-64", "x64", 12000 * k, gen(64), judge, batch=200),
        Part("word pairs", "x64", len(WORDS) ** 2 * (1 if tier == "quick" else 10), gen(64, pair), judge, batch=200),
        Part("x86", "x86", 6000 * k, gen(32), judge, batch=200),
    ])
    return rep.finish()
