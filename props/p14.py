"""x86: an instruction set is reported exactly when CPU and OS support it."""
from vlib import x86gen as G, x86model as M
from vlib.core import Part
from vlib.judge import ended
from vlib.scenario import Scenario

RULE = ("every feature bit of leaves 1, 7.0, 7.1, 0x80000001 and 0x80000008 set alone and cleared alone, every "
        "combination of XSAVE/OSXSAVE with every subset of the XCR0/leaf 0xD state components in use, all limits of "
        "the highest leaf, and random feature words; a case counts once per distinct set of reported instruction "
        "sets per vendor")
ASSUMPTIONS = ["CPUID and XGETBV are answered by the harness"]

REGS = [(1, 0, 2), (1, 0, 3), (7, 0, 1), (7, 0, 2), (7, 0, 3), (7, 1, 0), (7, 1, 1), (7, 1, 2), (7, 1, 3),
        (0x80000001, 0, 2), (0x80000001, 0, 3), (0x80000008, 0, 1), (0x24, 0, 1)]
WALK = [(k, b, inv) for inv in (0, 1) for k in range(len(REGS)) for b in range(32)]
BASES = (1, 2, 6, 7, 8, 0xC, 0xD, 0xE, 0x23, 0x24, 0x25)
EXTS = (0, 0x7FFFFFFF, 0x80000000, 0x80000001, 0x80000004, 0x80000007, 0x80000008, 0x8000001D)
COMPS = (1, 2, 3, 4, 5, 6, 7, 17, 18)
VS = ("GenuineIntel", "AuthenticAMD", "HygonGenuine", "CentaurHauls", "CyrixInstead", "Geode by NSC", "Unknown Corp")


def state_mask(bits):
    return 1 | sum(1 << c for k, c in enumerate(COMPS) if bits >> k & 1)


# SSE3 and SSSE3; on 64 bits also SSE4.1, SSE4.2, POPCNT and CMPXCHG16B
ABI = {32: 0x00000201, 64: 0x00982201}


def gen(bits, android=False):
    def g(rng, i):
        L = {(l, s): [0, 0, 0, 0] for l, s, _ in REGS}
        base, ext = 0x24, 0x8000001D
        vs = rng.choice(VS)
        xcr0 = valid = state_mask(0x1FF)
        xs = 3
        sig = rng.choice((0x50654, 0xF43, 0x100F42, 0x800F11))
        if i < len(WALK):
            k, b, inv = WALK[i]
            vs = VS[0] if rng.random() < 0.5 else rng.choice(VS)
            if inv:
                for l, s, r in REGS:
                    L[(l, s)][r] = M.M32
            l, s, r = REGS[k]
            L[(l, s)][r] ^= 1 << b
            if REGS[k] == (1, 0, 2) and b in (26, 27):
                xs = L[(1, 0)][2] >> 26 & 3
            kind = "walk"
        elif i < len(WALK) + 2 * 512 * 4:
            # OS state combinations over a CPU with everything
            j = i - len(WALK)
            for l, s, r in REGS:
                L[(l, s)][r] = M.M32
            xs = j & 3
            if j >> 11 & 1:
                valid = state_mask(j >> 2 & 0x1FF)
            else:
                xcr0 = state_mask(j >> 2 & 0x1FF)
            kind = "state"
        else:
            d = rng.random()
            for l, s, r in REGS:
                L[(l, s)][r] = (rng.getrandbits(32) if d < 0.5 else
                                rng.getrandbits(32) | rng.getrandbits(32) if d < 0.75 else
                                rng.getrandbits(32) & rng.getrandbits(32))
            L[(0x24, 0)][1] = rng.choice((0, 1, 2, 3, 255, rng.getrandbits(32)))
            xs = rng.choice((3, 3, 3, 0, 1, 2))
            if rng.random() < 0.5:
                xcr0 = state_mask(rng.getrandbits(9)) | rng.choice((0, 1 << 8, 1 << 9, 1 << 62))
            if rng.random() < 0.3:
                valid = state_mask(rng.getrandbits(9))
            if rng.random() < 0.4:
                base = rng.choice(BASES)
            if rng.random() < 0.4:
                ext = rng.choice(EXTS)
            if rng.random() < 0.1 and not android:
                vs, sig = "AuthenticAMD", 0x5A0 | rng.getrandbits(4)   # Geode
            kind = "random"
        L[(1, 0)][2] = L[(1, 0)][2] & ~(3 << 26) | xs << 26
        b_, c_, d_ = G.vendor_regs(vs)
        s = Scenario()
        leaf1 = L.pop((1, 0))
        if android:
            # what the system's binary interface demands of a processor
            base = max(base, 1)
            leaf1[2] |= ABI[bits]
            leaf1[3] |= 0x07808111
        leaf1[0], leaf1[1] = sig, leaf1[1] & ~0x00FF0000
        leaf1[2] &= ~(1 << 21) & M.M32    # no leaf 0xB
        s.cpuid = [(0, None, base, b_, c_, d_), (1, None, *leaf1),
                   (0x80000000, None, ext, b_, c_, d_),
                   (0xD, 0, valid & M.M32, rng.getrandbits(12), rng.getrandbits(12), valid >> 32),
                   (0xD, 1, rng.getrandbits(4), 0, 0, 0)]
        e1 = L.pop((0x80000001, 0))
        e1[2] &= ~(1 << 22) & M.M32       # no cache leaf 0x8000001D
        s.cpuid.append((0x80000001, None, *e1))
        s.cpuid.append((0x80000008, None, *L.pop((0x80000008, 0))))
        for (l, sub), v in L.items():
            if (l, sub) == (7, 0):
                v[0] = 1                  # highest subleaf of leaf 7
            s.cpuid.append((l, sub, *v))
        s.regs = {"xcr0": xcr0}
        s.meta = {"kind": kind, "bits": bits, "vs": vs, "geode": bits == 32 and vs == "AuthenticAMD" and sig >> 4 == 0x5A}
        G.platform_files(rng, s, [(0, 0)], chunk=False)
        return s
    return g


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    want = M.features(M.Cpuid(s.cpuid), s.regs["xcr0"], s.meta["bits"], s.meta["geode"])
    have = {x for x in r["isa"] if x.startswith("x86_")}
    alien = {x for x in r["isa"] if not x.startswith("x86_")}
    out = []
    if have - want:
        out.append(("isa", "reported without CPU or OS support: %s" % " ".join(sorted(have - want))))
    if want - have:
        out.append(("isa", "supported by CPU and OS but not reported: %s" % " ".join(sorted(want - have))))
    if alien:
        out.append(("isa", "instruction sets of another architecture reported: %s" % " ".join(sorted(alien))))
    return out[:1], (s.meta["vs"], tuple(sorted(have)))


def run(rep, tier):
    k = 1 if tier == "quick" else 50
    n = len(WALK) + 4096
    rep.run_parts([
        Part("x86-64", "x64", n + 5000 * k, gen(64), judge, batch=100),
        Part("x86", "x86", n + 5000 * k, gen(32), judge, san="plain", batch=100),
        Part("Android x86-64", "andrx64", n + 1000 * k, gen(64, True), judge, san="plain", batch=100),
        Part("Android x86", "andrx86", n + 1000 * k, gen(32, True), judge, san="plain", batch=100),
    ])
    return rep.finish()
