"""x86: cache geometry is what CPUID describes."""
from vlib import x86gen as G, x86model as M
from vlib.core import Part
from vlib.judge import ended, LV

RULE = ("random well-formed x86 systems with leaf 4, leaf 0x8000001D and leaf 2 cache descriptions, and every leaf 2 "
        "descriptor in every byte position and context; a case counts once per distinct set of cache geometries, "
        "sharing and maximum size observed")
ASSUMPTIONS = ["CPUID is answered by the harness, the same on every processor", "subleaf lists terminate", "leaf 2 gives all descriptors in one answer, as the manuals say of every processor"]


def gen(bits):
    def f(rng, i):
        s, cpus = G.gen_platform(rng, bits)
        G.platform_files(rng, s, cpus, chunk=False)
        return s
    return f


VEND = ("GenuineIntel", "GenuineIntel", "CyrixInstead", "Geode by NSC", "AuthenticAMD", "CentaurHauls")


def gen_desc(bits):
    """leaf 2 only: descriptor sets, single and combined"""
    def f(rng, i):
        s, cpus = G.gen_platform(rng, bits, topo="nohtt", with_caches=False)
        cpus = cpus[:rng.choice((1, 2, 4))]
        s.meta["cpus"] = cpus
        vs = VEND[(i // (256 * 15)) % len(VEND)] if i < 256 * 15 else rng.choice(VEND)
        regs = [0x01, 0, 0, 0]
        pos = 1 + (i // 256) % 15
        def put(p, d):
            regs[p // 4] |= d << (8 * (p % 4))
        if i < 256 * 15:
            # position x descriptor, alone; a descriptor >= 0x80 in the top byte marks the register reserved
            put(pos, i % 256)
        else:
            for p in range(1, 16):
                if rng.random() < 0.35:
                    put(p, rng.getrandbits(8) & (0x7F if p % 4 == 3 else 0xFF))
            if rng.random() < 0.2:
                regs[rng.randrange(4)] |= 1 << 31
            if rng.random() < 0.05:
                regs[0] &= ~0xFF
        b, c, d = G.vendor_regs(vs)
        base = rng.choice((2, 2, 3, 4, 0xD))
        sig = rng.choice((0x0F62, 0x0F64, 0x0F43, 0x6FB, 0x106A5, 0x0F68, 0x2F0F60, 0x670, 0x520))
        cp = [e for e in s.cpuid if e[0] not in (0, 1, 2, 4, 0xB, 0x8000001D, 0x80000001)]
        cp += [(0, None, base, b, c, d), (1, None, sig, 0, 0, 0), (2, None, *regs), (0x80000001, None, 0, 0, 0, 0)]
        if base >= 4 and rng.random() < 0.5:
            cp.append((4, 0) + G.cache_leaf(rng, rng.choice((1, 2, 3)), rng.randint(1, 4), 0))
        s.cpuid = cp
        s.meta["kind"] = "leaf2"
        G.platform_files(rng, s, cpus, chunk=False)
        return s
    return f


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    x = M.expect(M.Cpuid(s.cpuid), s.regs["xcr0"], s.meta["bits"], s.meta["cpus"])
    out = []
    for lv in range(5):
        a, b = r["caches"][lv], x["caches"][lv]
        if a != b:
            k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), None)
            out.append(("cache", "%s: %s, expected %s [size, ways, sets, partitions, line, flags, first processor, count]" % (
                LV[lv], a[k] if k is not None else "%d caches" % len(a), b[k] if k is not None else "%d" % len(b))))
        elif [p[6 + lv] for p in r["procs"]] != [p[6 + lv] for p in x["procs"]]:
            out.append(("cache", "%s: processors refer to %r, expected %r" % (
                LV[lv], [p[6 + lv] for p in r["procs"]][:16], [p[6 + lv] for p in x["procs"]][:16])))
    if r["maxcache"] != x["maxcache"]:
        out.append(("maxcache", "maximum cache size %d, expected %d" % (r["maxcache"], x["maxcache"])))
    sig = None
    if any(r["caches"]):
        sig = (r["caches"], r["maxcache"])
    return out[:1], sig


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([
        Part("x86-64 leaves", "x64", 3000 * k, gen(64), judge),
        Part("x86 leaves", "x86", 1500 * k, gen(32), judge),
        Part("x86-64 descriptors", "x64", 256 * 15 + 2500 * k, gen_desc(64), judge),
        Part("x86 descriptors", "x86", 256 * 15 + 1500 * k, gen_desc(32), judge, san="plain"),
    ])
    return rep.finish()
