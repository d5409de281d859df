"""x86: vendor and microarchitecture follow the CPUID signature."""
import json
import os

from vlib import build, x86gen as G, x86model as M
from vlib.core import Part
from vlib.judge import ended
from vlib.scenario import Scenario

RULE = ("every (family, model) signature up to family 0x2F for Intel, AMD and Hygon, all known vendor strings and "
        "mutated ones, random steppings, types, extended families and processor counts; a case counts once per "
        "distinct (vendor string, signature without stepping) observed")
ASSUMPTIONS = ["the table golden/x86-uarch.json, reviewed against vendor documentation, is the reference for "
               "signature -> microarchitecture"]

_gold = None


def gold(bits):
    global _gold
    if _gold is None:
        j = json.load(open(os.path.join(build.VERIF, "golden/x86-uarch.json")))
        _gold = {int(b): {(M.VENDOR_STRINGS[v][0], f, m): u for v, f, u, ms in rows for m in ms} for b, rows in j.items()}
    return _gold[bits]


def all_sigs():
    out = []
    for vs in ("GenuineIntel", "AuthenticAMD", "HygonGenuine"):
        for f in range(0x30):
            for m in range(256 if f == 6 or f >= 15 else 16):
                if vs == "HygonGenuine" and f != 0x18 and m % 16:
                    continue
                out.append((vs, f, m))
    return out


SIGS = all_sigs()
NAMES = sorted(M.VENDOR_STRINGS)


def eax(f, m, rng):
    bf = min(f, 15)
    return rng.getrandbits(4) | (m & 15) << 4 | bf << 8 | rng.choice((0, 0, 0, 1, 2)) << 12 | (m >> 4) << 16 | (f - bf) << 20


def gen(bits):
    def g(rng, i):
        if i < len(SIGS):
            vs, f, m = SIGS[i]
        else:
            vs = rng.choice(NAMES)
            if rng.random() < 0.3:
                k = rng.randrange(12)
                vs = vs[:k] + chr(rng.choice((ord(vs[k]) ^ (1 << rng.randrange(7)), rng.randrange(32, 127)))) + vs[k + 1:]
            elif rng.random() < 0.1:
                # parts of two vendors' strings
                o = rng.choice(NAMES)
                vs = rng.choice((vs[:4] + o[4:], vs[:8] + o[8:], vs[:4] + o[4:8] + vs[8:]))
            f = rng.choice((5, 6, 15, 15 + rng.randrange(256), rng.randrange(16)))
            m = rng.randrange(256) if f == 6 or f >= 15 else rng.randrange(16)
        s = Scenario()
        b, c, d = G.vendor_regs(vs)
        sig = eax(f, m, rng)
        s.cpuid = [(0, None, rng.choice((1, 1, 2, 0xD)), b, c, d), (1, None, sig, 0, 0, 0)]
        n = rng.choice((1, 1, 1, 2, 5))
        cpus = [(k, k * rng.choice((1, 1, 2))) for k in range(1)] + [(k, 2 * k) for k in range(1, n)]
        s.meta = {"vs": vs, "f": f, "m": m, "eax": sig, "bits": bits}
        G.platform_files(rng, s, cpus, chunk=False)
        return s
    return g


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    V, U = M.enums_cached()
    e = s.meta
    name = M.vendor_of(M.Cpuid(s.cpuid), e["bits"])
    v = V[name]
    uname = gold(e["bits"]).get((name, e["f"], e["m"]), "unknown")
    u = U[uname]
    out = []
    twin = [n for n in V if n != name and V[n] == v] + [n for n in U if U[n] == u and n != uname and {n, uname} != {"sky_lake", "kaby_lake"}]
    if twin:
        out.append(("number", "%s and %s cannot be told from %s: same number" % (name, uname, twin[0])))
    want = [v, u, e["eax"]]
    what = "vendor string %r family %#x model %#x" % (e["vs"], e["f"], e["m"])
    for c in r["cores"]:
        if c[5:8] != want:
            out.append(("identity", "%s: a core reports [vendor, uarch, cpuid] %r, expected %r" % (what, c[5:8], want)))
            break
    for c in r["clusters"]:
        if c[6:9] != want:
            out.append(("identity", "%s: a cluster reports %r, expected %r" % (what, c[6:9], want)))
            break
    if r["uarchs"] != [[u, e["eax"], len(r["procs"]), len(r["cores"])]]:
        out.append(("identity", "%s: the microarchitecture list is %r" % (what, r["uarchs"])))
    return out[:1], (e["vs"], e["f"], e["m"])


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([
        Part("x86-64", "x64", len(SIGS) + 4000 * k, gen(64), judge, san="plain", batch=200),
        Part("x86", "x86", len(SIGS) + 4000 * k, gen(32), judge, san="plain", batch=200),
    ])
    return rep.finish()
