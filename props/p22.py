"""The answer depends on the contents of the kernel's files, not on how they arrive."""
import copy

from vlib import anygen as N
from vlib.core import Part
from vlib.judge import ended

RULE = ("random systems of every architecture; each is read in one piece and again with its files cut into pieces at other places, and with "
        "extra lines of 1 to 9000 characters in /proc/cpuinfo; small files and processor lists whose reading fails midway are compared with "
        "missing ones; a case counts once per distinct (pieces, lines added, state reported)")
ASSUMPTIONS = []

CUTS = (1, 2, 3, 5, 7, 16, 31, 63, 64, 65, 100, 127, 255, 256, 257, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096)


def damage(rng, text):
    """harmless or harmful edits; both readings have to agree on them"""
    t = bytearray(text)
    for _ in range(rng.choice((1, 1, 2, 5))):
        if not t:
            break
        k = rng.randrange(len(t))
        r = rng.random()
        if r < 0.4:
            t[k] = rng.choice(b"\n\n: \t,-0a9")
        elif r < 0.7:
            del t[k:k + rng.choice((1, 1, 2, 40))]
        else:
            t[k:k] = rng.choice((b"\n", b":", b" ", b"\t", b",", b"7", b"\n\n", b"0-1,"))
    return bytes(t)


def pieces(rng):
    r = rng.random()
    if r < 0.2:
        return [1]
    if r < 0.5:
        return [rng.choice(CUTS)]
    return [rng.choice(CUTS) for _ in range(rng.randint(2, 20))]


def long_line(rng):
    n = rng.choice((900, 1015, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 3000, 4096, 6000, 9000, rng.randint(900, 9000)))
    key = rng.choice(("flags\t\t: ", "bugs\t\t: ", "vmx flags\t: ", "Custom\t: ", ""))
    body = ""
    while len(body) < n:
        body += rng.choice(("fpu ", "sse4_2 ", "tsc_known_freq ", "x", "avx512_vpopcntdq ", " "))
    return (key + body)[:n] if key else "x" * n


def gen(pers):
    def f(rng, i):
        s = N.scenario(rng, pers, chunk=False)
        mode = rng.choice(("valid", "valid", "damaged", "long", "long")) if N.family(pers) != "riscv" else rng.choice(("valid", "damaged"))
        if mode == "damaged":
            for p in list(s.files):
                if rng.random() < 0.3 or p == "/proc/cpuinfo":
                    s.files[p][0] = damage(rng, s.files[p][0])
        out = [s]
        for _ in range(2):
            v = copy.deepcopy(s)
            for p in v.files:
                v.files[p][3] = pieces(rng)
            if mode == "long":
                lines = v.files["/proc/cpuinfo"][0].split(b"\n")
                for _ in range(rng.choice((1, 1, 2, 4))):
                    # not after the last newline, where an unterminated line would be glued on
                    lines.insert(rng.randint(0, len(lines) - 1), long_line(rng).encode())
                v.files["/proc/cpuinfo"][0] = b"\n".join(lines)
                if rng.random() < 0.5:
                    v.files["/proc/cpuinfo"][3] = []
            out.append(v)
        s.meta["mode"] = mode
        return out
    return f


def gen_cut(pers):
    """files of one number and processor lists that cannot be read to their end"""
    def f(rng, i):
        s = N.scenario(rng, pers, chunk=False)
        small = [p for p in s.files if p.endswith(("_freq", "_id", "kernel_max", "possible", "present"))]
        for p in list(small):
            if rng.random() < 0.5:
                small.remove(p)
        out = [s]
        for k in range(2):
            v = copy.deepcopy(s)
            for p in small:
                v.files[p][1:3] = [2, rng.randint(0, len(v.files[p][0]))] if k else [1, 2]
                v.files[p][3] = pieces(rng)
            out.append(v)
        s.meta["mode"] = "cut"
        return out[1:] if small else [s, s]
    return f


def judge_cut(ss, rs):
    def view(r):
        return {k: v for k, v in r.items() if k not in ("id", "ev", "out")}
    for r in rs:
        bad = [b for b in ended(r) if b[0] != "init-failed"]
        if bad:
            return bad, None
    a, b = view(rs[0]), view(rs[1])
    if a != b:
        d = [x for x in a if a.get(x) != b.get(x)]
        return [("cut", "files that cannot be read to their end are not treated as missing: %s is %s instead of %s" % (
            d[:1], str(b.get(d[0]))[:100] if d else "", str(a.get(d[0]))[:100] if d else ""))], None
    return [], ("cut", repr(a.get("procs"))[:200], a["init"])


def judge(ss, rs):
    for r in rs:
        bad = [b for b in ended(r) if ss[0].meta["mode"] != "damaged" or b[0] != "init-failed"]
        if bad:
            return bad, None

    def view(r):
        return {k: v for k, v in r.items() if k not in ("id", "ev", "out")}
    a = view(rs[0])
    for k, r in enumerate(rs[1:]):
        b = view(r)
        if a != b:
            d = [x for x in a if a.get(x) != b.get(x)]
            return [("reading", "%s: the answer changes with the way the files are read: %s is %s or %s" % (
                ss[0].meta["mode"], d[:1], str(a.get(d[0]))[:100] if d else "", str(b.get(d[0]))[:100] if d else ""))], None
    return [], (ss[0].meta["mode"], repr([v[3] for v in ss[1].files.values()][:3]), repr(rs[0].get("procs"))[:200], rs[0]["init"])


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([Part(p, p, n * k, gen(p), judge) for p, n in (
        ("x64", 1200), ("x86", 500), ("arm64", 1200), ("arm32", 900), ("andr32", 300), ("rv64", 600))]
        + [Part("cut " + p, p, n * k, gen_cut(p), judge_cut) for p, n in (("x64", 100), ("arm64", 400), ("arm32", 300), ("rv64", 200))])
    return rep.finish()
