"""Exactly the usable processors are reported, each once."""
from vlib import anygen as N
from vlib.core import Part
from vlib.judge import ended

RULE = ("random systems of every architecture with random and differing lists of possible and present processors, processors listed in or "
        "missing from /proc/cpuinfo, limits on the processor number, and one list unreadable; a case counts once per distinct (sets of "
        "numbers offered, set reported)")
ASSUMPTIONS = []


def others(rng, ids, n, top):
    out = set()
    for _ in range(n):
        a = rng.randint(0, top)
        out |= set(range(a, a + rng.choice((1, 1, 2, 3, 9))))
    return out - set(ids)


def gen(pers):
    fam = N.family(pers)

    def f(rng, i):
        fam_, d, ids = N.base(rng, pers, partial=0.3)
        ids = set(ids)
        top = max(ids)
        n = rng.choice((0, 0, 1, 2, 5))
        # numbers that are possible but absent, and present but not possible
        a = others(rng, ids, n, top + rng.choice((0, 4, 40, 200)))
        b = others(rng, ids | a, rng.choice((0, 0, 0, 1, 2)), top + rng.choice((0, 4, 40)))
        possible, present = ids | a, ids | b
        kmax = None
        r = rng.random()
        if r < 0.15:
            kmax = False
        elif r < 0.35 and max(possible | present) > top:
            # the kernel's limit cuts the lists off
            kmax = rng.randint(top, max(possible | present))
            beyond = set(range(kmax + 1, max(possible | present) + 1))
            possible |= {x for x in beyond if rng.random() < 0.5}
            present |= {x for x in beyond if x in possible}
        else:
            kmax = max(possible | present) + rng.choice((0, 0, 1, 100))
        if kmax is False and max(possible | present) >= 1024:
            kmax = max(possible | present)
        lost = None
        r = rng.random()
        if r < 0.12:
            lost = "possible"
            # nothing but the present list then decides
            present = set(ids)
            possible = False
        elif r < 0.24 and fam != "riscv":
            lost = "present"
            if fam == "arm":
                possible = set(ids)
            present = False
        if fam == "riscv" and present is not False:
            present = set(ids) | ({x for x in present if kmax is not False and x > kmax} if kmax is not None else set())
        s = N.write(rng, fam_, d, present=present, possible=possible, kmax=kmax)
        s.meta["usable"] = sorted(ids)
        s.meta["lists"] = [possible if possible is False else sorted(possible), present if present is False else sorted(present), kmax]
        if fam == "x86":
            # numbers listed in /proc/cpuinfo that are not usable, and offline ones that are not listed
            cpus = list(d[1])
            free = [x for x in range(200000, 200100)]
            text = s.files["/proc/cpuinfo"]
            extra = []
            room = [] if lost == "present" else (a | b)
            if lost == "present" and possible is not False:
                room = set()
            for x in sorted(room):
                if rng.random() < 0.5:
                    extra.append((x, free.pop()))
            off = set()
            if rng.random() < 0.3 and len(cpus) > 1:
                off = {c[0] for c in cpus if rng.random() < 0.4}
                if len(off) == len(cpus):
                    off.pop()
            listed = sorted([c for c in cpus if c[0] not in off] + extra)
            from vlib import x86gen as X
            s.file("/proc/cpuinfo", X.proc_cpuinfo(rng, listed), chunks=text[3])
            s.meta["usable"] = sorted(ids - off)
        return s
    return f


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    have = [p[4] for p in r["procs"]]
    want = s.meta["usable"]
    out = []
    if sorted(have) != want:
        dup = sorted({x for x in have if have.count(x) > 1})
        out.append(("processors", "processors reported: extra %s, missing %s, repeated %s (possible %s, present %s, limit %s)" % (
            sorted(set(have) - set(want))[:8], sorted(set(want) - set(have))[:8], dup[:8], str(s.meta["lists"][0])[:60],
            str(s.meta["lists"][1])[:60], s.meta["lists"][2])))
    return out, (repr(s.meta["lists"]), tuple(want))


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    rep.run_parts([Part(p, p, n * k, gen(p), judge) for p, n in (
        ("x64", 2500), ("x86", 1000), ("arm64", 2500), ("arm32", 1200), ("andr32", 600), ("rv64", 1500), ("rv32", 500))])
    return rep.finish()
