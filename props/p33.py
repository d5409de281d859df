"""The mock library, given a platform's files and registers, reports what the library reports on that platform."""
import copy
import errno
import os
import struct

from vlib import anygen as N, build, scenario as S
from vlib.core import Part, crash_problem

RULE = ("random systems and damaged ones; each is run on the virtual platform and again with the mock library, which gets the same files, CPUID "
        "table, hardware capabilities and Android properties through include/cpuinfo-mock.h; and random histories of open, read and close on the "
        "mock file system. A case counts once per distinct (state reported) or (history of results)")
ASSUMPTIONS = ["XGETBV, prctl and getcpu have no counterpart in the mock interface and come from the virtual platform in both runs",
               "on 64-bit ARM the mock interface offers no second capability word; it is 0"]


class Pair(Part):
    """odd-numbered scenarios run with the mock library"""

    def exe(self):
        return Part.exe(self), build.build(self.pers, self.san, self.log_level, mock=True)

    def execute(self, exe, ss):
        a = iter(S.run_batch(exe[0], [s for s in ss if not s.meta.get("mock")]))
        b = iter(S.run_batch(exe[1], [s for s in ss if s.meta.get("mock")]))
        return [next(b if s.meta.get("mock") else a) for s in ss]


def ascii4(rng):
    return int.from_bytes(bytes(rng.choice(b"  AIntelCorPuXe0123456789@.GHz") for _ in range(4)), "little")


def damage(rng, t):
    t = bytearray(t)
    for _ in range(rng.choice((1, 2, 6))):
        if t:
            k = rng.randrange(len(t))
            r = rng.random()
            if r < 0.4:
                t[k] = rng.choice(b"\n: \t,-0a9")
            elif r < 0.7:
                del t[k:k + rng.choice((1, 3, 60))]
            else:
                t[k:k] = rng.choice((b"\n", b":", b" ", b"5", b"\n\n", b"0-1,"))
    return bytes(t)


def gen(pers):
    def f(rng, i):
        s = N.scenario(rng, pers, chunk=False)
        if N.family(pers) == "x86":
            have = {(l, u) for l, u, *_ in s.cpuid}
            extra = [(7, u) + tuple(rng.getrandbits(32) for _ in range(4)) for u in (0, 1)]
            extra += [(0x80000002 + u, None) + tuple(ascii4(rng) for _ in range(4)) for u in range(3)]
            extra += [(l, None) + tuple(rng.getrandbits(32) for _ in range(4)) for l in (0x80000005, 0x80000006, 0x80000007)]
            s.cpuid += [e for e in extra if (e[0], e[1]) not in have and (e[0], None) not in have]
        elif pers in ("arm64", "andr64"):
            s.regs["hwcap2"] = 0
        s.regs["auxv_missing"] = 0
        s.meta["mode"] = mode = rng.choice(("whole", "whole", "damaged", "missing"))
        if mode == "damaged":
            for p in list(s.files):
                if rng.random() < 0.3 or p == "/proc/cpuinfo":
                    s.files[p][0] = damage(rng, s.files[p][0])
        elif mode == "missing":
            for p in rng.sample(sorted(s.files), min(len(s.files), rng.choice((1, 1, 3, 20)))):
                del s.files[p]
        m = copy.deepcopy(s)
        m.meta["mock"] = True
        return [s, m]
    return f


def judge(ss, rs):
    for r in rs:
        c = crash_problem(r)
        if c:
            return [c], None
    a, b = rs
    e = b.get("ev", {})
    out = []
    if e.get("open") or e.get("read") or e.get("cpuid"):
        out.append(("host", "the mock library looks at the machine it runs on: %d opens, %d reads, %d CPUID" % (
            e.get("open", 0), e.get("read", 0), e.get("cpuid", 0))))

    def view(r):
        return {k: v for k, v in r.items() if k not in ("id", "ev", "out")}
    va, vb = view(a), view(b)
    for k in sorted(set(va) | set(vb)):
        if va.get(k) != vb.get(k):
            out.append(("replay", "%s platform: %s is %s on the platform, %s in the mock library" % (
                ss[0].meta["mode"], k, str(va.get(k))[:150], str(vb.get(k))[:150])))
            break
    return out, (a["init"], repr(a.get("procs"))[:300], repr(a.get("caches"))[:200], repr(a.get("isa"))[:200])


# ---- the mock file system ------------------------------------------------

O_RDONLY, O_WRONLY, O_RDWR = os.O_RDONLY, os.O_WRONLY, os.O_RDWR


def gen_fs(rng, i):
    s = S.Scenario()
    n = rng.choice((1, 2, 3, 8, 40))
    names = ["/proc/cpuinfo", "/sys/devices/system/cpu/kernel_max"] + ["/sys/f%d" % k for k in range(n)] + ["/sys/f1/x", "/sys/f"]
    rng.shuffle(names)
    names = names[:max(1, n)]
    data = [bytes(rng.getrandbits(8) for _ in range(rng.choice((0, 0, 1, 2, 17, 64, 300, 5000)))) for _ in names]
    calls = []
    for _ in range(rng.choice((5, 30, 150))):
        r = rng.random()
        k = rng.randrange(len(names)) + 1 if rng.random() < 0.95 else 0xFFFFFFFF
        if r < 0.3:
            calls.append((0, k, O_RDONLY if rng.random() < 0.9 else rng.choice((O_WRONLY, O_RDWR))))
        elif r < 0.75:
            calls.append((1, k if rng.random() < 0.95 else rng.choice((len(names) + 1, 1000, 0x7FFFFFFF, 0xFFFFFFFF)),
                          rng.choice((0, 1, 2, 16, 63, 64, 300, 4096, 10000))))
        elif r < 0.98:
            calls.append((2, k if rng.random() < 0.95 else rng.choice((len(names) + 1, 1000, 0x7FFFFFFF, 0xFFFFFFFF)), 0))
        else:
            calls.append((3, 0, 0))
    s.file("/@calls", b"".join(struct.pack("<III", *c) for c in calls))
    for p, d in zip(names, data):
        s.file(p, d)
    s.opts = S.OPT_MOCKFS
    s.meta = {"mock": True, "calls": calls}
    return s


def fnv(b):
    h = 2166136261
    for c in b:
        h = ((h ^ c) * 16777619) & 0xFFFFFFFF
    return h


def judge_fs(ss, rs):
    s, r = ss[0], rs[0]
    c = crash_problem(r)
    if c:
        return [c], None
    data = [f[0] for f in s.files.values()]
    pos = {}          # file -> offset while open
    fd = {}           # file -> last descriptor it got
    for n, ((call, k, arg), (ret, err, h)) in enumerate(zip(s.meta["calls"], r["calls"])):
        def bad(what):
            return [("mockfs", "call %d, %s: returned %d, errno %d, %s" % (n, ("open", "read", "close", "install")[call], ret, err, what))], None
        if call == 3:
            pos.clear()
            continue
        if call == 0:
            if k >= len(data):
                if ret != -1 or err != errno.ENOENT:
                    return bad("expected ENOENT")
            elif arg != O_RDONLY:
                if ret != -1 or err != errno.EACCES:
                    return bad("expected EACCES for writing")
            elif k in pos:
                if ret != -1:
                    return bad("the file is already open")
            else:
                if ret < 0 or any(fd.get(o) == ret for o in pos):
                    return bad("expected a descriptor not in use")
                pos[k] = 0
                fd[k] = ret
            continue
        # a descriptor is usable while the file that got it is open
        target = fd.get(k, -1) if k < len(data) else struct.unpack("<i", struct.pack("<I", k))[0]
        owner = [o for o in pos if fd[o] == target]
        if not owner:
            if ret != -1 or err != errno.EBADF or (call == 1 and h != fnv(b"\xA5" * arg)):
                return bad("expected EBADF")
        elif call == 2:
            if ret != 0:
                return bad("expected 0")
            del pos[owner[0]]
        else:
            d = data[owner[0]][pos[owner[0]]:][:arg]
            if ret != len(d):
                return bad("expected %d bytes" % len(d))
            if h != fnv(d + b"\xA5" * (arg - len(d))):
                return bad("other bytes than the file's")
            pos[owner[0]] += len(d)
    return [], repr(r["calls"])[:400]


def run(rep, tier):
    k = 1 if tier == "quick" else 30
    parts = [Pair(p, p, n * k, gen(p), judge) for p, n in (
        ("x64", 700), ("x86", 400), ("arm64", 600), ("arm32", 600), ("andr32", 500), ("andr64", 400))]
    parts += [Part("files-" + p, p, n * k, gen_fs, judge_fs, exe_args={"mock": True}) for p, n in (("x64", 800), ("arm32", 400))]
    rep.run_parts(parts)
    return rep.finish()
