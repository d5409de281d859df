"""Log messages arrive whole, once, on the right stream, and only at or above the chosen level."""
import os
import random
import struct
import subprocess

from vlib import build, scenario as S

RULE = ("messages of both logging interfaces at every level and threshold, with lengths of module name and text around every buffer boundary "
        "and at random, several formats, failing allocation, and several threads at once, as on Linux and on Windows, under ASan+UBSan; a case counts once per distinct "
        "(interface, level, threshold, format, module and total length, outcome)")
ASSUMPTIONS = ["messages and module names shorter than 40000 characters, whose formats are valid"]

CPUINFO = {1: b"Fatal error in cpuinfo: ", 2: b"Error in cpuinfo: ", 3: b"Warning in cpuinfo: ", 4: b"Note (cpuinfo): ", 5: b"Debug (cpuinfo): "}
CLOG = {1: (b"Fatal error: ", b"Fatal error in %s: "), 2: (b"Error: ", b"Error in %s: "), 3: (b"Warning: ", b"Warning in %s: "),
        4: (b"Note: ", b"Note (%s): "), 5: (b"Debug: ", b"Debug (%s): ")}
STREAM = {1: 2, 2: 2, 3: 2, 4: 1, 5: 1}


def prefix(c):
    if c["api"] == 0:
        return CPUINFO[c["level"]]
    none, some = CLOG[c["level"]]
    return none if c["module"] is None else some.replace(b"%s", c["module"])


def body(c):
    t, n, f = c["text"], c["number"], c["format"]
    if f == 0:
        return t
    if f == 1:
        return t if n < 0 else t[:n]
    if f == 2:
        return t + b"=%d" % n
    if f == 3:
        return b"%x|" + (b"%d" % n).rjust(7) + b"|" + t
    if f == 4:
        return b"plain text"
    return t + b" %08x mid %d " % (n & 0xFFFFFFFF, n) + t


def filler(rng, n):
    return bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz %\xe9") for _ in range(n)) if n < 3000 else rng.choice((b"x", b"%", b"yz")) * n


def case(rng, threshold, api, win=False):
    c = {"end": b"\r\n" if win and not api else b"\n", "api": api, "level": rng.randint(1, 5), "threshold": threshold, "format": rng.choice((0, 0, 0, 0, 1, 2, 3, 4, 5)),
         "number": rng.choice((0, 1, 5, -1, 1000, 1023, 1024, -2147483648, 2147483647)), "module": None, "fail": 0, "threads": 0}
    if api == 1:
        c["threshold"] = rng.choice((0, 1, 2, 3, 4, 5, 5, 5))
        r = rng.random()
        if r < 0.8:
            k = len(CLOG[c["level"]][1]) - 2
            n = rng.choice((0, 1, 4, 10, 1021 - k, 1022 - k, 1023 - k, 1024 - k, 1025 - k, 1026 - k, 2048, rng.randint(0, 1100)))
            if r < 0.5:
                n = rng.choice((1, 4, 7))
            c["module"] = filler(rng, n)
    r = rng.random()
    room = 1024 - len(prefix(c))
    c["text"] = b""
    fixed = len(body(c))
    n = rng.randint(0, 200)
    if r < 0.6:
        n = room - fixed + rng.randint(-6, 6)
        if c["format"] == 5:
            n //= 2
    elif r < 0.7:
        n = rng.choice((1023, 1024, 1025, 2047, 2048, 4096, 30000))
    c["text"] = filler(rng, max(0, n))
    if rng.random() < 0.1:
        c["fail"] = 1
    elif rng.random() < 0.08 and c["level"] != 1:
        c["threads"] = rng.randint(2, 6)
    return c


def encode(c):
    m = c["module"]
    return struct.pack("<IIIIIIiii", c["api"], c["level"], c["threshold"], c["format"], c["fail"], c["threads"], c["number"],
                       -1 if m is None else len(m), len(c["text"])) + (m or b"") + c["text"]


def run_cases(exe, cases):
    fd = os.memfd_create("in")
    with os.fdopen(fd, "wb+") as f:
        for c in cases:
            f.write(encode(c))
        f.flush()
        f.seek(0)
        p = subprocess.run([exe], stdin=f, stdout=subprocess.PIPE, env=S.ENV)
    if p.returncode:
        raise S.RunnerDied("log runner exited with status %d" % p.returncode)
    out, at, d = [], 0, p.stdout
    for c in cases:
        recs = []
        while True:
            k, n = struct.unpack_from("<II", d, at)
            at += 8
            if k == 0:
                out.append((recs, n) + struct.unpack_from("<IIII", d, at))
                at += 16
                break
            recs.append((k, d[at:at + n]))
            at += n
    return out


def judge(c, res):
    recs, status, allocs, frees, fails, returned = res
    line = prefix(c) + body(c) + c["end"]
    shown = c["level"] <= c["threshold"]
    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
    what = "%s, level %d of %d, %s, message of %d characters" % (
        "clog" if c["api"] else "cpuinfo", c["level"], c["threshold"],
        "no module" if c["module"] is None else "module of %d" % len(c["module"]), len(line))
    for k, b in recs:
        if b"Sanitizer" in b or b"runtime error" in b:
            return ("memory", "%s: %s" % (what, b[:300].decode("latin-1")))
    if c["level"] == 1:
        if returned or sig != 6:
            return ("fatal", "%s: the program was not stopped (signal %d)" % (what, sig))
    elif not returned or status:
        return ("crash", "%s: ended with status %#x" % (what, status))
    if allocs != frees:
        return ("leak", "%s: %d blocks allocated, %d freed" % (what, allocs, frees))
    want = [(STREAM[c["level"]], line)] * ((c["threads"] * 5 if c["threads"] else 1) if shown else 0)
    if recs != want:
        if fails and not recs:
            return None
        if len(recs) == len(want):
            k = next(i for i in range(len(recs)) if recs[i] != want[i])
            (a, x), (b, y) = recs[k], want[k]
            if a != b:
                return ("stream", "%s: written to stream %d, expected %d" % (what, a, b))
            j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
            return ("text", "%s: %d bytes written, differing at %d: %r instead of %r" % (what, len(x), j, x[max(0, j - 5):j + 5], y[max(0, j - 5):j + 5]))
        return ("records", "%s: %d separate writes instead of %d" % (what, len(recs), len(want)))
    return None


def exe_for(pers, level):
    r = build.REPO
    return build.build(pers, "asan", level, main="loghar.c", virtual=False, lib_sources=False,
                       extra_cflags=["-Dmalloc=vp_malloc", "-Dfree=vp_free", "-I" + os.path.join(r, "deps/clog/include"), "-DCLOG_VISIBILITY="],
                       extra_sources=[os.path.join(r, "src/log.c"), os.path.join(r, "deps/clog/src/clog.c")], tag="log")


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    for pers, level, api, count in [("x64", lv, 0, 1000) for lv in range(6)] + [
            ("x64", 5, 1, 6000), ("x86", 5, 0, 800), ("x86", 3, 1, 1500), ("win64", 5, 0, 800), ("win64", 3, 0, 400), ("win32", 5, 0, 400),
            ("win64", 5, 1, 1500), ("win32", 5, 1, 500)]:
        exe = exe_for(pers, level)
        win = pers.startswith("win")
        name = "%s %s%s" % ("clog" if api else "cpuinfo", pers, "" if api else " level %d" % level)
        total = count * k

        def work(w, ws):
            out = []
            ids = list(range(w, total, ws))
            for at in range(0, len(ids), 100):
                part = ids[at:at + 100]
                cs = [case(random.Random("P24/%s/%d/%d" % (name, rep.seed, i)), level, api, win) for i in part]
                for i, c, res in zip(part, cs, run_cases(exe, cs)):
                    bad = judge(c, res)
                    out.append((i, bad, (c["api"], c["level"], c["threshold"], c["format"], -1 if c["module"] is None else len(c["module"]),
                                         len(prefix(c)) + len(body(c)), len(res[0]), bool(res[4]))))
            return out
        rows = sorted(sum(S.parallel(total, work), []))
        rep.add(name, len(rows), len({r[2] for r in rows}), [repr(r[2]) for r in rows[:3]], {"build": pers + "/asan"})
        seen = set()
        for i, bad, _ in rows:
            if bad and bad[0] not in seen:
                c = case(random.Random("P24/%s/%d/%d" % (name, rep.seed, i)), level, api, win)
                if not judge(c, run_cases(exe, [c])[0]):
                    rep.errors.append("case %d of %s: %s: not reproduced" % (i, name, bad[1]))
                    continue
                seen.add(bad[0])
                rep.violation(bad[0], bad[1], {"property": "P24", "part": name, "case": i, "seed": rep.seed, "problem": bad[1],
                                               "command": {a: (b.decode("latin-1") if isinstance(b, bytes) else b) for a, b in c.items()}})
    return rep.finish()
