"""Recordings made with the repository's scripts hold what the platform held."""
import copy
import hashlib
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile

from vlib import anygen as N, build, scenario as S
from vlib.core import crash_problem, rng_for

RULE = ("random systems, recorded with the real scripts: CPUID printed by tools/cpuid-dump and turned into a table by parse-x86-cpuid-dump.py; the "
        "files of ARM Linux by arm-linux-filesystem-dump.py, those and the properties of Android devices by android-device-dump.py with a stand-in "
        "for adb. The C source they write is compiled, its tables read back and given to the mock library. A case counts once per distinct recording")
ASSUMPTIONS = ["the scripts run under the installed Python 3", "at most 16 processors, the number arm-linux-filesystem-dump.py looks at",
               "no line break after a closing bracket in Android properties, and printable CPUID strings"]

TOOL_CPUID = 3
READER = """
#define CPUINFO_MOCK 1
#include <stdio.h>
#include <cpuinfo-mock.h>
%s
static void text(const char* s, size_t n) {
	putchar('"');
	for (size_t i = 0; i < n; i++)
		printf("%%02x", (unsigned char)s[i]);
	putchar('"');
}
int main(void) {
	const char* sep;
	printf("[");
%s
	printf("]\\n");
	return 0;
}
"""
SHOW = {
    "files": """	sep = "";
	printf("%s{\\"files\\":[");
	for (struct cpuinfo_mock_file* f = filesystem_%d; f->path; f++, sep = ",") {
		printf("%%s[\\"%%s\\",", sep, f->path);
		text(f->content, f->size);
		putchar(']');
	}
	printf("]}");
""",
    "props": """	sep = "";
	printf(",{\\"props\\":[");
	for (struct cpuinfo_mock_property* p = properties_%d; p->key; p++, sep = ",") {
		printf("%%s[", sep);
		text(p->key, strlen(p->key));
		putchar(',');
		text(p->value, strlen(p->value));
		putchar(']');
	}
	printf("]}");
""",
    "cpuid": """	sep = "";
	printf("%s{\\"cpuid\\":[");
	for (size_t i = 0; i < sizeof(cpuid_dump_%d) / sizeof(cpuid_dump_%d[0]); i++, sep = ",") {
		struct cpuinfo_mock_cpuid* c = &cpuid_dump_%d[i];
		printf("%%s[%%u,%%u,%%u,%%u,%%u,%%u]", sep, c->input_eax, c->input_ecx, c->eax, c->ebx, c->ecx, c->edx);
	}
	printf("]}");
""",
}


def script(name):
    return os.path.join(build.REPO, "scripts", name)


def host_tools(d):
    """the preloaded file redirection and the adb stand-in"""
    h = os.path.join(build.HARNESS, "host")
    build._run(["clang", "-O1", "-w", "-shared", "-fPIC", "-o", os.path.join(d, "redirect.so"), os.path.join(h, "redirect.c"), "-ldl"])
    os.makedirs(os.path.join(d, "bin"))
    build._run(["clang", "-O1", "-w", "-o", os.path.join(d, "bin", "adb"), os.path.join(h, "adb.c")])


class Failed(Exception):
    pass


def read_back(d, pers, headers, shows):
    """compiles the recordings and returns their tables"""
    inc = "".join('#define filesystem filesystem_%d\n#define properties properties_%d\n#define cpuid_dump cpuid_dump_%d\n#include "%s"\n'
                  '#undef filesystem\n#undef properties\n#undef cpuid_dump\n' % (k, k, k, h) for k, h in enumerate(headers))
    body = []
    for k, _ in enumerate(headers):
        for kind in shows:
            t = SHOW[kind]
            if kind == "props":
                body.append(t % k)
            elif kind == "cpuid":
                body.append(t % ("," if body else "", k, k, k))
            else:
                body.append(t % ("," if body else "", k))
    src = os.path.join(d, "reader.c")
    open(src, "w").write(READER % (inc, "".join(body)))
    p = build.PERSONALITIES[pers]
    cmd = ["clang", "-m%d" % p["bits"], "-O0", "-std=gnu99", "-w", "-fsanitize=address", "-include", os.path.join(build.HARNESS, "shim.h"),
           "-I" + os.path.join(build.REPO, "include")] + p["cflags"] + (["-I" + os.path.join(build.HARNESS, "android")] if p.get("android") else [])
    r = subprocess.run(cmd + [src, "-o", os.path.join(d, "reader")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Failed("the recording does not compile: %s" % r.stdout[-300:])
    r = subprocess.run([os.path.join(d, "reader")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=S.ENV)
    if r.returncode:
        raise Failed("reading the recorded tables fails: %s" % r.stderr.decode("latin-1")[:300])
    import json
    out = json.loads(r.stdout)
    per = len(shows)
    return [{k: v for e in out[i * per:(i + 1) * per] for k, v in e.items()} for i in range(len(headers))]


def run_script(args, cwd, env):
    r = subprocess.run([sys.executable] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise Failed("%s fails: %s" % (os.path.basename(args[0]), r.stderr.decode("latin-1")[-300:]))
    return r.stdout


def put(root, path, data):
    p = root + path
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)


def view(r):
    return {k: v for k, v in r.items() if k not in ("id", "ev", "out")}


# ---- generators -----------------------------------------------------------

def odd_bytes(rng, data):
    """lines no kernel interprets, with every kind of byte"""
    n = rng.choice((0, 1, 1, 3))
    lines = data.split(b"\n")
    for _ in range(n):
        junk = bytes(rng.choice((rng.getrandbits(8), 0, 0x22, 0x5C, 0x3F, 0x30, 0x41, 0xC3, 9, 13, 0x25)) for _ in range(rng.choice((3, 10, 60))))
        lines.insert(rng.randint(0, len(lines) - 1), b"Note\t\t: " + junk.replace(b"\n", b"\x01"))
    return b"\n".join(lines)


def gen_arm(rng, pers):
    while True:
        s = N.scenario(rng, pers, chunk=False)
        if max(s.meta["usable"]) < (16 if pers != "andr64" else 8):
            break
    s.regs["auxv_missing"] = 0
    if pers in ("arm64", "andr64"):
        s.regs["hwcap2"] = 0
    if "/proc/cpuinfo" in s.files:
        s.files["/proc/cpuinfo"][0] = odd_bytes(rng, s.files["/proc/cpuinfo"][0])
    for p in list(s.files):
        # no processors beyond those the script looks at
        m = re.match(r"/sys/devices/system/cpu/cpu(\d+)/", p)
        if m and int(m.group(1)) >= 16:
            del s.files[p]
    if pers == "andr64":
        s.file("/sys/devices/system/cpu/kernel_max", "7\n")
        s.file("/sys/class/kgsl/kgsl-3d0/gpu_model", "Adreno%d\n" % rng.randint(300, 700))
        if rng.random() < 0.5:
            s.file("/system/build.prop", "ro.x=\xe9\\\"%d\n# note\n" % rng.getrandbits(20))
    return s


def gen_x86(rng, pers):
    s = N.scenario(rng, pers, chunk=False)
    have = {e[0] for e in s.cpuid}
    # leaves 7 and up list their subleaves; 0xB and 4 come from the platform
    for leaf in (7, 0x14, 0x17, 0x24, 0x12):
        if leaf not in have:
            top = rng.choice((0, 1, 2, 11, 18, 31) if leaf in (7, 0x14) else (0, 1, 2))
            s.cpuid += [(leaf, k, top if k == 0 else rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32))
                        for k in range(top + 2)]
    if 0x80000002 not in have:
        t = bytes(rng.choice(b"AMD Intel Core 123(R)") for _ in range(rng.randint(0, 48))).ljust(48, b"\0")
        s.cpuid += [(0x80000002 + k, None) + tuple(int.from_bytes(t[16 * k + 4 * j:16 * k + 4 * j + 4], "little") for j in range(4))
                    for k in range(3)]
    return s


# ---- one batch of recordings -------------------------------------------------

def record_arm(d, pers, ss, tools):
    headers = []
    for k, s in enumerate(ss):
        cwd, root = os.path.join(d, "w%d" % k), os.path.join(d, "r%d" % k)
        for sub in ("test/cpuinfo", "test/mock", "test/dmesg", "test/build.prop", "scripts", "build/android/armeabi-v7a"):
            os.makedirs(os.path.join(cwd, sub))
        for p, f in s.files.items():
            put(root, p, f[0])
        env = {"PATH": os.path.join(tools, "bin") + ":" + S.ENV["PATH"], "LANG": "C", "VERIF_ROOT": root, "TMPDIR": cwd}
        if pers == "andr64":
            put(root, "/@getprop", b"".join(b"[%s]: [%s]\n" % (a.encode("latin-1"), b.encode("latin-1")) for a, b in s.meta["props"]))
            put(root, "/@dmesg", b"[0.0] Booting \xff\n")
            put(root, "/@cpuinfo-dump", s.meta["cpuinfo32"])
            open(os.path.join(cwd, "build/android/armeabi-v7a/cpuinfo-dump"), "w").close()
            shutil.copy(script("android-device-dump.py"), os.path.join(cwd, "scripts"))
            run_script([os.path.join(cwd, "scripts", "android-device-dump.py"), "-p", "dev"], cwd, env)
            headers.append(os.path.join(cwd, "test/mock/dev.h"))
        else:
            run_script([script("arm-linux-filesystem-dump.py"), "--prefix", "dev"], cwd,
                       dict(env, LD_PRELOAD=os.path.join(tools, "redirect.so")))
            headers.append(os.path.join(cwd, "test/dev.h"))
        log = os.path.join(cwd, "test/cpuinfo/dev.log")
        if not os.path.exists(log) or open(log, "rb").read() != s.files["/proc/cpuinfo"][0]:
            raise Failed("the copy of /proc/cpuinfo differs from the file")
    out = read_back(d, pers, headers, ["files", "props"] if pers == "andr64" else ["files"])
    if pers == "andr64":
        # the same recording as a 32-bit process sees it
        for o, p in zip(out, read_back(d, "andr32", headers, ["files"])):
            o["files32"] = p["files"]
    return out


def record_x86(d, pers, ss, texts):
    headers = []
    for k, text in enumerate(texts):
        p = os.path.join(d, "dump%d.log" % k)
        open(p, "w", encoding="latin-1").write(text)
        out = run_script([script("parse-x86-cpuid-dump.py"), p], d, {"PATH": S.ENV["PATH"], "LANG": "C"})
        headers.append(os.path.join(d, "dump%d.h" % k))
        open(headers[-1], "wb").write(out)
    return read_back(d, pers, headers, ["cpuid"])


def compare_files(s, rec):
    seen = {}
    for p, h in rec:
        if p in seen:
            return "%s is recorded twice" % p
        seen[p] = bytes.fromhex(h)
        if p not in s.files:
            return "%s is recorded but does not exist" % p
        if seen[p] != s.files[p][0]:
            return "%s is recorded as %r, contains %r" % (p, seen[p][:80], s.files[p][0][:80])
    if "/proc/cpuinfo" not in seen:
        return "/proc/cpuinfo is not recorded"
    return None


def batch(prop, name, pers, seed, lo, hi, exes, tools):
    """(evaluations, signatures, problems) of the cases lo..hi-1"""
    ss = []
    for i in range(lo, hi):
        rng = rng_for(prop, name, seed, i)
        s = gen_x86(rng, pers) if N.family(pers) == "x86" else gen_arm(rng, pers)
        s.meta["case"] = i
        if pers == "andr64":
            props = [tuple(p) for p in s.props] + [("ro.product.cpu.abi", "arm64-v8a")]
            props += [("note%d" % k, re.sub(r"\]\n+", "]", "".join(rng.choice("ab\\\"%0?7\xe9 []\n") for _ in range(rng.randint(0, 20))))) for k in range(3)]
            s.meta["props"] = props
            s.meta["cpuinfo32"] = s.files["/proc/cpuinfo"][0].replace(b"Note", b"Other")
        ss.append(s)
    d = tempfile.mkdtemp(prefix="rec-", dir=build.BUILD)
    problems, sigs = [], []
    try:
        plat = S.run_batch(exes[0], ss)
        try:
            if N.family(pers) == "x86":
                ts = []
                for s in ss:
                    t = copy.deepcopy(s)
                    t.opts, t.pre = S.OPT_TOOL | S.OPT_OUTPUT, TOOL_CPUID
                    ts.append(t)
                texts = [r.get("out", "") for r in S.run_batch(exes[2], ts)]
                recs = record_x86(d, pers, ss, texts)
            else:
                recs = record_arm(d, pers, ss, tools)
        except Failed as e:
            if len(ss) > 1:
                # find the case
                for i in range(lo, hi):
                    r = batch(prop, name, pers, seed, i, i + 1, exes, tools)
                    problems += r[2]
                return len(ss), [], problems or [(lo, "recording", str(e), [])]
            return 1, [], [(lo, "recording", str(e), ss)]
        replays = []
        for s, rec in zip(ss, recs):
            i = s.meta["case"]
            m = copy.deepcopy(s)
            bad = None
            if "cpuid" in rec:
                def answers(l, u):
                    for e in s.cpuid:
                        if e[0] == l and (e[1] is None or e[1] == u):
                            return tuple(e[2:])
                    return (0, 0, 0, 0)
                seen = set()
                for l, u, *regs in rec["cpuid"]:
                    if (l, u) in seen:
                        bad = "CPUID %08X subleaf %X is recorded twice" % (l, u)
                    seen.add((l, u))
                    if tuple(regs) != tuple(x & 0xFFFFFFFF for x in answers(l, u)):
                        bad = "CPUID %08X subleaf %X is recorded as %s, is %s" % (l, u, regs, answers(l, u))
                m.cpuid = [tuple(e) for e in rec["cpuid"]]
            else:
                bad = compare_files(s, rec["files"])
                m.files = {p: [bytes.fromhex(h), 0, 0, []] for p, h in rec["files"]}
                if "props" in rec:
                    got = [(bytes.fromhex(a).decode("latin-1"), bytes.fromhex(b).decode("latin-1")) for a, b in rec["props"]]
                    if got != s.meta["props"]:
                        bad = bad or "properties are recorded as %s, are %s" % (got[:5], s.meta["props"][:5])
                    m.props = [p for p in got if not p[0].startswith("note")]
                    c32 = dict(rec["files32"]).get("/proc/cpuinfo")
                    if c32 is None or bytes.fromhex(c32).rstrip().splitlines() != s.meta["cpuinfo32"].rstrip().splitlines():
                        bad = bad or "/proc/cpuinfo of a 32-bit process is recorded wrongly"
            if bad:
                problems.append((i, "recording", bad, [s]))
            replays.append(m)
        for s, a, b in zip(ss, plat, S.run_batch(exes[1], replays)):
            i = s.meta["case"]
            c = crash_problem(a) or crash_problem(b)
            if c:
                problems.append((i, c[0], c[1], [s]))
                continue
            va, vb = view(a), view(b)
            for k in sorted(set(va) | set(vb)):
                if va.get(k) != vb.get(k):
                    problems.append((i, "replay", "%s is %s on the platform, %s when its recording is replayed" % (
                        k, str(va.get(k))[:120], str(vb.get(k))[:120]), [s]))
                    break
        for rec in recs:
            sigs.append(hashlib.md5(repr(rec).encode()).digest()[:8])
        return len(ss), sigs, problems
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(rep, tier):
    k = 1 if tier == "quick" else 25
    os.makedirs(build.BUILD, exist_ok=True)
    tools = tempfile.mkdtemp(prefix="host-", dir=build.BUILD)
    try:
        host_tools(tools)
        for name, pers, n, b in (("cpuid", "x64", 320, 20), ("cpuid-32", "x86", 160, 20), ("files", "arm64", 240, 10), ("files-32", "arm32", 160, 10),
                                 ("android", "andr64", 24, 1)):
            n *= k
            exes = [build.build(pers), build.build(pers, mock=True)]
            if N.family(pers) == "x86":
                exes.append(build.build(pers, tools=["cpu-info", "cache-info", "isa-info", "cpuid-dump", "cpuinfo-dump"], tag="tools"))

            def body(w, ws):
                out = [0, [], []]
                for lo in range(w * b, n, ws * b):
                    r = batch(rep.prop, name, pers, rep.seed, lo, min(lo + b, n), exes, tools)
                    out[0] += r[0]
                    out[1] += r[1]
                    out[2] += r[2]
                return out
            evals, sigs, problems = 0, set(), []
            for e, s, p in S.parallel(8, body):
                evals += e
                sigs |= set(s)
                problems += p
            rep.add(name, evals, len(sigs), ["recordings %s" % x.hex() for x in sorted(sigs)[:2]] if sigs else [], {"build": pers})
            seen = set()
            for i, key, text, ss in sorted(problems, key=lambda x: x[:3]):
                if key in seen:
                    continue
                again = batch(rep.prop, name, pers, rep.seed, i, i + 1, exes, tools)[2]
                if not any(p[1] == key for p in again):
                    rep.errors.append("case %d of %s: %s: not reproduced" % (i, name, text))
                    continue
                seen.add(key)
                rep.violation(key, "%s: %s" % (name, text), {
                    "property": rep.prop, "part": name, "case": i, "seed": rep.seed, "key": key, "problem": text,
                    "build": {"personality": pers, "sanitizer": "asan", "log_level": 2}, "scenarios": [s.to_json() for s in ss]})
            if problems and not sigs:
                rep.errors = [e for e in rep.errors if not e.startswith("part %s observed" % name)]
    finally:
        shutil.rmtree(tools, ignore_errors=True)
    return rep.finish()
