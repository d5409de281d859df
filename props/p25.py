"""The command-line tools print what the library reports and what the platform holds."""
import copy
import json
import os
import re

from vlib import anygen as N, build, x86gen as X, x86model as M
from vlib.core import Part, crash_problem
from vlib.judge import ended
from vlib.scenario import OPT_OUTPUT, OPT_TOOL

RULE = ("random systems of every architecture; the output of cpu-info, cache-info and isa-info is compared with the library's answers on the same "
        "system, that of cpuid-dump with the CPUID answers and that of cpuinfo-dump with the file; a case counts once per distinct output")
ASSUMPTIONS = ["golden/tool-names.json, reviewed, gives the displayed names of vendors, microarchitectures and instruction sets"]
TOOLS = ("cpu-info", "cache-info", "isa-info", "cpuid-dump", "cpuinfo-dump", "auxv-dump")

_gold = None


def gold():
    global _gold
    if _gold is None:
        _gold = json.load(open(os.path.join(build.VERIF, "golden/tool-names.json")))
        V, U = M.enums_cached()
        _gold["v"] = {V[k]: s for k, s in _gold["vendor"].items() if k in V}
        _gold["u"] = {U[k]: s for k, s in _gold["uarch"].items() if k in U}
    return _gold


def who(vendor, uarch):
    """what is accepted as the display of a core's vendor and microarchitecture"""
    g = gold()
    v, u = g["v"].get(vendor), g["u"].get(uarch)
    if v is not None and u is not None:
        return re.escape("%s %s" % (v, u))
    # names may still be missing for some: the number is shown, or a name given to nothing else
    return "(?:vendor 0x%08x|%s) (?:uarch 0x%08x|%s)" % (
        vendor, re.escape(v) if v else "[^,]+", uarch, re.escape(u) if u else "(?!(?:%s)$)[^,]+" % "|".join(map(re.escape, g["u"].values())))


def span(what, start, count):
    return "1 %s (%d)" % (what, start) if count == 1 else "%d %ss (%d-%d)" % (count, what, start, start + count - 1)


def cpu_info(r, pers):
    """list of patterns, one per line"""
    E = re.escape
    g = gold()
    out = []
    if pers.startswith("andr"):
        out.append(E("SoC name: " + r["packages"][0][0]))
    else:
        out.append("Packages:")
        out += [E("\t%d: %s" % (i, k[0])) for i, k in enumerate(r["packages"])]
    out.append("Microarchitectures:")
    for u in r["uarchs"]:
        n = g["u"].get(u[0])
        out.append(E("\t%dx %s" % (u[3], n)) if n else E("\t%dx " % u[3]) + "(?:Unknown \\(0x%08x\\)|(?!Unknown).+)" % u[0])
    out.append("Cores:")
    for i, c in enumerate(r["cores"]):
        out.append(E("\t%d: %s, " % (i, span("processor", c[0], c[1]))) + who(c[5], c[6]))
    out.append("Clusters:")
    for i, c in enumerate(r["clusters"]):
        out.append(E("\t%d: %s,\t%d: %s, " % (i, span("processor", c[0], c[1]), i, span("core", c[2], c[3]))) + who(c[6], c[7]))
    out.append(E("Logical processors (System ID):"))
    for i, p in enumerate(r["procs"]):
        out.append(E("\t%d (%d)" % (i, p[4]) + (": APIC ID 0x%08x" % p[5] if N.family(pers) == "x86" else "")))
    return out


def cache_line(arr, level, kind):
    size, ways, sets, parts, line, flags, _, cnt = arr[0]
    t = "L%d %s cache: " % (level, "unified" if flags & 1 else kind)
    if len(arr) != 1:
        t += "%d x " % len(arr)
    t += "%d MB" % (size >> 20) if size % (1 << 20) == 0 else "%d KB" % (size >> 10) if size % 1024 == 0 else "%d bytes" % size
    t += ", " if level == 1 else " (%s), " % ("inclusive" if flags & 2 else "exclusive")
    t += "fully associative" if ways * line == size else "%d-way set associative" % ways
    if sets:
        t += " (%d sets%s%s), " % (sets, ", %d partitions" % parts if parts != 1 else "", ", complex indexing" if flags & 4 else "")
    return t + "%d byte lines, shared by %d processors" % (line, cnt)


def cache_info(r):
    C = r["caches"]
    out = ["Max cache size (upper bound): %d bytes" % r["maxcache"]]
    if C[0] and not C[0][0][5] & 1:
        out.append(cache_line(C[0], 1, "instruction"))
    for k, lv in ((1, 1), (2, 2), (3, 3), (4, 4)):
        if C[k]:
            out.append(cache_line(C[k], lv, "data"))
    return out


def isa_problem(r, pers, lines):
    want = {"x86": "x86_", "arm": "arm_", "riscv": "riscv_"}[N.family(pers)]
    have = set(r["isa"])
    labels = {}
    for l, a in gold()["isa"]:
        if a.startswith(want):
            labels.setdefault(l, a)
    seen = 0
    for l in lines:
        m = re.fullmatch(r"\t(.*): (yes|no)", l)
        if m and m.group(1) in labels:
            seen += 1
            if (m.group(2) == "yes") != (labels[m.group(1)] in have):
                return "isa-info prints %r, the library's answer for %s is %s" % (l, labels[m.group(1)], labels[m.group(1)] in have)
        m = re.fullmatch(r"\tSVE max length: (\d+)", l)
        if m:
            seen += 1
            if int(m.group(1)) != r["sve"]:
                return "isa-info prints SVE length %s, the library says %d" % (m.group(1), r["sve"])
    least = {"x64": 80, "x86": 80, "arm64": 19, "andr64": 19, "arm32": 30, "andr32": 30, "rv64": 7, "rv32": 7}[pers]
    if seen < least:
        return "isa-info prints only %d of at least %d instruction sets" % (seen, least)
    return None


def cpuid_dump(s):
    cp = M.Cpuid(s.cpuid)
    out = []

    def txt(regs):
        b = b"".join(x.to_bytes(4, "little") for x in regs)
        return b.split(b"\0")[0].decode("latin-1")

    def row(leaf, sub=None, tail=""):
        r = cp(leaf, sub or 0)
        out.append("CPUID %08X: %08X-%08X-%08X-%08X%s" % ((leaf,) + tuple(r) + (" [SL %02X]" % sub if sub is not None else tail,)))

    def vendor(leaf):
        a, b, c, d = cp(leaf, 0)
        row(leaf, None, " [%s]" % txt((b, d, c)) if b | c | d else "")
    sgx = False
    for leaf in range(cp(0, 0)[0] + 1):
        if leaf == 0:
            vendor(0)
        elif leaf in (4, 0xB) or leaf == 0x12 and sgx:
            for k in range(1000):
                r = cp(leaf, k)
                if leaf == 4 and not r[0] & 31 or leaf == 0xB and not r[2] & 0xFF00 or leaf == 0x12 and k >= 2 and not r[0] & 15:
                    break
                row(leaf, k)
        elif leaf == 0x12:
            pass
        elif leaf in (7, 0x14, 0x17, 0x24):
            top = cp(leaf, 0)[0]
            if leaf == 7:
                sgx = bool(cp(7, 0)[1] & 4)
            for k in range(top + 1):
                row(leaf, k)
        else:
            row(leaf)
    for leaf in range(0x80000000, cp(0x80000000, 0)[0] + 1):
        if leaf == 0x80000000:
            vendor(leaf)
        elif leaf <= 0x80000004 and leaf >= 0x80000002:
            row(leaf, None, " [%s]" % txt(cp(leaf, 0)))
        elif leaf == 0x8000001D:
            for k in range(1000):
                if not cp(leaf, k)[0] & 31:
                    break
                row(leaf, k)
        else:
            row(leaf)
    return out


def gen(pers):
    x86 = N.family(pers) == "x86"

    def f(rng, i):
        s = N.scenario(rng, pers)
        if x86:
            have = {e[0] for e in s.cpuid}
            for leaf in (7, 0x14, 0x17, 0x24, 0x12):
                if leaf not in have:
                    top = rng.choice((0, 0, 1, 2))
                    s.cpuid += [(leaf, k, top if k == 0 else rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32))
                                for k in range(4)]
                else:
                    # keep the lists short
                    s.cpuid = [(e[0], e[1], e[2] & 1 if e[0] == leaf and e[1] in (None, 0) and leaf != 0x12 else e[2]) + tuple(e[3:]) for e in s.cpuid]
            if rng.random() < 0.3:
                s.cpuid = [(e[0], e[1], rng.choice((0x14, 0x17, 0x23, 0x24, 0x24, 0x26))) + tuple(e[3:]) if e[0] == 0 else e for e in s.cpuid]
            if not 0x80000002 in have:
                t = bytes(rng.choice(b"AMD Intel Core 123(R)") for _ in range(rng.randint(0, 48))).ljust(48, b"\0")
                s.cpuid += [(0x80000002 + k, None) + tuple(int.from_bytes(t[16 * k + 4 * j:16 * k + 4 * j + 4], "little") for j in range(4)) for k in range(3)]
        out = [s]
        for k, t in enumerate(TOOLS):
            if t == "cpuid-dump" and not x86 or t == "cpuinfo-dump" and "/proc/cpuinfo" not in s.files:
                continue
            if t == "auxv-dump" and (N.family(pers) != "arm" or s.regs.get("auxv_missing")):
                continue
            v = copy.deepcopy(s)
            v.opts = OPT_TOOL | OPT_OUTPUT
            v.pre = k
            out.append(v)
        return out
    return f


def differ(name, got, want, exact):
    for i in range(max(len(got), len(want))):
        a = got[i] if i < len(got) else None
        b = want[i] if i < len(want) else None
        if a is None or b is None or (a != b if exact else not re.fullmatch(b, a)):
            return "%s line %d: %r, expected %r" % (name, i + 1, a, b)
    return None


def judge_for(pers):
    def judge(ss, rs):
        bad = ended(rs[0])
        if bad:
            return bad, None
        r = rs[0]
        sig = []
        for s, t in zip(ss[1:], rs[1:]):
            c = crash_problem(t)
            if c:
                return [(c[0], "%s: %s" % (TOOLS[s.pre], c[1]))], None
            name, text = TOOLS[s.pre], t["out"]
            lines = text.split("\n")
            if name == "cpuinfo-dump":
                want = s.files["/proc/cpuinfo"][0].decode("latin-1")
                if text != want[-65536:]:
                    return [("dump", "cpuinfo-dump prints %d characters that are not the %d of the file" % (len(text), len(want)))], None
                continue
            if len(text) > 65000:
                continue
            if lines.pop() != "":
                return [("lines", "%s does not end its last line" % name)], None
            if name == "cpu-info":
                p = differ(name, lines, cpu_info(r, pers), False)
            elif name == "cache-info":
                p = differ(name, lines, cache_info(r), True)
            elif name == "isa-info":
                p = isa_problem(r, pers, lines)
            elif name == "auxv-dump":
                word = (1 << N.BITS[pers]) - 1
                want = ["AT_HWCAP = 0x%08X" % (s.regs.get("hwcap", 0) & word)]
                if N.BITS[pers] == 32:
                    want.append("AT_HWCAP2 = 0x%08X" % (s.regs.get("hwcap2", 0) & word))
                p = differ(name, lines, want, True)
            else:
                p = differ(name, lines, cpuid_dump(s), True)
            if p:
                return [(name, p)], None
            sig.append(text)
        return [], hash(tuple(sig))
    return judge


def run(rep, tier):
    k = 1 if tier == "quick" else 30
    parts = []
    for p, n in (("x64", 500), ("x86", 300), ("arm64", 400), ("arm32", 400), ("andr64", 150), ("rv64", 300)):
        tools = [t for t in TOOLS if not (t == "cpuid-dump" and N.family(p) != "x86" or t == "auxv-dump" and N.family(p) != "arm")]
        parts.append(Part(p, p, n * k, gen(p), judge_for(p), batch=20, exe_args={"tools": tools, "tag": "tools"}))
    rep.run_parts(parts)
    return rep.finish()
