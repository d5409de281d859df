#!/usr/bin/env python3
"""Random small changes of the library, each run against the checks responsible for the changed file.

mutate.py WORKDIR SEED COUNT [file substring...]
    WORKDIR holds scratch copies "repo" and "verif"; the results are appended to WORKDIR/result.txt and the
    changes nothing noticed are kept as WORKDIR/live-*.diff.
"""
import os, random, re, subprocess, sys, time
W, SEED, N = sys.argv[1], sys.argv[2], int(sys.argv[3])
ONLY = sys.argv[4:]
R, V = W + "/repo", W + "/verif"
MAP = [
    ("src/x86/windows/", "P31 P30 P05"), ("src/arm/windows/", "P32 P30 P05"), ("src/x86/mach/", "P27 P30 P05"), ("src/mach/", "P27 P28 P30"),
    ("src/x86/freebsd/", "P27 P30 P05"), ("src/freebsd/", "P27 P30"), ("src/arm/mach/", "P28 P30 P05"), ("src/emscripten/", "P29 P30 P05"),
    ("src/linux/mockfile.c", "P33"), ("src/x86/mockcpuid.c", "P33"), ("tools/auxv-dump.c", "P25"), ("tools/cpuid-dump.c", "P25 P34"),
    ("src/x86/topology.c", "P09 P08 P01"), ("src/x86/cache/", "P13 P12 P01"), ("src/x86/isa.c", "P14"), ("src/x86/uarch.c", "P17"),
    ("src/x86/vendor.c", "P17 P19"), ("src/x86/info.c", "P17 P13 P01"), ("src/x86/init.c", "P17 P13 P09 P14 P01"), ("src/x86/name.c", "P19 P01"),
    ("src/x86/linux/", "P09 P13 P08 P22 P05 P12 P07 P11 P19 P01"), ("src/arm/cache.c", "P21 P12"), ("src/arm/uarch.c", "P18 P26"),
    ("src/arm/linux/aarch64-isa.c", "P15"), ("src/arm/linux/aarch32-isa.c", "P16"), ("src/arm/linux/chipset.c", "P20 P26 P02"),
    ("src/arm/linux/clusters.c", "P26 P10 P02"), ("src/arm/linux/cpuinfo.c", "P22 P18 P16 P21 P10 P20 P02"), ("src/arm/linux/hwcap.c", "P15 P16 P05 P33"),
    ("src/arm/linux/init.c", "P10 P21 P08 P05 P18 P26 P11 P07 P12 P20 P02"), ("src/arm/linux/midr.c", "P26 P18 P02"),
    ("src/arm/android/", "P20"), ("src/arm/midr.h", "P18 P21 P26 P15"), ("src/linux/", "P08 P22 P10 P05 P01 P02 P33"),
    ("src/riscv/", "P23 P08 P05 P11 P02"), ("src/api.c", "P06 P11 P04 P03"), ("src/init.c", "P03 P04 P05 P35"), ("src/log.c", "P24"),
    ("include/cpuinfo.h", "P14 P15 P16 P23 P06 P17 P18 P28 P35"), ("deps/clog/src/clog.c", "P24"), ("tools/", "P25"), ("src/cache.c", "P21 P12 P13"),
]
SKIP = ("gpu-dump",)


def files():
    out = []
    for f in subprocess.check_output(["git", "-C", R, "ls-files", "src", "include", "deps/clog/src", "tools"], text=True).split():
        if f.endswith((".c", "midr.h", "cpuinfo.h")) and "/linux/cpuinfo.h" not in f and not any(s in f for s in SKIP) and (not ONLY or any(o in f for o in ONLY)):
            c = next((c for p, c in MAP if f.startswith(p)), None)
            if c:
                out.append((f, c.split()))
    return out


def code_lines(text):
    """numbers of lines with code, outside comments, logging and preprocessor lines"""
    out, block, log = [], False, 0
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if block:
            block = "*/" not in s
            continue
        if log:
            log += s.count("(") - s.count(")")
            continue
        if s.startswith("/*"):
            block = "*/" not in s
            continue
        if re.match(r"(cpuinfo_log_|clog_log_)", s):
            log = s.count("(") - s.count(")")
            continue
        if not s or s.startswith(("#", "//", "*", "}", "case CLOG", "static const", "CPUINFO_")):
            continue
        out.append(i)
    return out


def mutants(l):
    out = []
    if "restrict static" in l:
        return out
    code = l.split("//")[0]
    code = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group()), code)

    def sub(pat, rep):
        for m in re.finditer(pat, code):
            r = rep(m) if callable(rep) else rep
            if r is not None and r != m.group():
                out.append(l[:m.start()] + r + l[m.end():])
    sub(r" < ", " <= "), sub(r" <= ", " < "), sub(r" > ", " >= "), sub(r" >= ", " > "), sub(r" == ", " != "), sub(r" != ", " == ")
    sub(r" && ", " || "), sub(r" \|\| ", " && "), sub(r" \+ ", " - "), sub(r" - ", " + "), sub(r" << ", " >> "), sub(r" >> ", " << ")
    sub(r" \| ", " & "), sub(r" & ", " | "), sub(r" \+= ", " -= "), sub(r"(?<=[\w)\]])\+\+", ""), sub(r" \* ", " / ")
    sub(r"0x[0-9A-Fa-f]+", lambda m: "0x%0*X" % (len(m.group()) - 2, int(m.group(), 16) ^ (1 << RNG.randrange(max(1, int(m.group(), 16).bit_length())))))
    sub(r"(?<![\w.\"])\d+(?![\w.\"])", lambda m: str(int(m.group()) + RNG.choice((1, -1)) if int(m.group()) else 1))
    sub(r"\btrue\b", "false"), sub(r"\bfalse\b", "true"), sub(r"\bcontinue;", "break;")
    sub(r"^(\s*)(?:\} else )?if \((.*)\) \{$", lambda m: m.group().replace("if (" + m.group(2) + ") {", "if (!(" + m.group(2) + ")) {"))
    for a, b in (("l1i", "l1d"), ("min", "max"), ("start", "count"), ("core", "cluster"), ("cluster", "package"), ("l2", "l3")):
        sub(r"\b%s\b" % a, b), sub(r"\b%s\b" % b, a)
    if re.match(r"^\s+[\w>\[\].*-]+( [|&+-]?= .*|\(.*\)|\+\+);$", code) and not code.strip().startswith("return"):
        out.append(re.match(r"\s*", l).group() + ";")
    return out


RNG = random.Random(SEED)
log = open(W + "/result.txt", "a")
fs = files()
weights = []
texts = {}
for f, c in fs:
    texts[f] = open(os.path.join(R, f), newline="").read()
    weights.append(len(code_lines(texts[f])) ** 0.5)
done = 0
while done < N:
    f, checks = RNG.choices(fs, weights)[0]
    lines = texts[f].split("\n")
    i = RNG.choice(code_lines(texts[f]))
    ms = mutants(lines[i])
    if not ms:
        continue
    m = RNG.choice(ms)
    done += 1
    open(os.path.join(R, f), "w", newline="").write("\n".join(lines[:i] + [m] + lines[i + 1:]))
    t0 = time.time()
    status, by = "LIVE", ""
    try:
        for c in checks:
            r = subprocess.run([sys.executable, V + "/check.py", c, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_REPO=R), timeout=1500)
            if "VIOLATION" in r.stdout:
                status, by = "caught", c
                break
            if r.returncode:
                status, by = "nobuild" if "error:" in r.stdout else "BROKEN", c + " " + r.stdout[-300:].replace("\n", "|")
                break
    except subprocess.TimeoutExpired:
        status, by = "TIMEOUT", c
    diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    log.write("%s %s %s:%d %.0fs | %s | %s\n" % (status, by if status != "nobuild" else "", f, i + 1, time.time() - t0, lines[i].strip(), m.strip()))
    log.flush()
    if status not in ("caught", "nobuild"):
        open("%s/live-%s-%d.diff" % (W, SEED, done), "w").write(diff)
