"""Builds instrumented runners from /repo's working tree.

A build is identified by the contents of every source it uses and its flags, so
a changed tree is always rebuilt and an unchanged one never is.
"""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

WRAPS = ("malloc calloc realloc free open open64 openat read pread close fopen getauxval prctl syscall "
         "sched_getcpu dlopen dlsym dlclose").split()

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer"],
    "msan": ["-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}

PERSONALITIES = {
    "x64": dict(bits=64, arch="x86", cflags=["-DVERIF_HOST64=1"]),
    "x86": dict(bits=32, arch="x86", cflags=[]),
    "arm64": dict(bits=64, arch="arm64", cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_ARM64=1"]),
    "arm32": dict(bits=32, arch="arm32", cflags=["-DVERIF_AS_ARM=1"]),
    "andr64": dict(bits=64, arch="arm64", android=True,
                   cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_ARM64=1", "-D__ANDROID__=1"]),
    "andr32": dict(bits=32, arch="arm32", android=True, cflags=["-DVERIF_AS_ARM=1", "-D__ANDROID__=1"]),
    "rv64": dict(bits=64, arch="riscv", cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_RISCV64=1"]),
    "rv32": dict(bits=32, arch="riscv", cflags=["-DVERIF_AS_RISCV32=1"]),
    "fbsd64": dict(bits=64, arch="x86", os="freebsd", cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_FREEBSD=1"]),
    "fbsd32": dict(bits=32, arch="x86", os="freebsd", cflags=["-DVERIF_AS_FREEBSD=1"]),
    "mac64": dict(bits=64, arch="x86", os="mach", cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_APPLE=1"]),
    "mac32": dict(bits=32, arch="x86", os="mach", cflags=["-DVERIF_AS_APPLE=1"]),
    "macarm": dict(bits=64, arch="arm64", os="mach", cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_ARM64=1", "-DVERIF_AS_APPLE=1"]),
    "ios": dict(bits=64, arch="arm64", os="mach",
                cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_ARM64=1", "-DVERIF_AS_APPLE=1", "-DVERIF_AS_IOS=1"]),
    "win64": dict(bits=64, arch="x86", os="windows", cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_WINDOWS=1"]),
    "win32": dict(bits=32, arch="x86", os="windows", cflags=["-DVERIF_AS_WINDOWS=1"]),
    "winarm": dict(bits=64, arch="arm64", os="windows",
                   cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_ARM64=1", "-DVERIF_AS_WINDOWS=1"]),
    # the code tells x86 hosts from others by the sign of a NaN
    "wasm": dict(bits=64, arch="wasm", os="emscripten", cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_WASM=1"]),
    "andrx64": dict(bits=64, arch="x86", android=True, cflags=["-DVERIF_HOST64=1", "-D__ANDROID__=1"]),
    "andrx86": dict(bits=32, arch="x86", android=True, cflags=["-D__ANDROID__=1"]),
    # architectures and systems the library does not know
    "noarch64": dict(bits=64, arch="none", cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_UNKNOWN_ARCH=1", "-D__powerpc64__=1"]),
    "noarch32": dict(bits=32, arch="none", cflags=["-DVERIF_AS_UNKNOWN_ARCH=1"]),
    "noarchos": dict(bits=64, arch="none", os="other", cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_UNKNOWN_ARCH=1", "-DVERIF_AS_UNKNOWN_OS=1"]),
    "noosx64": dict(bits=64, arch="x86", os="other", cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_UNKNOWN_OS=1"]),
    "noosx86": dict(bits=32, arch="x86", os="other", cflags=["-DVERIF_AS_UNKNOWN_OS=1"]),
    "noosarm64": dict(bits=64, arch="arm64", os="other", cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_ARM64=1", "-DVERIF_AS_UNKNOWN_OS=1"]),
    "noosarm32": dict(bits=32, arch="arm32", os="other", cflags=["-DVERIF_AS_ARM=1", "-DVERIF_AS_UNKNOWN_OS=1"]),
    "noosrv64": dict(bits=64, arch="riscv", os="other", cflags=["-DVERIF_HOST64=1", "-DVERIF_AS_RISCV64=1", "-DVERIF_AS_UNKNOWN_OS=1"]),
    "wasmarm": dict(bits=32, arch="wasm", os="emscripten", cflags=["-DVERIF_AS_WASM=1", "-DVERIF_NAN_POSITIVE=1"]),
}


class BuildError(Exception):
    pass


def _srcs(pattern, exclude=()):
    return sorted(p for p in glob.glob(os.path.join(REPO, pattern)) if os.path.basename(p) not in exclude)


def sources(arch, android=False, os_="linux", mock=False):
    s = _srcs("src/*.c", ("mock.c",))
    s += _srcs("src/%s/*.c" % os_, () if mock else ("mockfile.c",))
    if arch == "x86":
        s += _srcs("src/x86/*.c", () if mock else ("mockcpuid.c",))
        s += _srcs("src/x86/cache/*.c") + _srcs("src/x86/%s/*.c" % os_)
    elif arch in ("arm64", "arm32"):
        s += _srcs("src/arm/*.c", ("tlb.c",))
        s += _srcs("src/arm/%s/*.c" % os_, ("aarch32-isa.c",) if arch == "arm64" else ("aarch64-isa.c",))
        if android:
            s += _srcs("src/arm/android/*.c")
    elif arch == "riscv":
        s += _srcs("src/riscv/*.c") + _srcs("src/riscv/%s/*.c" % os_)
    return s


def accessors():
    text = open(os.path.join(REPO, "include/cpuinfo.h"), encoding="utf-8", errors="replace").read()
    names = []
    for m in re.finditer(r"\bbool\s+(cpuinfo_has_\w+)\s*\(\s*void\s*\)", text):
        if m.group(1) not in names:
            names.append(m.group(1))
    return names, bool(re.search(r"\bcpuinfo_get_max_arm_sve_length\s*\(", text))


def repo_hash():
    h = hashlib.sha256()
    roots = ["src", "include", "deps/clog", "tools"]
    for r in roots:
        for d, dirs, fs in sorted(os.walk(os.path.join(REPO, r))):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".h", ".cc", ".inc", ".S", ".def")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def patch_cpuid(obj):
    """Turns CPUID and XGETBV in a compiled object into traps the runner emulates."""
    dis = _run(["objdump", "-d", "-w", obj])
    if "cpuid" not in dis and "xgetbv" not in dis:
        return 0
    hdr = _run(["objdump", "-h", "-w", obj])
    offs = {}
    for line in hdr.splitlines():
        f = line.split()
        if len(f) >= 6 and f[0].isdigit():
            offs[f[1]] = int(f[5], 16)
    data = bytearray(open(obj, "rb").read())
    sec = None
    n = 0
    for line in dis.splitlines():
        m = re.match(r"Disassembly of section (\S+):", line)
        if m:
            sec = m.group(1)
            continue
        m = re.match(r"\s*([0-9a-f]+):\s+((?:[0-9a-f]{2} )+)\s*(\S+)", line)
        if not m:
            continue
        b = bytes(int(x, 16) for x in m.group(2).split())
        at = offs.get(sec, 0) + int(m.group(1), 16)
        if m.group(3) == "cpuid" and b == b"\x0f\xa2":
            assert data[at:at + 2] == b
            data[at:at + 2] = b"\xcc\x90"
            n += 1
        elif m.group(3) == "xgetbv" and b == b"\x0f\x01\xd0":
            assert data[at:at + 3] == b
            data[at:at + 3] = b"\xcc\x66\x90"
            n += 1
    open(obj, "wb").write(bytes(data))
    return n


def _prune(keep):
    try:
        ents = [os.path.join(BUILD, e) for e in os.listdir(BUILD)]
    except OSError:
        return
    ents = [e for e in ents if os.path.isdir(e) and e != keep]
    ents.sort(key=os.path.getmtime, reverse=True)
    for e in ents[60:]:
        shutil.rmtree(e, ignore_errors=True)


def build(pers, san="asan", log_level=2, main="harness.c", extra_cflags=(), virtual=True, opt="-O1",
          extra_sources=(), tag="", lib_sources=True, tools=(), mock=False):
    """Returns the path of a runner for the given personality, building it when needed."""
    p = PERSONALITIES[pers]
    h = repo_hash()
    hfiles = sorted(glob.glob(os.path.join(HARNESS, "*"))) + sorted(
        x for d in ("android", "bsd", "wasm", "win", "host") for x in glob.glob(os.path.join(HARNESS, d, "**"), recursive=True))
    for f in hfiles:
        if os.path.isfile(f):
            h.update(open(f, "rb").read())
    h.update(repr((REPO, pers, san, log_level, main, list(extra_cflags), virtual, opt, list(extra_sources), tag,
                   WRAPS, SAN[san], p, list(tools), mock, 6)).encode())
    key = "%s-%s-%s" % (pers, san, h.hexdigest()[:24])
    outdir = os.path.join(BUILD, key)
    exe = os.path.join(outdir, "runner")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, key + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        try:
            _build_into(tmp, p, san, log_level, main, extra_cflags, virtual, opt, extra_sources, lib_sources, tools, mock)
            shutil.rmtree(outdir, ignore_errors=True)
            os.rename(tmp, outdir)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
    try:
        os.unlink(os.path.join(BUILD, key + ".lock"))
    except OSError:
        pass
    _prune(outdir)
    return exe


def _build_into(tmp, p, san, log_level, main, extra_cflags, virtual, opt, extra_sources, lib_sources, tools, mock):
    arch = p["arch"]
    names, has_sve = accessors()
    with open(os.path.join(tmp, "accessors.inc"), "w") as f:
        for n in names:
            f.write("ACC(%s)\n" % n)
        if has_sve:
            f.write("#define HAVE_SVE_LENGTH 1\n")
    if has_sve:
        extra_cflags = list(extra_cflags) + ["-DHAVE_SVE_LENGTH=1"]
    base = ["clang", "-m%d" % p["bits"], opt, "-g1", "-std=gnu99", "-pthread", "-w", "-fno-builtin",
            "-D_GNU_SOURCE=1", "-DCPUINFO_LOG_LEVEL=%d" % log_level, "-DCPUINFO_LOG_TO_STDIO=1",
            "-include", os.path.join(HARNESS, "shim.h"),
            "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + tmp, "-I" + HARNESS]
    if mock:
        base += ["-DCPUINFO_MOCK=1"]
    base += SAN[san] + p["cflags"] + (["-fno-sanitize=pointer-overflow"] if san == "asan" and p.get("os") == "windows" else []) + list(extra_cflags)
    extra = "android" if p.get("android") else {"freebsd": "bsd", "mach": "bsd", "emscripten": "wasm", "windows": "win"}.get(p.get("os"))
    if extra:
        base += ["-I" + os.path.join(HARNESS, extra)]
    jobs = []
    if lib_sources:
        for i, s in enumerate(sources(arch, p.get("android"), p.get("os", "linux"), mock)):
            o = os.path.join(tmp, "%03d-%s.o" % (i, os.path.basename(s)))
            fl = ["-DCPUINFO_MOCK=1"] if (arch == "arm32" and os.path.basename(s) == "aarch32-isa.c") else []
            jobs.append((base + fl + ["-c", s, "-o", o], o, arch == "x86" and virtual))
    for tool in tools:
        # command-line tools become functions, called by the runner
        o = os.path.join(tmp, "tool-%s.o" % tool)
        jobs.append((base + ["-Dmain=tool_" + tool.replace("-", "_"), "-c", os.path.join(REPO, "tools", tool + ".c"), "-o", o],
                     o, arch == "x86" and virtual))
    for i, s in enumerate([os.path.join(HARNESS, main)] + list(extra_sources)):
        o = os.path.join(tmp, "h%02d-%s.o" % (i, os.path.basename(s)))
        jobs.append((base + ["-c", s, "-o", o], o, False))

    redefine = [x for w in WRAPS for x in ("--redefine-sym", "%s=__wrap_%s" % (w, w))]

    def one(j):
        _run(j[0])
        n = patch_cpuid(j[1]) if j[2] else 0
        if virtual and not os.path.basename(j[1]).startswith("h"):
            _run(["objcopy"] + redefine + [j[1]])
        return n
    with ThreadPoolExecutor(8) as ex:
        patched = sum(ex.map(one, jobs))
    if arch == "x86" and virtual and patched == 0:
        raise BuildError("no CPUID instruction found to virtualize")
    link = ["clang", "-m%d" % p["bits"], "-pthread", "-g1"] + SAN[san]
    link += [j[1] for j in jobs] + ["-ldl", "-lm", "-o", os.path.join(tmp, "runner")]
    _run(link)
    for j in jobs:
        os.unlink(j[1])


if __name__ == "__main__":
    for a in sys.argv[1:]:
        pers, _, san = a.partition(":")
        print(build(pers, san or "asan"))
