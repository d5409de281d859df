"""Scenarios (virtual platforms) and the pool of runner processes that executes them."""
import json
import os
import pickle
import struct
import subprocess
import traceback

OPT_GETCPU, OPT_RANGES, OPT_STABLE, OPT_SECCOMP, OPT_EVENTS, OPT_OUTPUT, OPT_PREINIT, OPT_NODUMP, OPT_POSTFAIL, OPT_THREADS, OPT_TOOL, OPT_MOCKFS = (
    1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048)
F_ALLOC, F_OPEN, F_READ, F_ALLOC_FROM, F_OPEN_FROM, F_READ_FROM = range(1, 7)

M32 = 0xFFFFFFFF


class Scenario:
    def __init__(self):
        self.files = {}      # path -> [data, mode, param, chunks]
        self.cpuid = []      # (leaf, sub or None, a, b, c, d)
        self.regs = {}
        self.hwprobe = []    # (cpu, ret, vendor, arch, impl, mask)
        self.getcpu = []
        self.fault = None
        self.opts = OPT_EVENTS
        self.pre = 0
        self.props = []
        self.meta = {}       # generator's ground truth, used by the oracle only

    def file(self, path, data, mode=0, param=0, chunks=()):
        if isinstance(data, str):
            data = data.encode("latin-1")
        self.files[path] = [data, mode, param, list(chunks)]
        return self

    def encode(self):
        out = []

        def rec(t, b):
            # keep every record 8-byte aligned relative to the start
            pad = (-len(b)) % 8
            if t in (1,):
                pad = 0
            out.append(struct.pack("<II", t, len(b)) + b)
        # fixed-layout records first so that they are aligned
        if self.cpuid:
            b = b"".join(struct.pack("<7I", l & M32, (s or 0) & M32, 1 if s is None else 0, a & M32, bb & M32, c & M32,
                                     d & M32) for (l, s, a, bb, c, d) in self.cpuid)
            if len(b) % 8:
                b += struct.pack("<I", 0)
            rec(2, b)
        if self.hwprobe:
            rec(4, b"".join(struct.pack("<IiQQQII", cpu, ret, v, a, i, m, 0) for (cpu, ret, v, a, i, m) in self.hwprobe))
        r = self.regs
        rec(3, struct.pack("<QQQqIIII", r.get("xcr0", 0), r.get("hwcap", 0), r.get("hwcap2", 0), r.get("sve_vl", -1),
                           r.get("fpsid", 0), r.get("mvfr0", 0), r.get("wcid", 0), r.get("auxv_missing", 0)))
        if self.getcpu:
            rec(5, b"".join(struct.pack("<q", c) for c in self.getcpu))
        if self.fault:
            rec(6, struct.pack("<III", *self.fault))
        rec(7, struct.pack("<II", self.opts, self.pre))
        for k, v in self.props:
            rec(8, k.encode("latin-1") + b"\0" + v.encode("latin-1") + b"\0")
        for p, (data, mode, param, chunks) in self.files.items():
            pb = p.encode()
            rec(1, struct.pack("<IIII", len(pb), mode, param & M32, len(chunks)) + pb +
                struct.pack("<%dI" % len(chunks), *chunks) + data)
        return b"".join(out)

    # a replay file is the scenario in readable form
    def to_json(self):
        return {"files": {p: {"data": d.decode("latin-1"), "mode": m, "param": q, "chunks": c}
                          for p, (d, m, q, c) in self.files.items()},
                "cpuid": [list(x) for x in self.cpuid], "regs": self.regs, "hwprobe": self.hwprobe,
                "getcpu": self.getcpu, "fault": self.fault, "opts": self.opts, "pre": self.pre, "props": self.props,
                "meta": {k: v for k, v in self.meta.items() if _jsonable(v)}}

    @staticmethod
    def from_json(j):
        s = Scenario()
        for p, f in j["files"].items():
            s.file(p, f["data"], f["mode"], f["param"], f["chunks"])
        s.cpuid = [tuple(x) for x in j["cpuid"]]
        s.regs = j["regs"]
        s.hwprobe = [tuple(x) for x in j["hwprobe"]]
        s.getcpu = j["getcpu"]
        s.fault = tuple(j["fault"]) if j["fault"] else None
        s.opts = j["opts"]
        s.pre = j["pre"]
        s.props = [tuple(x) for x in j["props"]]
        s.meta = j.get("meta", {})
        return s


def _jsonable(v):
    try:
        json.dumps(v)
        return True
    except (TypeError, ValueError):
        return False


ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:malloc_context_size=6:"
                    "detect_stack_use_after_return=0:max_allocation_size_mb=400:symbolize=1:fast_unwind_on_malloc=1:"
                    "quarantine_size_mb=4",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1:halt_on_error=1",
    "MSAN_OPTIONS": "abort_on_error=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:exitcode=66",
    "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
    "LANG": "C",
}


class RunnerDied(Exception):
    pass


def run_batch(exe, scenarios):
    """Runs a list of scenarios in one runner process; returns their results in order."""
    fd = os.memfd_create("in")
    try:
        with os.fdopen(os.dup(fd), "wb") as f:
            for i, s in enumerate(scenarios):
                b = s.encode()
                f.write(struct.pack("<II", len(b), i) + b)
        os.lseek(fd, 0, os.SEEK_SET)
        p = subprocess.run([exe], stdin=fd, stdout=subprocess.PIPE, env=ENV)
    finally:
        os.close(fd)
    lines = p.stdout.split(b"\n")
    if p.returncode == 42:
        # two cases hung: the others were not run
        lines[-1:] = [b'{"skipped":1}'] * (len(scenarios) + 1 - len(lines)) + [b""]
    elif p.returncode != 0 or len(lines) != len(scenarios) + 1:
        raise RunnerDied("runner exited with status %s after %d of %d cases" % (
            p.returncode, len(lines) - 1, len(scenarios)))
    return [json.loads(l) for l in lines[:-1]]


def run_one(exe, s):
    return run_batch(exe, [s])[0]


def parallel(n, body, workers=8):
    """Runs body(worker, workers) in forked processes; returns the list of their (picklable) results."""
    procs = []
    for w in range(workers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = ("ok", body(w, workers))
            except BaseException:
                res = ("err", traceback.format_exc())
            with os.fdopen(wfd, "wb") as f:
                f.write(pickle.dumps(res))
            os._exit(0)
        os.close(wfd)
        procs.append((pid, r))
    out = []
    for pid, r in procs:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise RunnerDied("worker produced no result")
        kind, val = pickle.loads(data)
        if kind == "err":
            raise RuntimeError(val)
        out.append(val)
    return out
