"""Where the library knows neither architecture nor system it says so and reports nothing."""
import subprocess

from vlib.core import Part, crash_problem
from vlib.scenario import OPT_EVENTS, OPT_POSTFAIL, OPT_THREADS, Scenario

RULE = ("every query after initialization on unknown architectures and on known architectures with an unknown system, alone and from "
        "2 to 16 threads; a case counts once per distinct (kind of system, query that stopped the program or number of threads)")
ASSUMPTIONS = ["unknown architectures and systems are those whose compiler macros the library does not test"]
PERS = ("noarch64", "noarch32", "noarchos", "noosx64", "noosx86", "noosarm64", "noosarm32", "noosrv64")


def gen(pers, names):
    def f(rng, i):
        s = Scenario()
        s.file("/proc/cpuinfo", b"processor\t: 0\n")
        s.file("/sys/devices/system/cpu/possible", b"0-3\n")
        s.file("/sys/devices/system/cpu/present", b"0-3\n")
        s.opts = OPT_EVENTS | OPT_POSTFAIL
        s.pre = i
        return s
    return f


def gen_threads(rng, i):
    s = Scenario()
    s.opts = OPT_EVENTS | OPT_THREADS
    s.pre = rng.getrandbits(31)
    return s


def quiet(r, out):
    e = r.get("ev", {})
    used = {k: e[k] for k in ("alloc", "open", "read", "cpuid", "leak", "live") if e.get(k)}
    if used:
        out.append(("use", "initialization without a known system used %r" % used))


def judge(ss, rs):
    r = rs[0]
    out = []
    if r.get("init") is not False:
        c = crash_problem(r)
        return [("init", "initialization did not report failure: %s" % (c[1] if c else r.get("init")))], None
    if r.get("again"):
        out.append(("again", "a later initialization reported success"))
    if r.get("isa"):
        out.append(("isa", "instruction sets of an unknown architecture: %s" % " ".join(r["isa"][:8])))
    if r.get("sve"):
        out.append(("isa", "a vector length of %d on an unknown architecture" % r["sve"]))
    if r.get("returned") or r.get("sig") != 6 or "Sanitizer" in r.get("out", ""):
        out.append(("guard", "%s did not stop the program" % r.get("pre")))
    if "Error in cpuinfo" not in r.get("out", ""):
        out.append(("log", "the reason was not logged as an error"))
    quiet(r, out)
    return out[:2], r.get("pre")


def judge_threads(ss, rs):
    r = rs[0]
    c = crash_problem(r)
    if c or "threads" not in r:
        return [c or ("end", "the run ended early: %r" % r)], None
    n, ok, again, _, _ = r["threads"]
    out = []
    if ok or again or r.get("init"):
        out.append(("result", "of %d threads %d were told of success" % (n, max(ok, again))))
    quiet(r, out)
    return out[:1], n


def run(rep, tier):
    k = 1 if tier == "quick" else 20
    parts = []
    for p in PERS:
        exe = Part(p, p, 1, None, None).exe()
        names = subprocess.run([exe, "--preinits"], stdout=subprocess.PIPE, text=True).stdout.split()
        parts.append(Part(p, p, len(names), gen(p, names), judge))
        parts.append(Part(p + " threads", p, 12 * k, gen_threads, judge_threads, san="tsan" if "32" not in p and p != "noosx86" else "asan", batch=6))
    rep.run_parts(parts)
    return rep.finish()
