"""Queries about the current processor follow the processor the thread runs on."""
from props import p03
from vlib import anygen as N, x86gen as X
from vlib.core import Part
from vlib.judge import ended
from vlib.scenario import OPT_EVENTS, OPT_GETCPU

RULE = ("random systems of every architecture; the kernel's answer to 'which processor is this' runs over reported processors, holes, "
        "numbers beyond the last one and failure; threads that ask at once get each their own "
        "answer, under TSan; a case counts once per distinct (Linux number to processor and microarchitecture map)")
ASSUMPTIONS = ["the getcpu system call is answered by the harness"]


def gen(pers, big=False):
    def f(rng, i):
        s = N.scenario(rng, pers, big, partial=0.2)
        ids = s.meta["usable"]
        s.getcpu = X.probe_ids(rng, ids)
        rng.shuffle(s.getcpu)
        s.opts = OPT_EVENTS | OPT_GETCPU
        return s
    return f


def judge(ss, rs):
    s, r = ss[0], rs[0]
    bad = ended(r)
    if bad:
        return bad, None
    where = {p[4]: i for i, p in enumerate(r["procs"])}
    run_of, at = [], 0
    for k, u in enumerate(r["uarchs"]):
        run_of += [k] * u[2]
    out = []
    top = max(where)
    for i, (cpu, proc, core, ua, uad) in enumerate(r["cur"]):
        if cpu in where:
            p = where[cpu]
            if proc != p:
                out.append(("processor", "on Linux processor %d the current processor is #%d, expected #%d" % (cpu, proc, p)))
            if core != r["procs"][p][1]:
                out.append(("core", "on Linux processor %d the current core is #%d, expected #%d" % (cpu, core, r["procs"][p][1])))
            if ua != run_of[p] or uad != run_of[p]:
                out.append(("uarch", "on Linux processor %d the microarchitecture index is %d (%d with default), expected %d" % (
                    cpu, ua, uad, run_of[p])))
            elif r["uarchs"][ua][0] != r["cores"][r["procs"][p][1]][6]:
                out.append(("uarch", "on Linux processor %d the microarchitecture index names another one than its core" % cpu))
        else:
            if proc != -1 or core != -1:
                out.append(("unknown", "on unreported Linux processor %d: processor #%d, core #%d, expected none" % (cpu, proc, core)))
            if ua != 0:
                out.append(("unknown", "on unreported Linux processor %d the microarchitecture index is %d, expected 0" % (cpu, ua)))
            if uad not in ((0, 4242 + i) if cpu <= top and cpu >= 0 or len(r["uarchs"]) == 1 or "kind" in s.meta else (4242 + i,)):
                out.append(("unknown", "on unreported Linux processor %d the index with default is %d" % (cpu, uad)))
    return out[:1], tuple((c[0], c[1], c[3]) for c in sorted(r["cur"]))


def judge_threads(ss, rs):
    out, sig = p03.judge(ss, rs)
    return [p for p in out if p[0] == "current" or p[0].startswith("crash")], sig


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    parts = [Part(p, p, n * k, gen(p), judge) for p, n in (
        ("x64", 1500), ("x86", 600), ("arm64", 2500), ("arm32", 1000), ("andr64", 500), ("rv64", 1200), ("rv32", 400))]
    parts.append(Part("arm64 large", "arm64", 100 * k, gen("arm64", True), judge, batch=7))
    parts += [Part(p + " threads", p, n * k, p03.gen(p), judge_threads, san="tsan", batch=20, confirm=20) for p, n in (
        ("x64", 150), ("arm64", 200), ("rv64", 100))]
    rep.run_parts(parts)
    return rep.finish()
