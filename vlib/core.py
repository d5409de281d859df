"""Drives the parts of a property's check, judges the results and writes the evidence."""
import hashlib
import json
import os
import random
import re
import sys
import time

from . import build, scenario as S

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")


class Part:
    """One workload of a check.

    gen(rng, i) returns a scenario or a list of scenarios that are judged together.
    judge(scenarios, results) returns (problems, signature): problems is a list of
    (key, text); signature is hashable and identifies the kind of state observed, or
    None when the case was trivial.
    """

    def __init__(self, name, pers, count, gen, judge, san="asan", log_level=2, batch=50, exe_args=None, confirm=1):
        self.name, self.pers, self.count, self.gen, self.judge = name, pers, count, gen, judge
        self.san, self.log_level, self.batch = san, log_level, batch
        self.exe_args = exe_args or {}
        self.confirm = confirm

    def exe(self):
        return build.build(self.pers, self.san, self.log_level, **self.exe_args)

    def execute(self, exe, scenarios):
        return S.run_batch(exe, scenarios)


def rng_for(prop, part, seed, i):
    return random.Random("%s/%s/%d/%d" % (prop, part, seed, i))


def crash_problem(r):
    """problem for a result of a run that did not end normally, else None"""
    if "sig" not in r and "exit" not in r:
        return None
    out = r.get("out", "")
    if r.get("exit") == 77:
        m = re.search(r"RUNAWAY: (.*)", out)
        return ("nonterminating", "does not terminate: " + (m.group(1) if m else "?"))
    if r.get("sig") == 14:
        return ("hang", "no answer within 60 s")
    if r.get("sig") == 9:
        return ("killed", "killed")
    kind = "signal %s" % r.get("sig") if "sig" in r else "exit %s" % r.get("exit")
    m = re.search(r"ERROR: \w+Sanitizer: ([\w-]+)", out) or re.search(r"WARNING: \w+Sanitizer: ([\w -]+?)(?: \(|\n)", out)
    if m:
        kind = m.group(1)
    m = re.search(r"runtime error: (.*)", out)
    if m:
        kind = "undefined behaviour: " + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:120]
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) (\S*/(?:src|include|deps)/\S+)", out)
    where = frames[0][0] if frames else ""
    m = re.search(r"SUMMARY: (.*)", out)
    text = kind + (" in " + where if where else "")
    return ("crash:%s:%s" % (kind, where), text + (" (%s)" % m.group(1)[:160] if m else ""))


def run_part(prop, part, seed, workers=8):
    exe = part.exe()
    known = load_known(prop)

    def body(w, n):
        sigs = {}
        evals = 0
        problems = []
        trivial = 0
        ev = {}
        b = part.batch
        t0 = time.time()
        for base in range(w * b, part.count, n * b):
            groups = []
            for i in range(base, min(base + b, part.count)):
                g = part.gen(rng_for(prop, part.name, seed, i), i)
                if g is None:
                    continue
                groups.append((i, g if isinstance(g, list) else [g]))
            flat = [s for _, g in groups for s in g]
            res = part.execute(exe, flat)
            k = 0
            for i, g in groups:
                rs = res[k:k + len(g)]
                k += len(g)
                if any("skipped" in r for r in rs) and not any(r.get("sig") == 14 for r in rs):
                    continue
                evals += len(g)
                for r in rs:
                    for kk, v in r.get("ev", {}).items():
                        ev[kk] = ev.get(kk, 0) + v
                try:
                    p, sig = part.judge(g, rs)
                except Exception as e:  # an oracle that cannot read a result must not pass it
                    cp = [crash_problem(r) for r in rs]
                    cp = [c for c in cp if c]
                    if not cp:
                        raise
                    p, sig = cp, None
                if sig is None:
                    trivial += 1
                else:
                    sigs.setdefault(hashlib.md5(repr(sig).encode()).digest()[:8], (i, repr(sig)[:200]))
                for key, text in p:
                    if len(problems) < 40 and sum(1 for q in problems if q[1] == key) < 3:
                        problems.append((i, key, text))
            if (time.time() - t0 > 60 or any("skipped" in r for r in res)) and any(keyname(q[1]) not in known for q in problems):
                break  # enough has failed; a broken library may be slow to fail on every remaining case
        return evals, sigs, problems, trivial, ev

    evals, sigs, problems, trivial, ev = 0, {}, [], 0, {}
    for a, b, c, d, e in S.parallel(8, body, workers):
        evals += a
        sigs.update(b)
        problems += c
        trivial += d
        for k, v in e.items():
            ev[k] = ev.get(k, 0) + v
    return exe, evals, sigs, sorted(problems), trivial, ev


def load_known(prop):
    """{key: description} of the recorded, unrepaired findings"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def keyname(key):
    return re.sub(r"[^\w.:+-]+", "_", key)


class Report:
    """Collects what a check observed and concludes."""

    def __init__(self, prop, tier, seed, rule, assumptions=()):
        self.prop, self.tier, self.seed, self.rule = prop, tier, seed, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.distinct = 0
        self.samples = []
        self.violations = []
        self.parts = {}
        self.known = load_known(prop)
        self.known_hit = set()
        self.errors = []

    def add(self, name, evals, distinct, samples, extra=None):
        self.evals += evals
        self.distinct += distinct
        self.samples += ["%s: %s" % (name, s) for s in samples[:3]]
        self.parts[name] = dict(evaluations=evals, distinct=distinct, **(extra or {}))
        print("%s %s: %d evaluations, %d distinct observed states%s" % (
            self.prop, name, evals, distinct,
            "".join(", %s=%s" % (k, v) for k, v in sorted((extra or {}).items()) if not isinstance(v, dict))), flush=True)
        if evals == 0 or distinct == 0:
            self.errors.append("part %s observed nothing" % name)

    def violation(self, key, text, replay):
        k = keyname(key)
        for kk in self.known:
            if k == kk:
                if k not in self.known_hit:
                    self.known_hit.add(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[kk]), flush=True)
                return
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        body = json.dumps(replay, indent=1, default=str)
        path = os.path.join(EVID, "replay", "%s-%s.json" % (self.prop, hashlib.md5(body.encode()).hexdigest()[:10]))
        open(path, "w").write(body)
        self.violations.append({"key": key, "text": text, "replay": path})

    def run_parts(self, parts):
        for part in parts:
            if self.violations and time.time() - self.t0 > 240:
                break
            exe, evals, sigs, problems, trivial, ev = run_part(self.prop, part, self.seed)
            vals = list(sigs.values())
            vals.sort()
            step = max(1, len(vals) // 3)
            self.add(part.name, evals, len(sigs), ["case %d %s" % v for v in vals[::step][:3]],
                     {"trivial": trivial, "events": ev, "build": "%s/%s" % (part.pers, part.san)})
            seen = set()
            for i, key, text in problems:
                if key in seen:
                    continue
                # confirm on a second, separate run before reporting
                g = part.gen(rng_for(self.prop, part.name, self.seed, i), i)
                g = g if isinstance(g, list) else [g]
                for _ in range(part.confirm):
                    rs = part.execute(exe, g)
                    try:
                        again, _s = part.judge(g, rs)
                    except Exception:
                        again = [c for c in (crash_problem(r) for r in rs) if c]
                    if any(k == key for k, _t in again):
                        break
                if key == "killed" or not any(k == key for k, _ in again):
                    self.errors.append("case %d of %s: %s: not reproduced" % (i, part.name, text))
                    continue
                seen.add(key)
                self.violation(key, text, {
                    "property": self.prop, "part": part.name, "case": i, "seed": self.seed, "key": key, "problem": text,
                    "all": ["%s: %s" % x for x in again][:20],
                    "build": {"personality": part.pers, "sanitizer": part.san, "log_level": part.log_level},
                    "scenarios": [s.to_json() for s in g], "results": [_trim(r) for r in rs]})

    def finish(self, level="exploration", extra=None):
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {"evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": self.rule,
                         "samples": self.samples[:30], "parts": self.parts, **(extra or {})},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": self.violations,
        }
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for v in self.violations:
            print("  %s" % v["text"])
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0]["replay"]), flush=True)
            return 1
        if self.errors:
            for e in self.errors:
                print("INCONCLUSIVE: " + e)
            return 2
        print("%s held on %d evaluations, %d distinct observed states, %.1f s" % (
            self.prop, self.evals, self.distinct, time.time() - self.t0))
        return 0


def _trim(r):
    r = dict(r)
    if "out" in r:
        r["out"] = r["out"][:6000]
    return r
