#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   run one property's check
check.py --replay <file>               run the scenarios of a replay file again
check.py --setup                       build what the checks share
check.py --all [quick|thorough]        run every check in turn"""
import importlib
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, core, scenario as S  # noqa: E402


def props():
    d = os.path.join(build.VERIF, "props")
    return sorted(f[:-3].upper() for f in os.listdir(d) if f.startswith("p") and f[1:-3].isdigit())


def run(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = importlib.import_module("props." + prop.lower())
    rep = core.Report(prop, tier, seed, mod.RULE, getattr(mod, "ASSUMPTIONS", ()))
    try:
        return mod.run(rep, tier)
    except build.BuildError as e:
        print("INCONCLUSIVE: the harness does not build: %s" % e)
        return 2


def replay(path):
    j = json.load(open(path))
    if "scenarios" not in j:
        print(json.dumps(j, indent=1))
        mod = importlib.import_module("props." + j["property"].lower())
        return mod.replay(j) if hasattr(mod, "replay") else 0
    b = j["build"]
    print("recorded: %s" % j["problem"])
    for s in [S.Scenario.from_json(s) for s in j["scenarios"]]:
        r = S.run_one(build.build(b["personality"], b["sanitizer"], b["log_level"], mock=bool(s.meta.get("mock"))), s)
        print(json.dumps(r, indent=None))
        print(r.get("out", ""))
    return 0


def main():
    a = sys.argv[1:]
    if not a or a[0] in ("-h", "--help"):
        print(__doc__)
        return 2
    if a[0] == "--replay":
        return replay(a[1])
    if a[0] == "--setup":
        for p, san in (("x64", "asan"), ("x86", "asan"), ("arm64", "asan"), ("rv64", "asan")):
            build.build(p, san)
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if a[0] == "--all":
        bad = []
        for p in props():
            if subprocess.call([sys.executable, os.path.abspath(__file__), p, tier]):
                bad.append(p)
        print("failed: %s" % (" ".join(bad) or "none"))
        return 1 if bad else 0
    return run(a[0].upper(), tier)


if __name__ == "__main__":
    sys.exit(main())
