#!/usr/bin/env python3
"""Puts a planted bug together: patch, demonstration and description.

mkseed.py ID --prop P --patch FILE --needs TEXT --breaks TEXT --case FILE [--keys a,b] [--san asan]
    FILE is a replay file of a check, or JSON {"pers": ..., "scenarios": [...]}.
    The demonstration runs the scenarios on the tree in the current directory and
    compares what the library reported (only --keys) with what it reports today.
mkseed.py --confirm ID...   builds, runs the stable tests and the demonstration with the patch applied
"""
import argparse, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
RUN = r'''#!/usr/bin/env python3
import json, os, shutil, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
os.environ["VERIF_REPO"] = os.getcwd()
sys.path.insert(0, os.path.join(here, "lib"))
from vlib import build, scenario as S
build.BUILD = tempfile.mkdtemp(prefix="demo-")
try:
    c = json.load(open(os.path.join(here, "case.json")))
    exe = build.build(c["pers"], c["san"], c["log_level"])
    res = S.run_batch(exe, [S.Scenario.from_json(x) for x in c["scenarios"]])
finally:
    shutil.rmtree(build.BUILD, ignore_errors=True)
bad = 0
for i, (r, want) in enumerate(zip(res, c["expect"])):
    if any(r.get(k) != want.get(k) for k in ("sig", "exit")):
        print("case %d: the run ended differently: %s" % (i, r.get("out", "")[:2000] or r))
        bad = 1
        continue
    for k, v in want.items():
        if r.get(k) != v:
            print("case %d: %s is\n  %s\nexpected\n  %s" % (i, k, json.dumps(r.get(k))[:1500], json.dumps(v)[:1500]))
            bad = 1
sys.exit(bad)
'''
SH = '#!/bin/bash\n# cwd is the repository\nexec python3 "$(cd "$(dirname "$0")" && pwd)/run.py"\n'


def seed_dir(i):
    return os.path.join(V, "seeded", i)


def make(a):
    from vlib import build, scenario as S
    d = seed_dir(a.id)
    os.makedirs(d, exist_ok=True)
    c = json.load(open(a.case))
    scen = c.get("scenarios") or [c["scenario"]]
    pers = a.pers or c.get("pers") or c.get("personality")
    exe = build.build(pers, a.san, a.log)
    res = S.run_batch(exe, [S.Scenario.from_json(x) for x in scen])
    keys = a.keys.split(",")
    exp = []
    for r in res:
        exp.append({k: r.get(k) for k in keys + [k for k in ("sig", "exit") if k in r]})
    for x in scen:
        x.pop("meta", None)
    json.dump({"pers": pers, "san": a.san, "log_level": a.log, "scenarios": scen, "expect": exp},
              open(os.path.join(d, "case.json"), "w"), indent=1)
    copy_lib(d)
    open(os.path.join(d, "run.py"), "w").write(RUN)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    finish(a, d)


def copy_lib(d):
    lib = os.path.join(d, "lib")
    shutil.rmtree(lib, ignore_errors=True)
    os.makedirs(os.path.join(lib, "vlib"))
    for f in ("__init__.py", "build.py", "scenario.py"):
        shutil.copy(os.path.join(V, "vlib", f), os.path.join(lib, "vlib", f))
    shutil.copytree(os.path.join(V, "harness"), os.path.join(lib, "harness"))


def finish(a, d):
    shutil.copy(a.patch, os.path.join(d, "patch.diff"))
    json.dump({"property": a.prop, "needs": a.needs, "what_it_breaks": a.breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("made", a.id)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def confirm(ids):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        d = seed_dir(i)
        assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
        clean = sh("bash %s/demo.sh" % d, cwd="/repo")
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stdout)
            continue
        try:
            dirty = sh("bash %s/demo.sh" % d, cwd="/repo")
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/seed-out.json")
            missing = stable - set(json.load(open("/tmp/seed-out.json"))["passed"]) if b.returncode == 0 else {"build failed"}
        finally:
            sh("git -C /repo checkout -- .")
        ok = clean.returncode == 0 and dirty.returncode != 0 and not missing
        print(i, "OK" if ok else "NOT OK", "clean", clean.returncode, "patched", dirty.returncode, "tests lost", len(missing),
              sorted(missing)[:3])
        if not ok or "-v" in sys.argv:
            print("   clean:", clean.stdout[-600:], "\n   patched:", dirty.stdout[:600])
    sh("bash /opt/vp/build.sh")


if __name__ == "__main__":
    if sys.argv[1] == "--confirm":
        confirm([x for x in sys.argv[2:] if x != "-v"])
        sys.exit()
    p = argparse.ArgumentParser()
    p.add_argument("id")
    for k in ("prop", "patch", "needs", "breaks", "case"):
        p.add_argument("--" + k, required=True)
    p.add_argument("--keys", default="init")
    p.add_argument("--san", default="asan")
    p.add_argument("--pers", default="")
    p.add_argument("--log", type=int, default=2)
    make(p.parse_args())
