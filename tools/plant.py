#!/usr/bin/env python3
"""Applies one textual change to /repo, runs the checks of a property on it and, when caught, makes the seed from the replay.

plant.py SPEC.py ID...   SPEC.py defines B = {id: dict(prop, edits=[(file, old, new)], keys, needs, breaks, [case], [checks])}
"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    B = ns["B"]
    for i in (sys.argv[2:] or B):
        b = B[i]
        assert sh("git -C %s status --porcelain" % R).stdout == "", "dirty /repo"
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(R, f)
                t = open(p, newline="").read()
                if "\r\n" in t:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if t.count(old) != 1:
                    print(i, "EDIT MATCHES %d TIMES in %s: %s" % (t.count(old), f, old[:60]))
                    break
                open(p, "w", newline="").write(t.replace(old, new))
            else:
                diff = sh("git -C %s diff" % R).stdout
                open("/tmp/%s.diff" % i, "w").write(diff)
                case = b.get("case")
                res = []
                for c in b.get("checks", [b["prop"]]):
                    r = sh("python3 %s/check.py %s quick" % (V, c))
                    m = re.search(r"VIOLATION property=\w+ replay=(\S+)", r.stdout)
                    res.append("%s:%s" % (c, "caught" if m else "MISSED(%d)" % r.returncode))
                    if m and not case and c == b["prop"]:
                        case = m.group(1)
                    if m:
                        k = r.stdout.rfind("VIOLATION")
                        res.append(r.stdout[:k].strip().splitlines()[-1][:200])
                    elif r.returncode not in (0, 1):
                        res.append(r.stdout[-600:])
                print(i, *res, flush=True)
                b["_case"] = case
        finally:
            sh("git -C %s checkout -- ." % R)
        case = b.get("_case")
        if not case:
            print(i, "no case")
            continue
        j = json.load(open(case)) if isinstance(case, str) else case
        bd = j.get("build", {})
        if "personality" not in bd and "pers" not in j:
            continue
        out = {"pers": j.get("pers") or bd["personality"], "scenarios": j["scenarios"]}
        json.dump(out, open("/tmp/%s.case" % i, "w"))
        r = subprocess.run([sys.executable, V + "/tools/mkseed.py", i, "--prop", b["prop"], "--patch", "/tmp/%s.diff" % i,
                            "--needs", b["needs"], "--breaks", b["breaks"], "--case", "/tmp/%s.case" % i,
                            "--keys", b["keys"], "--san", b.get("san", bd.get("sanitizer", "asan")),
                            "--log", str(b.get("log", bd.get("log_level", 2)))],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("  ", r.stdout[-400:].strip())


main()
