"""Oracles over the API dump of one run, independent of the platform."""
from .core import crash_problem

LV = ("L1I", "L1D", "L2", "L3", "L4")
UNIFIED = 1


def ended(r):
    """[problem] if the run crashed, did not end or did not initialise"""
    c = crash_problem(r)
    if c:
        return [c]
    if not r.get("init"):
        return [("init-failed", "initialization failed on a platform that it supports")]
    return []


def _partition(name, ranges, n, out):
    """ranges [(start, count)] have to split 0..n-1 into consecutive non-empty blocks"""
    at = 0
    for i, (s, c) in enumerate(ranges):
        if c == 0 or s != at:
            out.append(("structure", "%s %d covers [%d, +%d) where [%d, ...) is due" % (name, i, s, c, at)))
            return False
        at += c
    if at != n:
        out.append(("structure", "%s ranges cover %d of %d" % (name, at, n)))
        return False
    return True


def structure(r, riscv=False):
    """processors, cores, clusters and packages form one consistent nested hierarchy

    On RISC-V, core and cluster ids are the kernel's, threads are not numbered, and a cluster is described by its first core."""
    out = []
    P, C, L, K = r["procs"], r["cores"], r["clusters"], r["packages"]
    if not P or not C or not L or not K:
        return [("structure", "an empty level: %d processors, %d cores, %d clusters, %d packages" % (
            len(P), len(C), len(L), len(K)))]
    ok = _partition("core: processors", [c[0:2] for c in C], len(P), out)
    ok &= _partition("cluster: processors", [c[0:2] for c in L], len(P), out)
    ok &= _partition("cluster: cores", [c[2:4] for c in L], len(C), out)
    ok &= _partition("package: processors", [k[1:3] for k in K], len(P), out)
    ok &= _partition("package: cores", [k[3:5] for k in K], len(C), out)
    ok &= _partition("package: clusters", [k[5:7] for k in K], len(L), out)
    for i, p in enumerate(P):
        for what, idx, arr, st in (("core", p[1], C, 0), ("cluster", p[2], L, 0), ("package", p[3], K, 1)):
            if not 0 <= idx < len(arr):
                out.append(("structure", "processor %d points outside the %s array (%d)" % (i, what, idx)))
                return out
            s, c = arr[idx][st:st + 2]
            if not s <= i < s + c:
                out.append(("structure", "processor %d refers to %s %d, which covers [%d, +%d)" % (i, what, idx, s, c)))
        if ok and not riscv and p[0] != i - C[p[1]][0]:
            out.append(("structure", "processor %d has SMT id %d in core %d, which starts at %d" % (
                i, p[0], p[1], C[p[1]][0])))
    if not ok:
        return out
    for i, c in enumerate(C):
        members = range(c[0], c[0] + c[1])
        if not (0 <= c[3] < len(L)) or not (0 <= c[4] < len(K)):
            out.append(("structure", "core %d points outside the arrays: cluster %d, package %d" % (i, c[3], c[4])))
            return out
        if any(P[m][2] != c[3] or P[m][3] != c[4] for m in members):
            out.append(("structure", "core %d disagrees with its processors on cluster or package" % i))
        if not L[c[3]][2] <= i < L[c[3]][2] + L[c[3]][3]:
            out.append(("structure", "core %d refers to cluster %d, whose core range does not contain it" % (i, c[3])))
        if not K[c[4]][3] <= i < K[c[4]][3] + K[c[4]][4]:
            out.append(("structure", "core %d refers to package %d, whose core range does not contain it" % (i, c[4])))
        elif not riscv and c[2] != i - K[c[4]][3]:
            out.append(("structure", "core %d has id %d within a package whose cores start at %d" % (
                i, c[2], K[c[4]][3])))
        cl = L[c[3]]
        if not riscv and (c[5], c[6], c[7]) != (cl[6], cl[7], cl[8]):
            out.append(("structure", "core %d and its cluster differ in vendor, microarchitecture or id" % i))
    for i, c in enumerate(L):
        if not 0 <= c[5] < len(K):
            out.append(("structure", "cluster %d points outside the package array" % i))
            return out
        k = K[c[5]]
        if not k[5] <= i < k[5] + k[6]:
            out.append(("structure", "cluster %d refers to package %d, whose range does not contain it" % (i, c[5])))
        elif not riscv and c[4] != i - k[5]:
            out.append(("structure", "cluster %d has id %d within a package whose clusters start at %d" % (i, c[4], k[5])))
        if any(P[m][2] != i or P[m][3] != c[5] for m in range(c[0], c[0] + c[1])):
            out.append(("structure", "cluster %d disagrees with its processors" % i))
    U = r["uarchs"]
    if not U:
        out.append(("structure", "no microarchitecture is listed"))
    if sum(u[2] for u in U) != len(P) or sum(u[3] for u in U) != len(C):
        out.append(("structure", "microarchitecture counts %r do not add up to %d processors, %d cores" % (
            [u[2:4] for u in U], len(P), len(C))))
    for u in {u[0] for u in U} | {c[6] for c in C}:
        if sum(x[2] for x in U if x[0] == u) != sum(c[1] for c in C if c[6] == u) or \
           sum(x[3] for x in U if x[0] == u) != sum(1 for c in C if c[6] == u):
            out.append(("structure", "microarchitecture %#x: the list and the cores disagree" % u))
    return out


def caches(r):
    """every cache names exactly the processors that name it; sizes are consistent"""
    out = []
    P = r["procs"]
    n = len(P)
    for lv in range(5):
        arr = r["caches"][lv]
        at = 0
        for k, c in enumerate(arr):
            size, ways, sets, parts, line, flags, st, cnt = c
            if cnt == 0 or st < at or st + cnt > n:
                out.append(("cache", "%s %d covers processors [%d, +%d) of %d" % (LV[lv], k, st, cnt, n)))
                return out
            at = st + cnt
            for i in range(st, st + cnt):
                if P[i][6 + lv] != k:
                    out.append(("cache", "%s %d covers processor %d, which names %s %d" % (
                        LV[lv], k, i, LV[lv], P[i][6 + lv])))
                    return out
            if size == 0 or line == 0 or ways == 0:
                out.append(("cache", "%s %d has size %d, %d ways, line %d" % (LV[lv], k, size, ways, line)))
            if size != (ways * sets * parts * line) & 0xFFFFFFFF:
                out.append(("cache", "%s %d: size %d is not %d ways x %d sets x %d partitions x %d bytes" % (
                    LV[lv], k, size, ways, sets, parts, line)))
        for i, p in enumerate(P):
            k = p[6 + lv]
            if k == -1:
                continue
            if not 0 <= k < len(arr):
                out.append(("cache", "processor %d points outside the %s array (%d of %d)" % (i, LV[lv], k, len(arr))))
                return out
            if not arr[k][6] <= i < arr[k][6] + arr[k][7]:
                out.append(("cache", "processor %d names %s %d, which covers [%d, +%d)" % (
                    i, LV[lv], k, arr[k][6], arr[k][7])))
                return out
    return out
