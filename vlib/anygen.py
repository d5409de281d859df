"""Random well-formed platforms of every personality."""
from . import armgen as A, osgen as O, rvgen as R, x86gen as X

PERS = ("x64", "x86", "arm64", "arm32", "andr64", "andr32", "rv64", "rv32")
BITS = {"x64": 64, "x86": 32, "arm64": 64, "arm32": 32, "andr64": 64, "andr32": 32, "rv64": 64, "rv32": 32}


def family(pers):
    return "x86" if pers in ("x64", "x86") else "riscv" if pers.startswith("rv") else "arm"


def base(rng, pers, big=False, partial=0.4):
    """(kind, description): the platform before its files are written"""
    f = family(pers)
    if f == "x86":
        s, cpus = X.gen_platform(rng, BITS[pers], big)
        return f, (s, cpus), [c[0] for c in cpus]
    if f == "riscv":
        m = R.platform(rng, big)
        return f, m, [c["id"] for c in m["cpus"]]
    android = pers.startswith("andr")
    m = A.partial(rng, BITS[pers], android) if rng.random() < partial and not big else A.full(rng, BITS[pers], android, big)
    if BITS[pers] == 64:
        m["hwcap"], m["hwcap2"] = rng.getrandbits(32), rng.getrandbits(32)
    else:
        m["hwcap"], m["hwcap2"] = rng.getrandbits(26), rng.getrandbits(5)
    return f, m, list(m["valid"])


def write(rng, f, d, chunk=True, present=None, possible=None, kmax=None):
    if f == "x86":
        s, cpus = d
        X.platform_files(rng, s, cpus, max_id=kmax, present=present, possible=possible, chunk=chunk)
        return s
    return (R if f == "riscv" else A).files(rng, d, chunk=chunk, present=present, possible=possible, kmax=kmax)


def scenario(rng, pers, big=False, chunk=True, partial=0.4):
    if pers in O.BITS:
        return O.scenario(rng, pers, big)
    f, d, ids = base(rng, pers, big, partial)
    s = write(rng, f, d, chunk)
    s.meta["usable"] = ids
    return s
