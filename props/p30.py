"""FreeBSD, macOS, iOS, WebAssembly and Windows: senseless kernel and CPUID answers do no harm."""
from props.p01 import judge
from vlib import hostile as H, osgen as O
from vlib.core import Part
from vlib.scenario import OPT_EVENTS

RULE = ("systems other than Linux whose sysctl answers are missing, of the wrong size, negative, inconsistent or damaged, whose Windows cache records "
        "and registry entries are senseless, with random CPUID registers and brand strings, under ASan+UBSan and MSan, at normal and full logging; a case counts once per distinct (outcome, counts of "
        "all objects, answers read)")
ASSUMPTIONS = ["strings are terminated, as the kernels' are", "counts are integers of at most 4 bytes and together allow at most 20000 processors",
               "cache lines have less than 64 KB", "the records of Windows have their own size"]


def gen(pers):
    def f(rng, i):
        s = H.scenario(rng, pers)
        s.opts = OPT_EVENTS
        return s
    return f


def run(rep, tier):
    k = 1 if tier == "quick" else 60
    rep.run_parts([Part(p, p, 1200 * k if not p.startswith("wasm") else 300 * k, gen(p), judge) for p in O.PERS] +
                  [Part(p + " debug log", p, 300 * k, gen(p), judge, log_level=5) for p in O.PERS] +
                  [Part(p + " uninitialised", p, 700 * k, gen(p), judge, san="msan", log_level=5) for p in ("fbsd64", "mac64", "macarm", "ios", "win64", "winarm")])
    return rep.finish()
