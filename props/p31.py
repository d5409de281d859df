"""Windows on x86: the report follows the system's processor groups, cores and packages, and CPUID."""
from props import p14, p17, p19
from props.p27 import gen, judge, under
from vlib.core import Part

RULE = ("random Windows systems on x86: packages, cores of equal and of different thread counts, processors split over groups of up to 64 (32), "
        "Wine, random CPUID of every topology and cache path; and the instruction set, vendor, microarchitecture and name workloads of the Linux "
        "checks; a case counts once per distinct (counts, cache geometry) or identity observed")
ASSUMPTIONS = ["the Windows calls are answered by the harness, with the sources compiled as on Windows",
               "packages and cores are listed in the order of their processors, all processors are active, and no core is split over groups"]


def run(rep, tier):
    k = 1 if tier == "quick" else 40
    parts = [Part("hierarchy and caches " + p, p, n * k, gen(p), judge) for p, n in (("win64", 3500), ("win32", 1500))]
    parts += [Part("instruction sets win64", "win64", len(p14.WALK) + 4096 + 800 * k, under(p14, "win64"), p14.judge, san="plain", batch=200),
              Part("identity win64", "win64", len(p17.SIGS) + 800 * k, under(p17, "win64"), p17.judge, san="plain", batch=200),
              Part("name win64", "win64", 2000 * k, under(p19, "win64"), p19.judge, batch=200)]
    rep.run_parts(parts)
    return rep.finish()
