"""ARM and RISC-V: damaged or malicious kernel files, properties and registers do no harm."""
from vlib.core import Part
from props.p01 import gen, judge

RULE = ("valid systems with damaged, truncated, exchanged, missing or random kernel files and auxiliary vectors, hardware and property strings near "
        "those of known chipsets, random id registers and probing answers, under ASan+UBSan and MSan, at normal and full logging; a case "
        "counts once per distinct (outcome, counts of all objects, reads made)")
ASSUMPTIONS = ["processor lists and kernel limit together allow at most 20000 processors"]


def run(rep, tier):
    k = 1 if tier == "quick" else 60
    rep.run_parts([Part(p, p, n * k, gen(p), judge) for p, n in (
        ("arm64", 3500), ("arm32", 3500), ("andr64", 2000), ("andr32", 2500), ("rv64", 2000), ("rv32", 800))] +
        [Part(p + " debug log", p, 600 * k, gen(p), judge, log_level=5) for p in ("arm64", "arm32", "andr64", "andr32", "rv64", "rv32")] +
        [Part(p + " uninitialised", p, n * k, gen(p), judge, san="msan", log_level=5) for p, n in (
            ("arm64", 1500), ("andr64", 800), ("rv64", 800))])
    return rep.finish()
