"""Reference model of the x86 package name."""
import re

VENDOR = {"intel": "Intel", "amd": "AMD", "via": "VIA", "hygon": "Hygon", "rdc": "RDC", "dmp": "DM&P", "transmeta": "Transmeta",
          "cyrix": "Cyrix", "rise": "Rise", "nsc": "NSC", "sis": "SiS", "nexgen": "NexGen", "umc": "UMC"}
# words without information about the model
DROP = {"CPU", "AMD", "VIA", "IDT", "Intel", "Cyrix", "family", "Genuine", "12-Core", "16-Core", "Processor", "processor", "Transmeta"}
CORES = {"QuadCore", "Six-Core", "Dual-Core", "Quad-Core", "Eight-Core", "Triple-Core"}
# words from which on nothing belongs to the name
STOP = {"w/", "SOC", "MMX", "APU", "Radeon", "RADEON"}


class Unclear(Exception):
    """the documentation does not say what becomes of this string"""


def normalize(raw):
    """the brand string (48 characters) without decoration"""
    t = raw.rstrip("\0")
    at = t.rfind("@")
    t = re.sub(r"\([^)]*\)?", lambda m: " " * len(m.group(0)), t)
    t = t.replace(")", " ").replace("@", " ").replace("\0", " ").replace("\t", " ")
    words = [[m.start(), m.group(0)] for m in re.finditer("[^ ]+", t)]
    kept = []  # [word, before the separator]
    model = freq = False
    prev = ""
    for pos, w in words:
        last, prev = prev, ""
        if model and 0 <= at < pos:
            continue
        if len(w) > 2 and re.search("[0-9A-Z]tm$", w):
            w = w[:-2]
        if len(w) > 4 and w.startswith("AMD-"):
            w = w[4:]
        early = at >= 0 and pos < at
        if re.fullmatch("[A-Z]", w):
            prev = "letter"
            kept.append([w, early])
            continue
        if w in STOP:
            break
        if re.fullmatch("V[0-9]", w):
            kept.append(["v" + w[1], early])
            continue
        if w in DROP:
            continue
        if w == "Core" and last == "Dual":
            kept.pop()
            prev = "cores"
            continue
        if w == "Geode":
            kept.append([w, early])
            break
        if w == "model":
            prev = "model"
            kept.append([w, early])
            continue
        if w == "Mobile" and last == "cores":
            continue
        if w == "unknown" and last == "model":
            kept.pop()
            continue
        if w in ("Sample", "Sample,", "Sample:"):
            if last == "eng":
                return ""
            if any(k in ("Eng", "Engineering") for k, _ in kept):
                raise Unclear
        if w in CORES:
            prev = "cores"
            continue
        if w == "Dual":
            prev = "Dual"
        if w in ("Eng", "Engineering"):
            prev = "eng"
            if w == "Engineering":
                kept.append([w, early])
                continue
        if set(w) == {"0"}:
            continue
        if last == "letter" and re.fullmatch("[0-9]{2,5}", w):
            w += kept.pop()[0]
        if at >= 0 and re.search("[0-9][0-9]", w):
            model = True
        if re.search("[^\0][KMG]Hz$", w) and len(w) > 3:
            freq = True
        kept.append([w, early])
    if at >= 0 and not any(e for _, e in kept):
        return ""
    s, n = "", 1
    for w, _ in kept:
        if s and not w.startswith("-") and not s.endswith("-"):
            s += " "
            n += 1
        s += w
    if freq and n <= 1:
        return ""
    return s[:47]


def package_name(vendor, raw):
    n = normalize(raw)
    if n and vendor in VENDOR:
        n = VENDOR[vendor] + " " + n
    return n[:47]
