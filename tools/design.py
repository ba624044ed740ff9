"""Writes DESIGN.md from design_head.md, the property table and the oracle texts below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import props_def

ORACLE = {
 "C01": "The documented double sum over frame pairs, written out over the symbolic frames; the pair selection is an if-then-else over the symbolic times (|t1-t2| = k), one assertion per output element. Output arrays start with symbolic content (accumulation) where an array is supplied, otherwise must be zero.",
 "C02": "As C01, over unordered pairs of one data set.",
 "C03": "The direct sum of C01/C02/C06 (not cddm's direct kernel). The FFT back end is its contract: exact DFT as linear form with rational or algebraic twiddle factors, so the padding length, placing of frames at symbolic times, conjugation, wrap-around and cropping are cddm's real code.",
 "C04": "Sum of |a-b|^2 over pairs, plus the identity difference = squares - 2 correlation.",
 "C05": "Number of pairs as a sum of 0/1 if-then-else over symbolic times.",
 "C06": "Sum of the frame values over pairs; for auto data the mean of both partners.",
 "C07": "The tuple (corr/diff, count, squares, data) of the oracles of C01-C06 for each (method, norm, complex, axis, align, n, times); accumulation with `aout`; defaults; ValueError of invalid combinations.",
 "C08": "The oracle of C07 over the first `count` frames of the stream, with generators as input; the viewer's intermediate results are compared with the frames consumed so far, and a source shorter than the count must raise.",
 "C09": "Binning written down as mathematics (mean / first / random member of each pair per level, times halved), then the oracle of C07 per level.",
 "C10": "As C09, for streams: per level the linear correlation of the binned stream restricted to the processed frames. Slow levels for which enough frames exist must be present.",
 "C11": "The result computed on frames moved/flattened/masked by numpy indexing against the result with `axis`, `mask`, `thread_divisor`, reshape helpers.",
 "C12": "Mean and variance over the processed frames (formulas), for every chunk size, mask, thread divisor and automatic background.",
 "C13": "Mean over the frame pairs of the product of (background subtracted) frames, computed from the frames, not from the raw tuple.",
 "C14": "Variance minus half the mean squared difference over the frame pairs; the linear relations between modes; scaling by the mean variance.",
 "C15": "w*structured + (1-w)*standard with a symbolic weight; the closed formula of the weight for symbolic g, delta; quadratic minimality and 0..1 range as nonlinear real queries. The smoothing filter is replaced by an arbitrary array so that the result must hold for every smoothing.",
 "C16": "A table of the documented words and bits; finite, every element enumerated through the symbolic choice variables.",
 "C17": "numpy boolean indexing with every mask; formulas for scale, noise; inputs compared with their symbolic values afterwards.",
 "C18": "The triangular kernel average and the point positions as index formulas; each returned time must carry the averaged value of that time.",
}
REACH = {
 "C01": "pairs at the very edge of the output, unsorted times, delays longer than the data",
 "C02": "unsorted times with complex output, output sizes beyond the data",
 "C03": "aliasing, which needs delays or times that reach the padding length",
 "C04": "irregular unsorted times, more delays than frames",
 "C05": "all time lists of the bounds at once, including negative and repeated times",
 "C06": "recursion errors of the regular kernels at the last delays, signed delays",
 "C07": "(method, norm, layout) combinations that no test has",
 "C08": "chunk borders for every (chunk, stream, delay) combination",
 "C09": "odd remainders, level sizes and picks other than the tested ones",
 "C10": "stale or missing buffers, which need a particular (chunk, level, length)",
 "C11": "any axis and mask, not one",
 "C12": "chunk borders and unequal backgrounds of the cameras",
 "C13": "constant offsets that cancel for random data of mean zero; irregular counts",
 "C14": "imaginary part, missing delays and combinations of mode and scale",
 "C15": "units, cameras of unequal variance, complex data",
 "C16": "all combinations",
 "C17": "every mask; inputs that are changed silently",
 "C18": "delays that are not powers of two times the level size",
}
try:
    exec(open(os.path.join(V, "tools", "design_more.py")).read())
except FileNotFoundError:
    pass


def bounds(pid, what):
    s = open(os.path.join(V, "props", pid.lower() + ".py")).read()
    m = re.search(r"^%s = (.*?)\n(?=[A-Z\n#]|def |from |import )" % what, s, re.S | re.M)
    return eval(m.group(1)) if m else ""


def main():
    s = open(os.path.join(V, "tools", "design_head.md")).read()
    o = ["## Properties\n"]
    for p in props_def.P:
        pid = p["id"]
        f = os.path.join(V, "props", pid.lower() + ".py")
        if pid in props_def.NA or not os.path.exists(f):
            continue
        c = ""
        try:
            e = json.load(open(os.path.join(V, "tools", "cost.json")))[pid]
            c = " *Cost (quick):* %s." % e
        except (OSError, KeyError):
            pass
        o.append("**%s %s.** *Code:* %s. *Symbolic:* %s. *Oracle:* %s *Bounds:* %s. *Outside:* %s.%s *Beyond tests:* %s.\n" % (
            pid, p["title"], "; ".join(a + " (" + b + ")" for a, b in p["mech"]), p["text"], ORACLE.get(pid, ""), bounds(pid, "BOUNDS"), bounds(pid, "OUTSIDE") or "sizes beyond the bounds", c, REACH.get(pid, p["why"])))
    k = json.load(open(os.path.join(V, "known_findings.json")))
    fx = "".join("* %s\n" % x.replace("fixed: property=", "") for x in k["fixed"])
    kn = "".join("* %s, case `%s`, assertion `%s`: %s\n" % (x["property"], x["case"], x["label"], x["what"]) for x in k["findings"])
    try:
        res = json.load(open(os.path.join(V, "tools", "plant_results.json")))
    except OSError:
        res = {}
    sd = ["| change | property | needs | caught by |", "|---|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
        sd.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), res.get(d, "not run")))
    na = "## Not applicable\n\n" + "".join("* %s: %s\n" % (k, v) for k, v in props_def.NA.items())
    for a, b in (("PROPS", "\n".join(o)), ("FIXES", "Each is one `fix:` commit in /repo (see `known_findings.json`).\n\n" + fx), ("KNOWN", kn), ("SEEDS", "\n".join(sd)), ("NA", na)):
        s = s.replace("@@%s@@" % a, b)
    open(os.path.join(V, "DESIGN.md"), "w").write(s)


main()
