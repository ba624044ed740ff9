"""normalisation types: flags, strings, defaults and compatibility"""
from .norms import *

BOUNDS = "every flag combination, every string of up to 3 words (any case, spaces), every integer -1..17 and every kind of data tuple"
OUTSIDE = "strings of more words"
STUBS = "progress printing"
LEVEL = None

WORDS = {"baseline": 0, "none": 0, "standard": 1, "structured": 2, "weighted": 3, "subtracted": 4, "compensated": 8}


def flags(P, cd):
    v = [bool(P.choice(k, [False, True])) for k in ("structured", "subtracted", "weighted", "compensated")]
    s, b, w, c = v
    want = (3 if w else 2 if s else 1) + 4 * b + 8 * c
    P.same("flags", int(cd.norm.norm_flags(structured=s, subtracted=b, weighted=w, compensated=c)), want)
    kw = {k: True for k, x in zip(("structured", "subtracted", "weighted", "compensated"), v) if x}
    P.same("default flags", int(cd.norm.norm_flags(**kw)), want)


def strings(P, cd, n):
    ws = sorted(WORDS)
    pick = [P.choice("word%d" % i, ws) for i in range(n)]
    style = P.choice("style", [0, 1, 2])
    f = [lambda w: w, lambda w: " " + w.upper() + " ", lambda w: w.capitalize()][style]
    want = 0
    for w in pick:
        want |= WORDS[w]
    if want & 3 == 0:
        want |= 1
    P.same("string", int(cd.norm.norm_from_string("|".join(f(w) for w in pick))), want)


def bad_strings(P, cd):
    fn = cd.norm.norm_from_string
    for s in ("foo", "", "standard|foo", "standard+structured", "|", "norm_standard"):
        P.raises("string %r" % s, lambda: fn(s), ValueError)


def mkdata(P, cd, kind, cross, cplx=False):
    """raw data: kind 1,3,5,7 or 'diff2', 'diff6'"""
    f1, f2 = P.cplx("f1", (2, 3)), P.cplx("f2", (2, 3))
    diff = isinstance(kind, str)
    kw = dict(n=2, norm=int(kind[4:]) if diff else kind, method="diff" if diff else "corr")
    if not diff:
        kw["complex"] = cplx
    d = cd.core.ccorr(f1, f2, **kw) if cross else cd.core.acorr(f1, **kw)
    fs = (3,)
    bg = (P.cplx("b1", fs), P.cplx("b2", fs)) if cross else P.cplx("b1", fs)
    va = (P.real("v1", fs), P.real("v2", fs)) if cross else P.real("v1", fs)
    for v in (va if cross else (va,)):
        for q in range(3):
            P.assume(v[q] > 0)
    return d, bg, va


def allowed(kind, norm):
    if isinstance(kind, str):
        return norm in ((2, 6) if kind == "diff6" else (2,))
    have = kind | (8 if kind & 4 else 0)
    return norm in (1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15) and norm & have == norm


def compat(P, cd, kind, cross):
    """a type the data do not support is rejected, others are accepted, strings mean the same"""
    d, bg, va = mkdata(P, cd, kind, cross)
    fs = (3, 2)
    norm = P.choice("norm", list(range(-1, 18)))
    names = {1: "standard", 2: "structured", 3: "weighted"}
    kw = dict(weight=P.real("w", fs)) if norm > 0 and norm & 3 == 3 else {}
    fn = lambda n: cd.norm.normalize(d, bg, va, norm=n, **kw)
    if allowed(kind, norm):
        got = fn(norm)
        P.same("shape", tuple(got.shape), fs)
        s = "|".join([names[norm & 3]] + ["subtracted"] * bool(norm & 4) + ["compensated"] * bool(norm & 8))
        P.eq("string " + s, fn(s), got)
    else:
        P.raises("norm %d" % norm, lambda: fn(norm), ValueError)


DEF = {1: 1, 3: 3, 5: 5, 7: 7, "diff2": 2, "diff6": 6}


def default(P, cd, kind, cross, cplx):
    """the default is the richest type without compensation"""
    d, bg, va = mkdata(P, cd, kind, cross, cplx)
    want = DEF[kind]
    if kind == "diff6" and not cross:
        want = 2
    shape = tuple(d[0].shape)
    kw = dict(weight=P.real("w", shape)) if want & 3 == 3 else {}
    P.eq("default", cd.norm.normalize(d, bg, va, **kw), cd.norm.normalize(d, bg, va, norm=want, **kw))


def missing(P, cd, cross):
    d, bg, va = mkdata(P, cd, 7, cross)
    d2, _, _ = mkdata(P, cd, "diff2", cross)
    n = cd.norm.normalize
    for norm in (1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15):
        P.raises("no background, norm %d" % norm, lambda: n(d, None, va, norm=norm), ValueError)
        if norm & 2:
            P.raises("no variance, norm %d" % norm, lambda: n(d, bg, None, norm=norm), ValueError)
        P.raises("no variance, scaled, norm %d" % norm, lambda: n(d, bg, None, norm=norm, scale=True), ValueError)
        P.raises("no variance, difference, norm %d" % norm, lambda: n(d, bg, None, norm=norm, mode="diff"), ValueError)
    P.raises("difference data, no variance", lambda: n(d2, bg, None, norm=2), ValueError)
    got = n(d2, bg, None, norm=2, mode="diff")
    P.same("difference of difference data needs no variance", tuple(got.shape), (3, 2))
    for norm in (1, 5, 9, 13):
        P.same("no variance needed, norm %d" % norm, tuple(n(d, bg, None, norm=norm).shape), (3, 2))
    for mode in ("foo", "", None):
        P.raises("mode %r" % (mode,), lambda: n(d, bg, va, norm=1, mode=mode), ValueError)
    for bad in (d[:3], d + d, None, 3, ()):
        P.raises("not correlation data", lambda: n(bad, bg, va, norm=1), ValueError)


def cases(tier):
    out = [Case("flags", flags, {}), Case("bad strings", bad_strings, {})]
    for n in (1, 2) + ((3,) if tier == "thorough" else ()):
        out.append(Case("strings of %d words" % n, strings, dict(n=n)))
    for cross in (True, False):
        c = "cross" if cross else "auto"
        for kind in DEF:
            if kind == "diff6" and not cross:
                continue
            out.append(Case(nm("compatible", c, kind), compat, dict(kind=kind, cross=cross)))
            for cplx in (False, True):
                if not (cplx and isinstance(kind, str)):
                    out.append(Case(nm("default", c, kind, "complex" if cplx else ""), default, dict(kind=kind, cross=cross, cplx=cplx)))
        out.append(Case("missing " + c, missing, dict(cross=cross)))
    return out
