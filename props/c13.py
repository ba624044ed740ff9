"""standard normalisation is the mean over the frame pairs of the (background subtracted) products"""
from .norms import *

BOUNDS = "quick: 3 frames, frame shapes (3,), (1,2), regular times and fixed irregular times with delays that never occur; thorough: 4..5 frames, more times"
OUTSIDE = "IEEE rounding; sizes beyond the bounds; overflow for counts of zero"
STUBS = "progress printing"

TIMES = {"regular": None, "irregular": ([0, 1, 4], [0, 2, 3]), "unsorted": ([2, 0, 5], [1, 6, 0])}


def case(P, cd, shape, times, n, norm, cplx, cross, raw_norm=None, given=False):
    t1, t2 = TIMES[times] if TIMES[times] else (arange(shape[0]), arange(shape[0]))
    if not cross:
        t2 = t1
    data, bg, va, raw = setup(P, cd, shape, t1 if times != "regular" else None, t2, n, raw_norm or norm, cplx, cross, "corr")
    kw = {}
    if given:
        out = P.array(np.zeros(data[0].shape), "c16" if cplx else "f8")
        kw["out"] = out
    got = cd.norm.normalize(data, bg, va, norm=norm, **kw)
    if given:
        P.same("output array is used", got is out, True)
    compare(P, "normalised", got, pixels(shape, raw, t1, t2, n, norm, cplx, cross, "corr"))


def invariant(P, cd, shape, n, norm, cplx, cross):
    """a constant added to all frames of a camera (and its background) changes nothing"""
    data, bg, va, raw = setup(P, cd, shape, None, None, n, norm, cplx, cross, "corr")
    f1, f2, b1, b2, v1, v2 = raw
    a1, a2 = P.cplx("a1", shape[1:]), P.cplx("a2", shape[1:])
    one_ = cd.norm.normalize(data, bg, va, norm=norm)
    kw = dict(n=n, norm=raw_of(norm), complex=cplx, method="corr")
    if cross:
        d2 = cd.core.ccorr(f1 + a1, f2 + a2, **kw)
        bg2 = bg if norm & COMP and not norm & SUBT else (b1 + a1, b2 + a2)
    else:
        d2 = cd.core.acorr(f1 + a1, **kw)
        bg2 = bg if norm & COMP and not norm & SUBT else b1 + a1
    two = cd.norm.normalize(d2, bg2, va, norm=norm)
    P.eq("constant background", two, one_)


def level(P, cd, cross, norm, cplx):
    """multilevel data: every level is normalised with the same background"""
    shape, n = (2, 3, 2), 2
    fs = shape[1:]
    N = 2
    b1, b2 = P.cplx("b1", fs), P.cplx("b2", fs)
    v1, v2 = P.real("v1", fs), P.real("v2", fs)
    parts, cnt = [], []
    m = 2 * n - 1 if cplx and cross else n
    for l in range(2):
        f1, f2 = P.cplx("f1%d" % l, (3 + l,) + fs), P.cplx("f2%d" % l, (3 + l,) + fs)
        kw = dict(n=n, norm=raw_of(norm), complex=cplx, method="corr")
        parts.append(cd.core.ccorr(f1, f2, **kw) if cross else cd.core.acorr(f1, **kw))
    np_ = P.np
    data = tuple(None if parts[0][k] is None else np_.stack([p[k] for p in parts], 0) for k in range(5))
    got = cd.norm.normalize(data, (b1, b2) if cross else b1, (v1, v2) if cross else v1, norm=norm)
    for l in range(2):
        one_ = cd.norm.normalize(parts[l], (b1, b2) if cross else b1, (v1, v2) if cross else v1, norm=norm)
        P.eq("level %d" % l, got[l], one_)


def two_rows(P, cd):
    """auto-correlation data of frames with two rows: the background is one array"""
    shape = (3, 2, 2)
    data, bg, va, raw = setup(P, cd, shape, None, None, 2, 1, False, False, "corr")
    got = cd.norm.normalize(data, bg, va, norm=1)
    t = arange(3)
    compare(P, "normalised", got, pixels(shape, raw, t, t, 2, 1, False, False, "corr"))


def cases(tier):
    th = tier == "thorough"
    out = []

    def add(**k):
        n = nm("cross" if k["cross"] else "auto", "norm", k["norm"], "of" if k.get("raw_norm") else "", k.get("raw_norm"), k["shape"], k["times"], "delays", k["n"], "complex" if k["cplx"] else "", "out" if k.get("given") else "")
        out.append(Case(n, case, k))
    std = (1, 5, 9, 13)
    for cross in (True, False):
        for cplx in (False, True):
            for norm in std:
                for times in TIMES:
                    add(shape=(3, 1, 2), times=times, n=3, norm=norm, cplx=cplx, cross=cross)
                    add(shape=(3, 3), times=times, n=3, norm=norm, cplx=cplx, cross=cross)
                    if th:
                        add(shape=(3, 3, 1), times=times, n=5, norm=norm, cplx=cplx, cross=cross)
                add(shape=(3, 3), times="regular", n=3, norm=norm, cplx=cplx, cross=cross, raw_norm=7)
                add(shape=(3, 3), times="regular", n=2, norm=norm, cplx=cplx, cross=cross, given=True)
                if th:
                    add(shape=(5, 3), times="regular", n=5, norm=norm, cplx=cplx, cross=cross)
                    add(shape=(4, 1, 1), times="regular", n=4, norm=norm, cplx=cplx, cross=cross)
                out.append(Case(nm("levels", "cross" if cross else "auto", norm, "complex" if cplx else ""), level, dict(cross=cross, norm=norm, cplx=cplx)))
                if norm != 1 and not (cplx and not cross):
                    out.append(Case(nm("invariance", "cross" if cross else "auto", norm, "complex" if cplx else ""), invariant, dict(shape=(3, 3), n=3, norm=norm, cplx=cplx, cross=cross)))
    out.append(Case("auto two rows", two_rows, {}))
    return out
