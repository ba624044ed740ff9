"""structured normalisation, difference data, representation modes and scaling"""
from .norms import *

BOUNDS = "quick: 3 frames, frame shapes (3,), (1,2), regular times and fixed irregular times with delays that never occur; thorough: 4..5 frames"
OUTSIDE = "IEEE rounding; sizes beyond the bounds; variances with v1 + v2 = 0 when scaling"
STUBS = "progress printing"

TIMES = {"regular": None, "irregular": ([0, 1, 4], [0, 2, 3])}


def case(P, cd, shape, times, n, norm, cplx, cross, method, mode, scale, multi=False):
    t1, t2 = TIMES[times] if TIMES[times] else (arange(shape[0]), arange(shape[0]))
    if not cross:
        t2 = t1
    data, bg, va, raw = setup(P, cd, shape, t1 if times != "regular" else None, t2, n, norm, cplx, cross, method)
    f1, f2, b1, b2, v1, v2 = raw
    if scale:
        for q in np.ndindex(*shape[1:]):
            P.assume(v1[q] + v2[q] > 0)
    kw = dict(mode=mode) if mode != "corr" else {}
    if scale:
        kw["scale"] = True
    got = cd.norm.normalize(data, bg, va, norm=norm, **kw)

    def fn(e, v):
        if mode == "diff":
            e = (v - e) * 2
        return e / v if scale else e
    compare(P, "normalised", got, pixels(shape, raw, t1, t2, n, norm, cplx, cross, method, fn))


def agree(P, cd, shape, n, cross, mode):
    """difference data and structured correlation data give the same"""
    fs = shape[1:]
    f1, b1, v1 = P.cplx("f1", shape), P.cplx("b1", fs), P.real("v1", fs)
    if cross:
        f2, b2, v2 = P.cplx("f2", shape), P.cplx("b2", fs), P.real("v2", fs)
        bg, va = (b1, b2), (v1, v2)
    else:
        bg, va = b1, v1
    for norm in ((2, 6) if cross else (2,)):
        if cross:
            d = cd.core.ccorr(f1, f2, n=n, norm=norm, method="diff")
            c = cd.core.ccorr(f1, f2, n=n, norm=norm, method="corr")
            f = cd.core.ccorr(f1, f2, n=n, norm=norm, method="fft")
        else:
            d = cd.core.acorr(f1, n=n, norm=norm, method="diff")
            c = cd.core.acorr(f1, n=n, norm=norm, method="corr")
            f = cd.core.acorr(f1, n=n, norm=norm, method="fft")
        nn = cd.norm.normalize
        want = nn(c, bg, va, norm=norm, mode=mode)
        P.eq("difference method, norm %d" % norm, nn(d, bg, va, norm=norm, mode=mode), want)
        P.eq("fft method, norm %d" % norm, nn(f, bg, va, norm=norm, mode=mode), want)


def stats_zero(P, cd, shape, cross):
    """with the real background and variance: difference at zero delay of one camera is zero, the
    scaled structured correlation one"""
    f = P.cplx("f", shape)
    m, v = cd.core.stats(f)
    for q in np.ndindex(*shape[1:]):
        P.assume(v[q] > 0)
    if cross:
        data, bg, va = cd.core.ccorr(f, f, n=2, norm=6, method="corr"), (m, m), (v, v)
    else:
        data, bg, va = cd.core.acorr(f, n=2, norm=6, method="corr"), m, v
    for norm in (2, 6, 10):
        got = cd.norm.normalize(data if norm != 2 else data, bg, va, norm=norm, scale=True)
        P.eq("zero delay, norm %d" % norm, got[..., 0], np.ones(shape[1:]))
        got = cd.norm.normalize(data, bg, va, norm=norm, mode="diff", scale=True)
        P.eq("zero delay difference, norm %d" % norm, got[..., 0], np.zeros(shape[1:]))


def cases(tier):
    th = tier == "thorough"
    out = []

    def add(**k):
        n = nm(k["method"], "cross" if k["cross"] else "auto", "norm", k["norm"], k["shape"], k["times"], "delays", k["n"], "complex" if k["cplx"] else "", "mode", k["mode"], "scaled" if k["scale"] else "")
        out.append(Case(n, case, k))
    for cross in (True, False):
        for cplx in (False, True):
            for norm in (2, 6, 10, 14, 1, 5, 9, 13):
                for mode in ("corr", "diff"):
                    for scale in (False, True):
                        if norm & 1 and mode == "corr" and not scale:
                            continue
                        for times in TIMES:
                            for shape in ((3, 1, 2), (3, 3)):
                                if (shape == (3, 3)) == scale and not th:
                                    continue
                                add(shape=shape, times=times, n=3, norm=norm, cplx=cplx, cross=cross, method="corr", mode=mode, scale=scale)
                        if th:
                            add(shape=(4, 3), times="regular", n=4, norm=norm, cplx=cplx, cross=cross, method="corr", mode=mode, scale=scale)
        for norm in ((2, 6) if cross else (2,)):
            for mode in ("corr", "diff"):
                for scale in (False, True):
                    for times in TIMES:
                        add(shape=(3, 3), times=times, n=3, norm=norm, cplx=False, cross=cross, method="diff", mode=mode, scale=scale)
                        add(shape=(3, 1, 2), times=times, n=2, norm=norm, cplx=False, cross=cross, method="diff", mode=mode, scale=scale)
        for mode in ("corr", "diff"):
            out.append(Case(nm("methods agree", "cross" if cross else "auto", mode), agree, dict(shape=(3, 3), n=3, cross=cross, mode=mode)))
        out.append(Case(nm("zero delay", "cross" if cross else "auto"), stats_zero, dict(shape=(2, 1), cross=cross)))
    return out
