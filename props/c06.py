"""delay sums (cross_sum, auto_sum) used for normalisation compute their documented sums"""
from .common import *

BOUNDS = "quick: <= 4 frames, frame shapes (), (2,), (2,2), all axes, n_out 1..6, times 0..6; thorough: <= 6 frames, times 0..12"
OUTSIDE = "repeated times within one camera for auto_sum, IEEE rounding (the regular kernels are recursive), sizes beyond the bounds, races of parallel targets"


def case(P, cd, shape, axis, nout, irregular, align, T, pre, dt, cplx, inv, auto):
    n = shape[axis]
    f = (P.real if dt == "f" else P.cplx)("f", shape)
    kw = {}
    if irregular:
        t = times(P, "t", n, T)
        kw["t"] = t
        if not auto:
            kw["t_other"] = times(P, "to", n, T)
            to = lst(kw["t_other"])
        t = lst(t)
    else:
        t = to = arange(n)
    nn = n if nout is None else nout
    size = 2 * nn - 1 if cplx else nn
    fshape = tuple(s for k, s in enumerate(shape) if k != axis % len(shape))
    if pre:
        aout = (P.real if dt == "f" else P.cplx)("aout", fshape + (size,))
        base = aout.copy()
        kw["aout"] = aout
    elif nout is not None:
        kw["n"] = nout
    if auto:
        if irregular:
            distinct(P, t)
        out = cd.core.auto_sum(f, axis=axis, align=align, **kw)
        want = nd(P, [f], axis, lambda x: auto_sum(P, x, t, nn), nn)
    else:
        out = cd.core.cross_sum(f, axis=axis, align=align, complex=cplx, time_inversion=inv, **kw)
        want = nd(P, [f], axis, lambda x: cross_sum(P, x, t, to, nn, cplx, inv), size)
    if pre:
        for q in np.ndindex(*want.shape):
            want[q] = want[q] + base[q]
        P.eq("aout", aout, want)
    P.eq("sum", out, want)


def consist(P, cd, n, nout, T, cplx, irregular):
    """the sum of ones is the count; the direct sum is linear in its data"""
    t = times(P, "t", n, T) if irregular else None
    to = times(P, "to", n, T) if irregular else None
    c = cd.core.cross_count(t if irregular else n, to if irregular else n, n=nout, complex=cplx)
    one = P.array(np.ones((n, 1)))
    s = cd.core.cross_sum(one, t, to, n=nout, complex=cplx)
    P.eq("sum of ones is the count", s[0], c * 1.)
    if not cplx:
        if irregular:
            distinct(P, lst(t))
        s = cd.core.auto_sum(one, t, n=nout)
        c = cd.core.auto_count(t if irregular else n, n=nout)
        P.eq("auto sum of ones is the count", s[0], c * 1.)


def cases(tier):
    out = []
    th = tier == "thorough"
    for shape, axis, align in layouts(tier):
        n = shape[axis]
        for irr in (False, True):
            for nout, pre in ((max(1, n - 1), False), (1, False), (n + 2, False), (n, True), (None, False)):
                if nout is None and irr or nout == 1 and len(shape) == 3:
                    continue
                for dt in "fc":
                    if dt == "f" and len(shape) == 3:
                        continue
                    for cplx, inv, auto in ((False, False, False), (False, True, False), (True, False, False), (True, True, False), (False, False, True)):
                        if not irr and not auto and inv and not cplx and pre:
                            continue
                        out.append(Case(nm("auto" if auto else "cross", shape, "axis", axis, "align" if align else "", "irr" if irr else "reg", "cplx" if cplx else "", "inv" if inv else "", dt, "n", str(nout), "aout" if pre else ""),
                                        case, dict(shape=shape, axis=axis, nout=nout, irregular=irr, align=align, T=2 * n if th else 6, pre=pre, dt=dt, cplx=cplx, inv=inv, auto=auto)))
    for irr in (False, True):
        for cplx in (False, True):
            out.append(Case(nm("sum of ones", "irr" if irr else "reg", "cplx" if cplx else ""), consist, dict(n=4 if th else 3, nout=5, T=5, cplx=cplx, irregular=irr)))
    return out
