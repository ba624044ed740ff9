"""cross_difference / auto_difference compute their documented sums"""
from .common import *

BOUNDS = "quick: <= 4 frames, frame shapes (), (2,), (2,2), all axes, n_out 1..6, times 0..6; thorough: <= 6 frames, times 0..12"
OUTSIDE = "IEEE rounding, sizes beyond the bounds, races of parallel targets"


def case(P, cd, shape, axis, nout, irregular, align, T, pre, cross, realdata=False):
    n = shape[axis]
    mk = P.real if realdata else P.cplx
    f1 = mk("f1", shape)
    f2 = mk("f2", shape) if cross else None
    kw = {}
    if irregular:
        t1 = times(P, "t1", n, T)
        t2 = times(P, "t2", n, T) if cross else t1
        kw.update(dict(t1=t1, t2=t2) if cross else dict(t=t1))
        t1, t2 = lst(t1), lst(t2)
    else:
        t1 = t2 = arange(n)
    size = n if nout is None else nout
    fshape = tuple(s for k, s in enumerate(shape) if k != axis % len(shape))
    if pre:
        aout = P.real("aout", fshape + (size,))
        base = aout.copy()
        kw["aout"] = aout
    elif nout is not None:
        kw["n"] = nout
    if cross:
        out = cd.core.cross_difference(f1, f2, axis=axis, align=align, **kw)
        want = nd(P, [f1, f2], axis, lambda x, y: cross_diff(P, x, y, t1, t2, size), size)
    else:
        out = cd.core.auto_difference(f1, axis=axis, align=align, **kw)
        want = nd(P, [f1], axis, lambda x: auto_diff(P, x, t1, size), size)
    if pre:
        for q in np.ndindex(*want.shape):
            want[q] = want[q] + base[q]
        P.eq("aout", aout, want)
    P.eq("difference", out, want)


def corrrel(P, cd, n, nout, T, cross):
    """difference = sum of squares - 2 * correlation, for the same arguments"""
    f1, f2 = P.cplx("f1", (n, 1)), P.cplx("f2", (n, 1))
    t1, t2 = times(P, "t1", n, T), times(P, "t2", n, T)
    if cross:
        d = cd.core.cross_difference(f1, f2, t1, t2, n=nout)
        c = cd.core.cross_correlate(f1, f2, t1, t2, n=nout)
        s = cd.core.cross_sum(cd.core.abs2(f1), t1, t2, n=nout)
        s = cd.core.cross_sum(cd.core.abs2(f2), t2, t1, n=nout, aout=s)
    else:
        distinct(P, lst(t1))
        d = cd.core.auto_difference(f1, t1, n=nout)
        c = cd.core.auto_correlate(f1, t1, n=nout)
        s = cd.core.auto_sum(2 * cd.core.abs2(f1), t1, n=nout)
    P.eq("difference relation", d, s - 2 * c)


def cases(tier):
    out = []
    th = tier == "thorough"
    for cross in (True, False):
        for shape, axis, align in layouts(tier):
            n = shape[axis]
            for irr in (False, True):
                for nout, pre in ((max(1, n - 1), False), (n + 2, False), (n, True), (None, False)):
                    if nout is None and irr:
                        continue
                    out.append(Case(nm("cross" if cross else "auto", shape, "axis", axis, "align" if align else "", "irr" if irr else "reg", "n", str(nout), "aout" if pre else ""),
                                    case, dict(shape=shape, axis=axis, nout=nout, irregular=irr, align=align, T=2 * n if th else 6, pre=pre, cross=cross)))
        out.append(Case(nm("float data", "cross" if cross else "auto"), case, dict(shape=(3, 2), axis=0, nout=3, irregular=True, align=False, T=5, pre=False, cross=cross, realdata=True)))
        out.append(Case(nm("relation to correlation", "cross" if cross else "auto"), corrrel, dict(n=4 if th else 3, nout=4, T=5, cross=cross)))
    return out
