"""auto_correlate computes its documented sum"""
from .common import *

BOUNDS = "quick: <= 4 frames, frame shapes (), (2,), (2,2), all axes, n_out 1..9, times 0..6; thorough: <= 6 frames, times 0..14, n_out <= 12"
OUTSIDE = "IEEE rounding, sizes beyond the bounds, races of parallel targets"


def case(P, cd, shape, axis, nout, irregular, cplx, align, T, pre, realdata):
    n = shape[axis]
    f = (P.real if realdata else P.cplx)("f", shape)
    kw = {}
    if irregular:
        kw["t"] = times(P, "t", n, T)
        t = lst(kw["t"])
    else:
        t = arange(n)
    size = n if nout is None else nout
    fshape = tuple(s for k, s in enumerate(shape) if k != axis % len(shape))
    if pre:
        aout = (P.cplx if cplx else P.real)("aout", fshape + (size,))
        base = aout.copy()
        kw["aout"] = aout
    elif nout is not None:
        kw["n"] = nout
    out = cd.core.auto_correlate(f, axis=axis, align=align, complex=cplx, **kw)
    fn = auto_corr_complex if cplx else auto_corr
    want = nd(P, [f], axis, lambda x: fn(P, x, t, size), size)
    if pre:
        for q in np.ndindex(*want.shape):
            want[q] = want[q] + base[q]
        P.eq("aout", aout, want)
    P.eq("auto_correlate", out, want)


def cases(tier):
    out = []
    th = tier == "thorough"
    for cplx in (False, True):
        for shape, axis, align in layouts(tier):
            n = shape[axis]
            for irr in (False, True):
                for nout, pre in ((max(1, n - 1), False), (n + 2, False), (n, True), (None, False)):
                    if nout is None and irr:
                        continue
                    T = 2 * n if th else 6
                    out.append(Case(nm(shape, "axis", axis, "align" if align else "", "irr" if irr else "reg", "cplx" if cplx else "real", "n", str(nout), "aout" if pre else ""),
                                    case, dict(shape=shape, axis=axis, nout=nout, irregular=irr, cplx=cplx, align=align, T=T, pre=pre, realdata=False)))
        out.append(Case(nm("float data", "cplx" if cplx else "real"), case, dict(shape=(3, 2), axis=0, nout=3, irregular=True, cplx=cplx, align=False, T=5, pre=False, realdata=True)))
    return out
