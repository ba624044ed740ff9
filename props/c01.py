"""cross_correlate computes its documented sum"""
from .common import *

BOUNDS = ("quick: <= 4 frames, frame shapes (), (2,), (2,2), all axes, n_out 1..9, times in 0..8; "
          "thorough: <= 6 frames, times in 0..14, n_out up to 12")
OUTSIDE = "IEEE rounding, sizes beyond the bounds, races of parallel targets"


def case(P, cd, shape, axis, nout, irregular, cplx, align, T, pre, realdata=False):
    n = shape[axis]
    if realdata:
        f1, f2 = P.real("f1", shape), P.real("f2", shape)
    else:
        f1, f2 = P.cplx("f1", shape), P.cplx("f2", shape)
    kw = {}
    if irregular:
        kw["t1"], kw["t2"] = times(P, "t1", n, T), times(P, "t2", n, T)
        t1, t2 = lst(kw["t1"]), lst(kw["t2"])
    else:
        t1 = t2 = arange(n)
    full = nout is None
    if full:
        nout = n
    size = 2 * nout - 1 if cplx else nout
    fshape = tuple(s for k, s in enumerate(shape) if k != axis % len(shape))
    if pre:
        aout = (P.cplx if cplx else P.real)("aout", fshape + (size,))
        base = aout.copy()
        kw["aout"] = aout
    elif not full:
        kw["n"] = nout
    out = cd.core.cross_correlate(f1, f2, axis=axis, align=align, complex=cplx, **kw)
    fn = cross_corr_complex if cplx else cross_corr
    want = nd(P, [f1, f2], axis, lambda x, y: fn(P, x, y, t1, t2, nout), size)
    if pre:
        for q in np.ndindex(*want.shape):
            want[q] = want[q] + base[q]
        P.eq("aout", aout, want)
    P.eq("cross_correlate", out, want)


def cases(tier):
    th = tier == "thorough"
    out = []

    def add(shape, axis, nout, irr, cplx, align=False, T=6, pre=False, realdata=False):
        nm = "shape%s axis%d n%s %s %s%s%s%s" % ("x".join(map(str, shape)), axis, nout, "irr" if irr else "reg", "cplx" if cplx else "real",
                                              " align" if align else "", " aout" if pre else "", " float-data" if realdata else "")
        if any(c.name == nm for c in out):
            return
        out.append(Case(nm, case, dict(shape=shape, axis=axis, nout=nout, irregular=irr, cplx=cplx, align=align, T=T, pre=pre, realdata=realdata)))
    for cplx in (False, True):
        for irr in (False, True):
            add((4,), 0, 3, irr, cplx)
            add((4,), 0, 1, irr, cplx)
            add((3,), 0, 6, irr, cplx)          # longer than the data
            add((3, 2), 0, 3, irr, cplx)
            add((3, 2), 0, 5, irr, cplx, True)
            add((2, 3), 1, 2, irr, cplx)
            add((2, 3), -1, 4, irr, cplx)
            add((2, 3, 2), 1, 3, irr, cplx)
            add((3, 2, 2), 0, 2, irr, cplx, True)
            add((3, 2), 0, 3, irr, cplx, False, 6, True)
            add((3,), 0, 3, irr, cplx, True, 6, True)
            add((2, 3), 1, 2, irr, cplx, False, 6, True)
        add((3,), 0, None, False, cplx)
        add((2, 3), 1, None, False, cplx)
        add((3, 2), 0, 3, True, cplx, realdata=True)
        add((4,), 0, 4, False, cplx, realdata=True)
        if th:
            for irr in (False, True):
                add((6,), 0, 12, irr, cplx, T=14)
                add((5, 2), 0, 8, irr, cplx, T=12)
                add((2, 5), 1, 8, irr, cplx, T=12)
                add((2, 2, 4), 2, 6, irr, cplx, T=10)
                add((4, 2, 2), 0, 6, irr, cplx, True, T=10)
                add((5, 2), 0, 8, irr, cplx, True, T=12, pre=True)
    return out
