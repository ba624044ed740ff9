"""the FFT algorithms give the documented sums (and so the results of the direct ones)"""
from .common import *

BOUNDS = "quick: <= 3 frames irregular with times 0..4, <= 4 frames regular; thorough: <= 4 frames irregular with times 0..6, <= 8 regular"
OUTSIDE = "IEEE rounding; repeated trigger times (one camera cannot expose two frames at once); the FFT library itself (used by contract)"
STUBS = "cddm's FFT back ends (scipy/pyfftw/numpy/mkl): exact DFT by contract, overwrite_x destroys its input"


def ccase(P, cd, shape, axis, nout, irregular, cplx, T, pre, method):
    n = shape[axis]
    f1, f2 = P.cplx("f1", shape), P.cplx("f2", shape)
    kw = {}
    if irregular:
        kw["t1"], kw["t2"] = times(P, "t1", n, T), times(P, "t2", n, T)
        t1, t2 = lst(kw["t1"]), lst(kw["t2"])
        distinct(P, t1)
        distinct(P, t2)
    else:
        t1 = t2 = arange(n)
    size = 2 * nout - 1 if cplx else nout
    fshape = tuple(s for k, s in enumerate(shape) if k != axis % len(shape))
    if pre:
        aout = (P.cplx if cplx else P.real)("aout", fshape + (size,))
        base = aout.copy()
        kw["aout"] = aout
    else:
        kw["n"] = nout
    out = cd.core.cross_correlate_fft(f1, f2, axis=axis, complex=cplx, **kw)
    fn = cross_corr_complex if cplx else cross_corr
    want = nd(P, [f1, f2], axis, lambda x, y: fn(P, x, y, t1, t2, nout), size)
    if pre:
        for q in np.ndindex(*want.shape):
            want[q] = want[q] + base[q]
    P.eq("cross_correlate_fft", out, want)


def acase(P, cd, shape, axis, nout, irregular, cplx, T, pre, method):
    n = shape[axis]
    f = P.cplx("f", shape)
    kw = {}
    if irregular:
        kw["t"] = times(P, "t", n, T)
        t = lst(kw["t"])
        distinct(P, t)
    else:
        t = arange(n)
    fshape = tuple(s for k, s in enumerate(shape) if k != axis % len(shape))
    if pre:
        aout = (P.cplx if cplx else P.real)("aout", fshape + (nout,))
        base = aout.copy()
        kw["aout"] = aout
    else:
        kw["n"] = nout
    out = cd.core.auto_correlate_fft(f, axis=axis, complex=cplx, **kw)
    fn = auto_corr_complex if cplx else auto_corr
    want = nd(P, [f], axis, lambda x: fn(P, x, t, nout), nout)
    if pre:
        for q in np.ndindex(*want.shape):
            want[q] = want[q] + base[q]
    P.eq("auto_correlate_fft", out, want)


def scase(P, cd, shape, axis, nout, cplx, inv, T, dt, pre, auto):
    n = shape[axis]
    f = (P.real if dt == "f" else P.cplx)("f", shape)
    t = times(P, "t", n, T)
    tl = lst(t)
    distinct(P, tl)
    kw = {}
    size = 2 * nout - 1 if cplx else nout
    fshape = tuple(s for k, s in enumerate(shape) if k != axis % len(shape))
    if pre:
        aout = (P.real if dt == "f" else P.cplx)("aout", fshape + (size,))
        base = aout.copy()
        kw["aout"] = aout
    else:
        kw["n"] = nout
    if auto:
        out = cd.core.auto_sum_fft(f, t, axis=axis, **kw)
        want = nd(P, [f], axis, lambda x: auto_sum(P, x, tl, nout), nout)
    else:
        to = times(P, "to", n, T)
        tol = lst(to)
        distinct(P, tol)
        out = cd.core.cross_sum_fft(f, t, to, axis=axis, complex=cplx, time_inversion=inv, **kw)
        want = nd(P, [f], axis, lambda x: cross_sum(P, x, tl, tol, nout, cplx, inv), size)
    if pre:
        for q in np.ndindex(*want.shape):
            want[q] = want[q] + base[q]
    P.eq("sum", out, want)


def regsum(P, cd):
    """regular data must be refused (documented as not implemented)"""
    f = P.real("f", (3,))
    P.raises("cross_sum_fft without times", lambda: cd.core.cross_sum_fft(f, None, None))
    P.raises("auto_sum_fft without times", lambda: cd.core.auto_sum_fft(f, None))


def cases(tier):
    th = tier == "thorough"
    out = []
    reg = [((4,), 0), ((3, 2), 0), ((2, 3), 1), ((2, 2, 3), -1), ((2, 3, 1), 1)]
    irr = [((3,), 0), ((2, 2), 0), ((2, 3), 1)]
    if th:
        reg += [((8,), 0), ((6, 2), 0), ((5,), 0), ((7,), 0)]
        irr += [((3, 2), 0), ((4,), 0), ((2, 3, 2), 1)]
    for cplx in (False, True):
        for nme, fn in (("cross", ccase), ("auto", acase)):
            for shape, axis in reg:
                n = shape[axis]
                for nout, pre in ((n, False), (n - 1, True), (n + 2, False), (1, False)):
                    out.append(Case(nm(nme, shape, "axis", axis, "reg", "cplx" if cplx else "real", "n", nout, "aout" if pre else ""), fn,
                                    dict(shape=shape, axis=axis, nout=nout, irregular=False, cplx=cplx, T=0, pre=pre, method="fft")))
            for shape, axis in irr:
                T = 4 if shape[axis] <= 3 and not (th and shape == (3,)) else 6
                if th and shape == (4,):
                    T = 5
                for nout, pre in ((3, False), (2, True), (2 * T, False)):
                    if not th and nout == 2 * T and shape != (3,):
                        continue
                    out.append(Case(nm(nme, shape, "axis", axis, "irr", "cplx" if cplx else "real", "n", nout, "aout" if pre else ""), fn,
                                    dict(shape=shape, axis=axis, nout=nout, irregular=True, cplx=cplx, T=T, pre=pre, method="fft")))
    for shape, axis in irr:
        for dt in "fc":
            for cplx, inv in ((False, False), (True, False), (True, True), (False, True)):
                for pre in (False, True):
                    if pre and not th and shape != (3,):
                        continue
                    out.append(Case(nm("cross_sum", shape, "axis", axis, dt, "cplx" if cplx else "", "inv" if inv else "", "aout" if pre else ""), scase,
                                    dict(shape=shape, axis=axis, nout=3, cplx=cplx, inv=inv, T=4, dt=dt, pre=pre, auto=False)))
            out.append(Case(nm("auto_sum", shape, "axis", axis, dt), scase, dict(shape=shape, axis=axis, nout=3, cplx=False, inv=False, T=4, dt=dt, pre=shape == (3,), auto=True)))
    out.append(Case("cross_sum n beyond length", scase, dict(shape=(3,), axis=0, nout=9, cplx=False, inv=False, T=4, dt="c", pre=False, auto=False)))
    out.append(Case("cross_sum n beyond length cplx", scase, dict(shape=(3,), axis=0, nout=9, cplx=True, inv=False, T=4, dt="c", pre=False, auto=False)))
    out.append(Case("auto_sum n beyond length", scase, dict(shape=(3,), axis=0, nout=9, cplx=False, inv=False, T=4, dt="f", pre=False, auto=True)))
    out.append(Case("regular sums are refused", regsum, {}))
    return out
