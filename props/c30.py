"""filters and interpolation of the delay axis"""
from .common import *
import math
import numpy as np

BOUNDS = "quick: all real (also complex, nan) data of length 3..6 with up to 2 leading axes, 1..3 denoise steps; interpolation: 2..4 data points, arbitrary values and (linear) arbitrary increasing positions, every new position; semilog interpolation at every integer between -2 and 12 for several sets of delays; thorough: longer data"
OUTSIDE = "data shorter than 3 elements for convolve and median; repeated or decreasing interpolation points; nan in median, convolve and interpolation; IEEE rounding"
STUBS = "log of integers evaluated in double precision"
LEVEL = None


def data(P, name, shape, cplx):
    return P.cplx(name, shape) if cplx else P.real(name, shape)


def parts(cplx):
    return [lambda z: z.real, lambda z: z.imag] if cplx else [lambda z: z]


def mid(P, a, b, c):
    """the middle one of three numbers"""
    lo, hi = P.ite(a < b, a, b), P.ite(a < b, b, a)
    return P.ite(c < lo, lo, P.ite(c > hi, hi, c))


def med(P, v):
    return [v[0]] + [mid(P, v[i - 1], v[i], v[i + 1]) for i in range(1, len(v) - 1)] + [v[-1]]


def con(v):
    return [v[0]] + [(v[i - 1] + 2 * v[i] + v[i + 1]) * 0.25 for i in range(1, len(v) - 1)] + [v[-1]]


def rows(a):
    for q in np.ndindex(*a.shape[:-1]):
        yield q, [a[q + (i,)] for i in range(a.shape[-1])]


def filt(P, cd, name, shape, cplx, out):
    x = data(P, "x", shape, cplx)
    keep = x.copy()
    kw = {}
    if out:
        kw["out"] = data(P, "old", shape, cplx)
    r = getattr(cd.avg, name)(x, **kw)
    if out:
        P.same("output array returned", r is kw["out"], True)
    P.same("shape", tuple(r.shape), tuple(shape))
    P.same("complex", np.dtype(r.dtype).kind, "c" if cplx else "f")
    P.eq("input unchanged", x, keep)
    for q, v in rows(keep):
        for p in parts(cplx):
            w = [p(z) for z in v]
            want = med(P, w) if name == "median" else con(w)
            for i in range(len(w)):
                P.eq("value", p(r[q + (i,)]), want[i])


def denoise(P, cd, shape, cplx, n):
    x = data(P, "x", shape, cplx)
    keep = x.copy()
    r = cd.avg.denoise(x, n) if n != 3 else cd.avg.denoise(x)
    P.eq("input unchanged", x, keep)
    if n > 1:
        # both filters are decided on their own: the order and number of steps
        y = keep
        for k in range(n):
            y = cd.avg.convolve(cd.avg.median(y))
        P.eq("sequence of filters", r, y)
        return
    for q, v in rows(keep):
        for p in parts(cplx):
            w = con(med(P, [p(z) for z in v]))
            for i in range(len(w)):
                P.eq("value", p(r[q + (i,)]), w[i])


def monotonic(P, cd, name, shape, out):
    """running minimum (maximum)"""
    x = P.real("x", shape)
    keep = x.copy()
    kw = dict(out=P.real("old", shape)) if out else {}
    r = getattr(cd.avg, name)(x, **kw)
    P.eq("input unchanged", x, keep)
    for q, v in rows(keep):
        m = v[0]
        P.eq("first", r[q + (0,)], m)
        for i in range(1, len(v)):
            m = P.ite(v[i] < m, v[i], m) if name == "decreasing" else P.ite(v[i] > m, v[i], m)
            P.eq("value", r[q + (i,)], m)


def missing(P, cd, name, n):
    """missing (nan) data at the beginning is skipped, later it is replaced with the last value"""
    x = P.real("x", (n,))
    k = P.choice("k", list(range(n)))
    y = x.copy()
    y[k] = np.nan
    r = getattr(cd.avg, name)(y)
    m = None
    for i in range(n):
        if i != k:
            m = x[i] if m is None else P.ite(x[i] < m, x[i], m) if name == "decreasing" else P.ite(x[i] > m, x[i], m)
        if m is None:
            P.true("nan", bool(P.np.isnan(r[i])))
        else:
            P.eq("value", r[i], m)


def linear(P, cd, n, m, cplx, shape=()):
    """straight lines between the points, extrapolated at the ends"""
    x = P.real("x", (n,))
    for i in range(1, n):
        P.assume(x[i] > x[i - 1] + (0 if hasattr(P, "ctx") else 1e-3))
    y = data(P, "y", shape + (n,), cplx)
    xn = P.real("xn", (m,))
    seg = []
    for i in range(m):
        j = 1
        while j < n - 1 and bool(xn[i] > x[j]):
            j += 1
        seg.append(j)
    r = cd.avg.interpolate(xn, x, y)
    P.same("shape", tuple(r.shape), tuple(shape) + (m,))
    for q in np.ndindex(*shape):
        for i, j in enumerate(seg):
            for p in parts(cplx):
                a, b = p(y[q + (j - 1,)]), p(y[q + (j,)])
                P.eq("value", p(r[q + (i,)]), a + (b - a) * (xn[i] - x[j - 1]) / (x[j] - x[j - 1]))


def linear_grid(P, cd, x, cplx):
    """the same for given points: the value itself"""
    x = np.array(x, float)
    n = len(x)
    y = data(P, "y", (n,), cplx)
    xn = P.real("xn", (1,))
    j = 1
    while j < n - 1 and bool(xn[0] > x[j]):
        j += 1
    r = cd.avg.interpolate(xn, P.array(x), y)
    for p in parts(cplx):
        P.eq("value", p(r[0]), p(y[j - 1]) + (p(y[j]) - p(y[j - 1])) * (xn[0] - x[j - 1]) / (x[j] - x[j - 1]))


def semilog(P, cd, x, cplx, shape=(), out=False):
    """straight lines as a function of log(x) where x >= 1, of x below"""
    n = len(x)
    y = data(P, "y", shape + (n,), cplx)
    xn = P.choice("xn", list(range(-2, 13)))
    kw = dict(out=data(P, "old", shape + (2,), cplx)) if out else {}
    r = cd.avg.log_interpolate(P.array(np.array([xn, x[0]])), P.array(np.array(x)), y, **kw)
    j = 1
    while j < n - 1 and xn > x[j]:
        j += 1
    a, b, c = x[j - 1], x[j], xn
    if a >= 1 and c > 1:
        a, b, c = math.log(a), math.log(b), math.log(c)
    w = (c - a) / (b - a)
    for q in np.ndindex(*shape):
        for p in parts(cplx):
            u, v = p(y[q + (j - 1,)]), p(y[q + (j,)])
            P.eq("value", p(r[q + (0,)]), u + (v - u) * w, tol=1e-9)
            if xn in x:
                P.eq("data point", p(r[q + (0,)]), p(y[q + (x.index(xn),)]), tol=1e-9)
            P.eq("first", p(r[q + (1,)]), p(y[q + (0,)]), tol=1e-9)


def weighted(P, cd, shape, cplx, wc, out):
    """x * weight + y * (1 - weight), real and imaginary part on their own"""
    x, y = data(P, "x", shape, cplx), data(P, "y", shape, cplx)
    w = data(P, "w", shape, wc)
    kw = dict(out=data(P, "old", shape, cplx or wc)) if out else {}
    r = cd._core_nb.weighted_sum(x, y, w, **kw)
    if out:
        P.same("output array returned", r is kw["out"], True)
    for q in np.ndindex(*shape):
        if not (cplx or wc):
            P.eq("value", r[q], x[q] * w[q] + (1 - w[q]) * y[q])
        else:
            wi = w[q].imag if wc else w[q]
            wr = w[q].real if wc else w[q]
            P.eq("real part", r[q].real, x[q].real * wr + (1 - wr) * y[q].real)
            P.eq("imaginary part", r[q].imag, x[q].imag * wi + (1 - wi) * y[q].imag)


def cases(tier):
    big = tier != "quick"
    for name in ("median", "convolve"):
        for shape in ((3,), (4,), (6,), (2, 4), (1, 2, 3)) + (((8,), (2, 2, 5)) if big else ()):
            for cplx in (False, True):
                for out in (False, True):
                    yield Case(nm(name, shape, "complex" if cplx else "real", "out" if out else ""), filt, dict(name=name, shape=shape, cplx=cplx, out=out))
    for shape, n in (((3,), 3), ((4,), 1), ((4,), 2), ((2, 3), 1), ((4,), 3)) + (((5,), 1), ((2, 4), 1)) * big + (((5,), 2), ((6,), 3)) * big:
        for cplx in (False, True):
            yield Case(nm("denoise", shape, n, "complex" if cplx else "real"), denoise, dict(shape=shape, cplx=cplx, n=n))
    for name in ("decreasing", "increasing"):
        for shape in ((1,), (2,), (5,), (2, 3)) + (((9,), (2, 2, 4)) if big else ()):
            for out in (False, True):
                yield Case(nm(name, shape, "out" if out else ""), monotonic, dict(name=name, shape=shape, out=out))
        for n in (2, 4) + ((6,) if big else ()):
            yield Case(nm(name, "nan", n), missing, dict(name=name, n=n))
    for n, m, shape in ((2, 1, ()), (3, 2, ()), (4, 1, ()), (2, 1, (2,))) + (((5, 2, ()), (3, 2, (2, 2))) if big else ()):
        for cplx in (False, True):
            yield Case(nm("linear", n, m, shape, "complex" if cplx else "real"), linear, dict(n=n, m=m, cplx=cplx, shape=shape))
    for x in ((0, 1), (0, 1, 2, 4, 8), (-3, 5)):
        yield Case(nm("linear at", x), linear_grid, dict(x=x, cplx=len(x) == 2))
    for x in ((0, 1), (0, 1, 2, 4, 8), (1, 3), (0, 5), (2, 5, 9), (0, 2, 3), (0, 1, 6)):
        for cplx in (False, True):
            yield Case(nm("semilog", x, "complex" if cplx else "real"), semilog, dict(x=x, cplx=cplx, out=len(x) == 5, shape=(2,) if len(x) == 3 else ()))
    for shape in ((1,), (2, 2)):
        for cplx, wc in ((False, False), (True, False), (True, True)):
            for out in (False, True):
                yield Case(nm("weighted", shape, "complex" if cplx else "real", "complex weight" if wc else "", "out" if out else ""), weighted, dict(shape=shape, cplx=cplx, wc=wc, out=out))
