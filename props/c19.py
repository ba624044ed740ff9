"""folding and removing the translational phase of complex correlation data"""
from .common import *
import numpy as np

BOUNDS = "quick: 1..4 delays, frame shapes (), (2,), C, Fortran, strided and reversed memory layout, all complex values; thorough: up to 8 delays"
OUTSIDE = "IEEE rounding; the sign of the square root (branch of the phase)"
STUBS = "square root, arctan2, sin and cos by contract (defining equations, angle addition)"
LEVEL = None


def data(P, fs, n, how=None):
    return lay(P.cplx("x", fs + (2 * n - 1,)), how)


def fold(P, cd, fs, n, mode, how=None):
    x = data(P, fs, n, how)
    y = x.copy()
    got = cd.norm.fold_data(x) if mode is None else cd.norm.fold_data(x, mode)
    P.same("shape", tuple(got.shape), fs + (n,))
    for q in np.ndindex(*fs):
        for i in range(n):
            a, b = x[q + (i,)], x[q + (-i if i else 0,)]
            if mode == 1 or i == 0:
                want = a
            elif mode == -1:
                want = b
            else:
                want = (a + cj(b)) * 0.5
            P.eq("delay %d" % i, got[q + (i,)], want)
    P.eq("data unchanged", x, y)


def symmetric(P, cd, fs, n):
    """hermitian data: folding gives the positive delays in mode 0 and 1, the conjugate in mode -1"""
    g = P.cplx("g", fs + (n,))
    x = P.np.concatenate((g, cj(g[..., :0:-1])), -1)
    P.eq("mode 0", cd.norm.fold_data(x), g)
    P.eq("mode 1", cd.norm.fold_data(x, 1), g)
    P.eq("mode -1", cd.norm.fold_data(x, -1)[..., 1:], cj(g[..., 1:]))


def equalize(P, cd, fs, n, how=None):
    x = data(P, fs, n, how)
    y = x.copy()
    out = cd.norm.equalize_data(x)
    P.same("shape", tuple(out.shape), tuple(x.shape))
    for q in np.ndindex(*fs):
        a = out[q + (0,)]
        P.eq("zero delay squared", re(a) * re(a), re(x[q + (0,)]) ** 2 + im(x[q + (0,)]) ** 2)
        P.eq("zero delay real", im(a), 0)
        P.true("zero delay positive", re(a) >= 0)
        for i in range(1, n):
            a, b = out[q + (i,)], out[q + (-i,)]
            P.eq("symmetric %d" % i, b, cj(a))
            P.eq("geometric mean %d" % i, a * a, x[q + (i,)] * cj(x[q + (-i,)]))
    P.eq("data unchanged", x, y)


def ab(P, z):
    r = P.np.sqrt(re(z) * re(z) + im(z) * im(z))
    return r


def shift(P, cd, fs, n, how=None):
    x = data(P, fs, n, how)
    for q in np.ndindex(*x.shape):
        P.assume(re(x[q]) * re(x[q]) + im(x[q]) * im(x[q]) > 0.01)
    y = x.copy()
    out = cd.norm.shift_data(x)
    P.same("shape", tuple(out.shape), tuple(x.shape))
    for q in np.ndindex(*fs):
        a = out[q + (0,)]
        P.eq("zero delay squared", re(a) * re(a), re(x[q + (0,)]) ** 2 + im(x[q + (0,)]) ** 2)
        P.eq("zero delay real", im(a), 0)
        P.true("zero delay positive", re(a) >= 0)
        for i in range(1, n):
            a, b = out[q + (i,)], out[q + (-i,)]
            u, v = x[q + (i,)], x[q + (-i,)]
            ru, rv = ab(P, u), ab(P, v)
            P.eq("size %d" % i, re(a) ** 2 + im(a) ** 2, re(u) ** 2 + im(u) ** 2)
            P.eq("opposite phase %d" % i, a * rv, cj(b) * ru)
            P.eq("mean phase %d" % i, a * a * rv, u * cj(v) * ru)
    P.eq("data unchanged", x, y)


def rejects(P, cd):
    x = P.real("x", (3,))
    for f in (cd.norm.fold_data, cd.norm.shift_data, cd.norm.equalize_data):
        P.raises("real data %s" % f.__name__, lambda: f(x), ValueError)
    z = P.cplx("z", (3,))
    for m in (2, -2, "a"):
        P.raises("mode %r" % (m,), lambda: cd.norm.fold_data(z, m), ValueError)


def cases(tier):
    from symex.harness import Case
    o = []
    big = tier != "quick"
    for fs, n in [((), 1), ((), 2), ((), 4), ((2,), 3), ((1, 2), 2)] + ([((2,), 8), ((), 6)] if big else []):
        for mode in (None, 0, 1, -1):
            o.append(Case(nm("fold", fs, n, "mode", "default" if mode is None else str(mode)), fold, dict(fs=fs, n=n, mode=mode)))
        o.append(Case(nm("symmetric", fs, n), symmetric, dict(fs=fs, n=n)))
    for fs, n in [((), 1), ((), 2), ((), 3), ((2,), 2)] + ([((2,), 4), ((1, 2), 3)] if big else []):
        o.append(Case(nm("equalize", fs, n), equalize, dict(fs=fs, n=n)))
        o.append(Case(nm("shift", fs, n), shift, dict(fs=fs, n=n)))
    for how in LAYOUTS:
        for fs, n in [((2,), 3), ((2, 2), 2), ((), 3)]:
            if fs != (2, 2) or big or how == "fortran":
                for mode in (0, 1, -1):
                    o.append(Case(nm("fold", how, fs, n, "mode", str(mode)), fold, dict(fs=fs, n=n, mode=mode, how=how)))
        for f in (equalize, shift):
            o.append(Case(nm(f.__name__, how), f, dict(fs=(2,), n=2, how=how)))
    o.append(Case("rejects", rejects))
    return o
