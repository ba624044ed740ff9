"""window functions"""
from .common import *
import math
import numpy as np

BOUNDS = "quick: shapes up to 5x6 (also with a single row or column), every alpha between 0 and 1 and every sigma between 0.01 and 10, every previous content of the output array; thorough: shapes up to 9x10"
OUTSIDE = "IEEE rounding (values and borders to 1e-9); plot_windows"
STUBS = "cos, exp of a symbolic argument: uninterpreted, |cos| <= 1, exp > 0"
LEVEL = None


def radius2(shape):
    """squared distance of the pixel centres from the centre of the frame in half widths"""
    h, w = shape
    return [[((2 * j + 1 - w) / w) ** 2 + ((2 * i + 1 - h) / h) ** 2 for j in range(w)] for i in range(h)]


def output(P, shape, out):
    return P.real("old", shape) if out else None


def check(P, W, o, shape, want):
    if o is not None:
        P.same("output array returned", W is o, True)
    P.same("shape", tuple(W.shape), tuple(shape))
    P.same("dtype", np.dtype(W.dtype), np.dtype("f8"))
    r2 = radius2(shape)
    for i in range(shape[0]):
        for j in range(shape[1]):
            P.eq("window", W[i, j], want(math.sqrt(r2[i][j]), r2[i][j]), tol=1e-9)


def blackman(P, cd, shape, out):
    o = output(P, shape, out)
    W = cd.window.blackman(shape, out=o)
    check(P, W, o, shape, lambda r, r2: 0. if r >= 1 - 1e-12 else
          0.42 + 0.5 * math.cos(math.pi * r) + 0.08 * math.cos(2 * math.pi * r))


def hann(P, cd, shape, out):
    o = output(P, shape, out)
    W = cd.window.hann(shape, out=o)
    check(P, W, o, shape, lambda r, r2: 0. if r >= 1 else 0.5 * (1 + math.cos(math.pi * r)))


def tukey(P, cd, shape, out):
    o = output(P, shape, out)
    alpha = P.real("alpha")
    P.assume((alpha >= 0) & (alpha <= 1))
    if not hasattr(P, "ctx"):
        for row in radius2(shape):
            for r2 in row:
                P.assume(abs(math.sqrt(r2) - (1 - alpha)) > 1e-9)
    W = cd.window.tukey(shape, alpha, out=o)

    def want(r, r2):
        if r >= 1:
            return 0.
        # flat in the middle, a half of a cosine at the border
        if bool(r > 1 - alpha):
            return (1 - np_cos(P, math.pi * (r - 1) / alpha)) * 0.5
        return 1.
    check(P, W, o, shape, want)
    for i in range(shape[0]):
        for j in range(shape[1]):
            P.true("range", (W[i, j] >= 0) & (W[i, j] <= 1))


def np_cos(P, x):
    return x.cos() if hasattr(x, "cos") else math.cos(x)


def np_exp(P, x):
    return x.exp() if hasattr(x, "exp") else math.exp(x)


def wrong(P, cd, which):
    v = P.real("parameter")
    if which == "tukey":
        P.assume((v < 0) | (v > 1))
        P.raises("alpha", lambda: cd.window.tukey((3, 4), v), ValueError)
    else:
        P.assume(v <= 0)
        P.raises("sigma", lambda: cd.window.gaussian((3, 4), v), ValueError)


def ends(P, cd, shape):
    """alpha = 1 is the hann window, alpha = 0 is an aperture"""
    a = cd.window.tukey(shape, 1)
    P.eq("hann", a, cd.window.hann(shape))
    o = P.real("old", shape)
    b = cd.window.tukey(shape, 0., out=o)
    r2 = radius2(shape)
    for q in np.ndindex(*shape):
        P.eq("aperture", b[q], 1. if r2[q[0]][q[1]] < 1 - 1e-12 else 0.)


def gaussian(P, cd, shape, out):
    o = output(P, shape, out)
    s = P.real("sigma")
    P.assume((s > 0.01) & (s < 10))
    W = cd.window.gaussian(shape, s, out=o)
    # the waist is in units of the width of the frame, half of the width is r = 1
    check(P, W, o, shape, lambda r, r2: np_exp(P, -(r2 / 2) / (s * s)))
    for q in np.ndindex(*shape):
        P.true("positive", W[q] > 0)


def cases(tier):
    S = [(1, 1), (2, 2), (3, 4), (4, 3), (1, 5), (5, 6)]
    if tier != "quick":
        S += [(5, 1), (2, 7), (7, 8), (6, 6), (9, 10), (8, 3)]
    for s in S:
        for out in (False, True):
            for f in (blackman, hann, tukey, gaussian):
                yield Case(nm(f.__name__, "%dx%d" % s, "out" if out else "new"), f, dict(shape=s, out=out))
        yield Case(nm("ends", "%dx%d" % s), ends, dict(shape=s))
    for w in ("tukey", "gaussian"):
        yield Case(nm("wrong", w), wrong, dict(which=w))
