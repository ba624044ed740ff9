"""oracle for normalised correlation data, from the frames themselves"""
from .common import *
from fractions import Fraction

STD, STRUCT, SUBT, COMP = 1, 2, 4, 8


def pairlists(t1, t2, n, cplx, cross):
    """per delay the pairs (frame of camera 1, frame of camera 2); None: delay never occurs"""
    out = []
    ks = list(range(n)) + (list(range(-n + 1, 0)) if cplx and cross else [])
    for k in ks:
        pr = []
        for i, a in enumerate(t1):
            for j, b in enumerate(t2):
                if cross:
                    if (b - a if cplx else abs(b - a)) == k:
                        pr.append((i, j))
                elif b - a == k and (k > 0 or i == j):
                    pr.append((i, j))
        out.append(pr)
    return out


def inv(n):
    return 1 / Fraction(n)


def one(x, y, pr, b1, b2, var, norm, cplx, cross, method):
    """normalised value at one delay"""
    c = inv(len(pr))
    S = sum(cj(x[i]) * y[j] for i, j in pr) * c
    SQ = sum(ab2(x[i]) + ab2(y[j]) for i, j in pr) * c
    if cross:
        M1 = sum(x[i] for i, j in pr) * c
        M2 = sum(y[j] for i, j in pr) * c
    else:
        M1 = M2 = sum(x[i] + y[j] for i, j in pr) * c * 0.5
    kind = norm & (SUBT | COMP)
    if method == "diff":
        # structure function of the frames as they are, or of the subtracted ones
        if kind:
            D = sum(ab2((y[j] - b2) - (x[i] - b1)) for i, j in pr) * c
        else:
            D = sum(ab2(y[j] - x[i]) for i, j in pr) * c - ab2(b2 - b1)
        return var - D * 0.5
    if kind == 0:
        std = S - cj(b1) * b2
        A = ab2(b1) + ab2(b2) - SQ
    elif kind == COMP:
        std = S - cj(M1) * M2
        A = ab2(M1) + ab2(M2) - SQ
    else:
        if cross:
            std = sum(cj(x[i] - b1) * (y[j] - b2) for i, j in pr) * c
        else:
            std = S - cj(b1) * M2 - cj(M1) * b2 + cj(b1) * b2
        A = -sum(ab2(x[i] - b1) + ab2(y[j] - b2) for i, j in pr) * c
    if not cplx:
        std = re(std)
    if norm & STRUCT:
        o = var + A * 0.5
        std = std + (o * (1 + 1j) if cplx else o)
    return std


def want_norm(x, y, b1, b2, v, t1, t2, n, norm, cplx, cross, method):
    """list of values of one pixel, None where there is no pair"""
    return [one(x, y, pr, b1, b2, v, norm, cplx, cross, method) if pr else None for pr in pairlists(t1, t2, n, cplx, cross)]


def compare(P, label, got, cols_, sl=Ellipsis):
    """got: normalised data (frame..., delay); cols_: dict pixel -> list"""
    q0 = next(iter(cols_))
    for q, w in cols_.items():
        idx = [k for k in range(len(w)) if w[k] is not None]
        nan = [k for k in range(len(w)) if w[k] is None]
        P.eq(label, got[q][np.array(idx)], np.array([w[k] for k in idx], object))
        if nan:
            P.true(label + " no data at delays without pairs", P.np.logical_not(P.np.isfinite(got[q][np.array(nan)])))


def raw_of(norm):
    """norm type the raw data have to be computed with"""
    return norm & 7 | (SUBT if norm & COMP else 0)


def setup(P, cd, shape, times1, times2, n, norm, cplx, cross, method, axis=0, pre=""):
    norm = raw_of(norm)
    """frames, backgrounds, variances and raw correlation data"""
    fs = shape[1:]
    f1 = P.cplx(pre + "f1", shape)
    b1, v1 = P.cplx("b1", fs), P.real("v1", fs)
    kw = dict(n=n, norm=norm, method=method)
    if not (method == "diff"):
        kw["complex"] = cplx
    if cross:
        f2 = P.cplx(pre + "f2", shape)
        b2, v2 = P.cplx("b2", fs), P.real("v2", fs)
        if times1 is not None:
            kw.update(t1=P.array(times1), t2=P.array(times2))
        data = cd.core.ccorr(f1, f2, **kw)
        bg, va = (b1, b2), (v1, v2)
    else:
        f2, b2, v2 = f1, b1, v1
        if times1 is not None:
            kw.update(t=P.array(times1))
        data = cd.core.acorr(f1, **kw)
        bg, va = b1, v1
    return data, bg, va, (f1, f2, b1, b2, v1, v2)


def pixels(shape, raw, t1, t2, n, norm, cplx, cross, method, fn=None):
    f1, f2, b1, b2, v1, v2 = raw
    out = {}
    for q in np.ndindex(*shape[1:]):
        x = [f1[(i,) + q] for i in range(shape[0])]
        y = [f2[(i,) + q] for i in range(shape[0])]
        v = (v1[q] + v2[q]) * 0.5
        w = want_norm(x, y, b1[q], b2[q], v, t1, t2, n, norm, cplx, cross, method)
        out[q] = [None if e is None else fn(e, v) for e in w] if fn else w
    return out
