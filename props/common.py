"""oracles shared by the harnesses: written from the documentation, element by element, for
symbolic and for concrete values alike"""
import itertools
import numpy as np
from symex.harness import Case


def cj(x):
    return x.conjugate() if hasattr(x, "conjugate") else x


def re(x):
    return x.real


def im(x):
    return x.imag


def ab2(x):
    return x.real * x.real + x.imag * x.imag


LAYOUTS = ("fortran", "strided", "reversed")


def lay(x, how):
    """the same values in another memory layout"""
    if how == "fortran":
        return x.T.copy().T
    if how == "strided":
        y = x
        for k in range(x.ndim):
            y = y.repeat(2, k)
        return y[(slice(None, None, 2),) * x.ndim]
    if how == "reversed":
        r = (slice(None, None, -1),) * x.ndim
        return x[r].copy()[r]
    return x


def cols(a, axis):
    """iterate over the 1-d sections of an nd array along `axis`: (index of the frame element, list)"""
    shp = [s for k, s in enumerate(a.shape) if k != axis % a.ndim]
    for q in np.ndindex(*shp):
        idx = list(q)
        idx.insert(axis % a.ndim, slice(None))
        v = a[tuple(idx)]
        yield q, [v[i] for i in range(v.shape[0])]


def delays(t1, t2, i, j):
    return t2[j] - t1[i]


def rng(n):
    return list(range(n))


def cross_corr(P, x, y, t1, t2, n):
    """out[k] = sum_{|t2[j]-t1[i]| = k} real(x[i] conj(y[j]))"""
    out = []
    for k in range(n):
        s = 0.
        for i in range(len(x)):
            for j in range(len(y)):
                s = s + P.ite(abs(t1[i] - t2[j]) == k, re(x[i] * cj(y[j])), 0.)
        out.append(s)
    return out


def cross_corr_complex(P, x, y, t1, t2, n):
    """signed delays m = t2[j]-t1[i]: m >= 0 at out[m], m < 0 at out[m] counted from the end;
    out has 2n-1 elements and holds conj(x[i]) y[j]"""
    out = []
    for k in list(range(n)) + list(range(-n + 1, 0)):
        s = 0.
        for i in range(len(x)):
            for j in range(len(y)):
                s = s + P.ite(t2[j] - t1[i] == k, cj(x[i]) * y[j], 0.)
        out.append(s)
    return out


def cross_diff(P, x, y, t1, t2, n):
    out = []
    for k in range(n):
        s = 0.
        for i in range(len(x)):
            for j in range(len(y)):
                s = s + P.ite(abs(t1[i] - t2[j]) == k, ab2(y[j] - x[i]), 0.)
        out.append(s)
    return out


def auto_corr(P, x, t, n):
    out = []
    for k in range(n):
        s = 0.
        for i in range(len(x)):
            for j in range(i, len(x)):
                s = s + P.ite(abs(t[j] - t[i]) == k, re(x[i] * cj(x[j])), 0.)
        out.append(s)
    return out


def auto_corr_complex(P, x, t, n):
    """sum over pairs with t[b]-t[a] = k of conj(x[a]) x[b]"""
    out = []
    for k in range(n):
        s = 0.
        for i in range(len(x)):
            for j in range(i, len(x)):
                d = t[j] - t[i]
                s = s + P.ite(d == k, cj(x[i]) * x[j], 0.)
                if k > 0 and j > i:
                    s = s + P.ite(d == -k, cj(x[j]) * x[i], 0.)
        out.append(s)
    return out


def auto_diff(P, x, t, n):
    out = []
    for k in range(n):
        s = 0.
        for i in range(len(x)):
            for j in range(i, len(x)):
                s = s + P.ite(abs(t[j] - t[i]) == k, ab2(x[i] - x[j]), 0.)
        out.append(s)
    return out


def count_cross(P, t1, t2, n, cplx=False):
    out = []
    ks = list(range(n)) if not cplx else list(range(n)) + list(range(-n + 1, 0))
    for k in ks:
        s = 0
        for a in t1:
            for b in t2:
                s = s + P.ite((b - a if cplx else abs(b - a)) == k, 1, 0)
        out.append(s)
    return out


def count_auto(P, t, n):
    out = []
    for k in range(n):
        s = 0
        for i in range(len(t)):
            for j in range(i, len(t)):
                s = s + P.ite(abs(t[j] - t[i]) == k, 1, 0)
        out.append(s)
    return out


def nd(P, arrs, axis, fn, nout, front=None):
    """apply a 1-d oracle to every section of the arrays along axis; delays go last"""
    a0 = arrs[0]
    shp = [s for k, s in enumerate(a0.shape) if k != axis % a0.ndim]
    out = np.empty(tuple(shp) + (nout,), object)
    its = [dict(cols(a, axis)) for a in arrs]
    for q in its[0]:
        r = fn(*[it[q] for it in its])
        for k in range(nout):
            out[q + (k,)] = r[k]
    return out


def times(P, name, n, T):
    """arbitrary integer times 0..T"""
    return P.ints(name, (n,), 0, T)


def lst(t):
    return [t[i] for i in range(len(t))]


def arange(n):
    return list(range(n))


def stack(o):
    """object array -> numeric array in concrete mode"""
    return o


def cross_sum(P, x, t, to, n, cplx=False, inv=False):
    """out[k] = sum_{i,j, |t[i]-to[j]| = k} x[i]; complex: signed delay to[j]-t[i] (inverted: t[i]-to[j])"""
    ks = list(range(n)) if not cplx else list(range(n)) + list(range(-n + 1, 0))
    out = []
    for k in ks:
        s = 0.
        for i in range(len(x)):
            for j in range(len(to)):
                d = to[j] - t[i]
                if inv:
                    d = -d
                if not cplx:
                    d = abs(d)
                s = s + P.ite(d == k, x[i], 0.)
        out.append(s)
    return out


def auto_sum(P, x, t, n):
    """out[k] = sum_{i<=j, |t[i]-t[j]| = k} (x[i]+x[j])/2"""
    out = []
    for k in range(n):
        s = 0.
        for i in range(len(x)):
            for j in range(i, len(x)):
                s = s + P.ite(abs(t[i] - t[j]) == k, (x[i] + x[j]) * 0.5, 0.)
        out.append(s)
    return out


def distinct(P, t):
    for i in range(len(t)):
        for j in range(i):
            P.assume(t[i] != t[j])


def increasing(P, t):
    for i in range(1, len(t)):
        P.assume(t[i] > t[i - 1])


def layouts(tier):
    """(shape, axis, align) of the data"""
    L = [((4,), 0, False), ((3,), 0, True), ((3, 2), 0, False), ((3, 2), 0, True), ((2, 3), 1, False), ((2, 3), -1, False),
         ((2, 3, 2), 1, False), ((3, 2, 2), 0, True)]
    if tier == "thorough":
        L += [((6,), 0, False), ((5, 2), 0, False), ((5, 2), 0, True), ((2, 5), 1, False), ((2, 2, 4), 2, False), ((4, 2, 2), 0, False)]
    return L


def nm(*a):
    return " ".join(str(x) if not isinstance(x, tuple) else "x".join(map(str, x)) for x in a if x not in ("", None, False))


SUB = 4
NAMES = {False: ("corr", "count", "squaresum", "sum1", "sum2"), True: ("diff", "count", "sum1", "sum2")}


def ctuple(P, f1, f2, s1, s2, t1, t2, axis, n, method, norm, cplx, cross):
    """the documented tuple"""
    size = 2 * n - 1 if cplx and cross else n
    if cross:
        if method == "diff":
            c = nd(P, [f1, f2], axis, lambda x, y: cross_diff(P, x, y, t1, t2, n), n)
        else:
            fn = cross_corr_complex if cplx else cross_corr
            c = nd(P, [f1, f2], axis, lambda x, y: fn(P, x, y, t1, t2, n), size)
        k = count_cross(P, t1, t2, n, cplx)
        sq = m1 = m2 = None
        if norm & 2 and method != "diff":
            a = nd(P, [s1], axis, lambda x: cross_sum(P, x, t1, t2, n, cplx), size)
            b = nd(P, [s2], axis, lambda x: cross_sum(P, x, t2, t1, n, cplx, True), size)
            sq = a + b
        if norm & SUB:
            m1 = nd(P, [f1], axis, lambda x: cross_sum(P, x, t1, t2, n, cplx), size)
            m2 = nd(P, [f2], axis, lambda x: cross_sum(P, x, t2, t1, n, cplx, True), size)
        return (c, k, m1, m2) if method == "diff" else (c, k, sq, m1, m2)
    if method == "diff":
        c = nd(P, [f1], axis, lambda x: auto_diff(P, x, t1, n), n)
    else:
        fn = auto_corr_complex if cplx else auto_corr
        c = nd(P, [f1], axis, lambda x: fn(P, x, t1, n), n)
    k = count_auto(P, t1, n)
    sq = ds = None
    if method != "diff":
        if norm & 2:
            sq = nd(P, [s1], axis, lambda x: auto_sum(P, [2 * e for e in x], t1, n), n)
        if norm & SUB:
            ds = nd(P, [f1], axis, lambda x: auto_sum(P, x, t1, n), n)
    return (c, k, None, None) if method == "diff" else (c, k, sq, ds, None)


def frames(a):
    return [a[i] for i in range(a.shape[0])]


def addt(a, b):
    """add two expected tuples"""
    return tuple(None if x is None else np.array(x, object) + np.array(y, object) for x, y in zip(a, b))


def eqt(P, label, got, want, m):
    """compare a raw correlation tuple with the expected one"""
    P.same(label + " tuple", [g is None for g in got], [w is None for w in want])
    for nme, g, w in zip(NAMES[m == "diff"], got, want):
        if w is not None and g is not None:
            P.eq(label + " " + nme, g, w)


def unmask(a, mask, fill):
    """put masked frame elements (axis -2) back on the frame, missing ones are `fill`"""
    a = np.array(a, object)
    lead, n = a.shape[:-2], a.shape[-1]
    out = np.empty(lead + mask.shape + (n,), object)
    out[...] = fill
    out[(Ellipsis, mask, slice(None))] = a
    return out


def bin_frames(P, f, binning, pick=None):
    """one multi-tau level: list of frames -> half as many"""
    out = []
    for i in range(len(f) // 2):
        a, b = f[2 * i], f[2 * i + 1]
        if binning == 1:
            out.append((a + b) * 0.5)
        elif binning == 0:
            out.append(a)
        else:
            out.append(pick(i, a, b))
    return out


def stackf(fr):
    """list of frames -> object array with time first"""
    f0 = fr[0]
    shp = getattr(f0, "shape", ())
    o = np.empty((len(fr),) + tuple(shp), object)
    for i, f in enumerate(fr):
        for q in np.ndindex(*shp):
            o[(i,) + q] = f[q] if shp else f
    return o


def abs2o(a):
    o = np.empty(a.shape, object)
    for q in np.ndindex(*a.shape):
        o[q] = ab2(a[q])
    return o


def picks(P, label, n, got0, seq, fn, choose):
    """find the selection of frames behind a level: got0 = sum1 of the level at zero delay, fn(sel)
    the same sum for a selection; choose = candidate selections (tuples of 0/1 per pair)"""
    k = P.anyof(label, got0, [fn(c) for c in choose])
    return None if k is None else choose[k]


def sel_frames(f, c):
    return np.array([f[2 * i + b] for i, b in enumerate(c)], object)
