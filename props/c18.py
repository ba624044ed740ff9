"""multilevel averaging and merging of linear and multiple-tau results"""
from .norms import *

BOUNDS = "quick: 1..20 delays, level sizes 2..6 (averaging) and 2..8 (merging), frame shapes (), (2,), (1,2), real and complex; thorough: up to 70 delays"
OUTSIDE = "IEEE rounding; sizes beyond the bounds; heuristic linspace counts of ccorr_multi_count / acorr_multi_count"
STUBS = "progress printing; random picks are arbitrary"

MEAN, FIRST, CHOOSE = 1, 0, 2


def halve(x, binning):
    out = []
    for i in range(0, len(x), 2):
        if binning == MEAN and 0 < i < len(x) - 1:
            out.append((x[i - 1] + 2 * x[i] + x[i + 1]) * 0.25)
        else:
            out.append(x[i])
    return out


def nlev(size, n):
    l = 0
    while size * 2 ** l < n:
        l += 1
    return l + 1


def levels(x, size, binning):
    out = []
    for l in range(nlev(size, len(x))):
        out.append([x[i] if i < len(x) else None for i in range(size)])
        x = halve(x, binning)
    return out


def fold(x):
    n = (len(x) + 1) // 2
    return [x[0]] + [(x[i] + cj(x[-i])) * 0.5 for i in range(1, n)]


def check(P, label, got, want):
    """list with None = NaN"""
    idx = np.array([k for k, w in enumerate(want) if w is not None], int)
    nan = np.array([k for k, w in enumerate(want) if w is None], int)
    P.same(label + " length", int(got.shape[-1]), len(want))
    P.eq(label, got[idx], np.array([want[k] for k in idx] + [None], object)[:-1])
    if len(nan):
        P.true(label + " nan where there are no data", P.np.isnan(got[nan]))


def inp(P, fs, n, cplx, name="x"):
    return P.cplx(name, fs + (n,)) if cplx else P.real(name, fs + (n,))


def multi(P, cd, fs, n, size, binning, cplx, fld):
    x = inp(P, fs, n, cplx)
    kw = {} if fld is None else dict(fold=fld)
    if binning is not None:
        kw["binning"] = binning
    y = x.copy()
    got = cd.multitau.multilevel(x, size, **kw)
    m = (n + 1) // 2 if fld else n
    L = nlev(size, m)
    P.same("shape", tuple(got.shape), (L,) + fs + (size,))
    for q in np.ndindex(*fs):
        v = [x[q + (i,)] for i in range(n)]
        want = levels(fold(v) if fld else v, size, MEAN if binning is None else binning)
        for l in range(L):
            check(P, "level %d" % l, got[(l,) + q], want[l])
    P.eq("data unchanged", x, y)


def kernel(P, cd, n, size):
    """away from the borders level l is the average with the triangular kernel of 2^(l+1)-1 points"""
    x = P.real("x", (n,))
    got = cd.multitau.multilevel(x, size)
    for l in range(got.shape[0]):
        k = cd.multitau.triangular_kernel(l)
        h = 2 ** l - 1
        P.same("kernel size", len(k), 2 * h + 1)
        P.eq("kernel", k, np.array([(h + 1 - abs(i)) / 4 ** l for i in range(-h, h + 1)]))
        for i in range(size):
            c = i * 2 ** l
            if c - h >= 0 and c + h < n - 1:
                P.eq("kernel average", got[l, i], sum(x[c + j] * k[h + j] for j in range(-h, h + 1)))


def choose(P, cd, n, size):
    """random picking takes one of the two neighbours"""
    x = P.real("x", (n,))
    got = cd.multitau.multilevel(x, size, binning=CHOOSE)
    for i in range(min(size, n // 2)):
        P.anyof("pick %d" % i, got[1, i], [x[2 * i], x[2 * i + 1]])


def mtimes(size, L, step=1):
    """(level, index, time) of merged slow levels"""
    return [(l, i, step * i * 2 ** l) for l in range(L) for i in range(size // 2, size)]


def merge(P, cd, fs, L, size):
    x = inp(P, (L,) + fs, size, False)
    t, y = cd.multitau.merge_multilevel(x, mode="half")
    e = mtimes(size, L)
    P.eq("times", t, np.array([a[2] for a in e]))
    for q in np.ndindex(*fs):
        P.eq("data", y[q], np.array([x[(a[0],) + q + (a[1],)] for a in e] + [None], object)[:-1])
    t, y = cd.multitau.merge_multilevel(x)
    e = [(0, i, i) for i in range(size)] + [(l + 1, i, 2 * tt) for l, i, tt in mtimes(size, L - 1)]
    P.eq("full times", t, np.array([a[2] for a in e]))
    for q in np.ndindex(*fs):
        P.eq("full data", y[q], np.array([x[(a[0],) + q + (a[1],)] for a in e] + [None], object)[:-1])
    P.true("increasing times", all(int(t[i]) < int(t[i + 1]) for i in range(len(t) - 1)))


def average(P, cd, fs, n, size, cplx, fld):
    x = inp(P, fs, n, cplx)
    kw = {} if fld is None else dict(fold=fld)
    t, y = cd.multitau.log_average(x, size, **kw)
    m = (n + 1) // 2 if fld else n
    s2 = 2 * size
    L = nlev(s2, m)
    e = [(0, i, i) for i in range(s2)] + [(l + 1, i, 2 * tt) for l, i, tt in mtimes(s2, L - 1)]
    P.eq("times", t, np.array([a[2] for a in e]))
    for q in np.ndindex(*fs):
        v = [x[q + (i,)] for i in range(n)]
        want = levels(fold(v) if fld else v, s2, MEAN)
        check(P, "data", y[q], [want[l][i] for l, i, _ in e])


def logmerge(P, cd, fs, period, size, L, binning, cplx, fld):
    nf = period * size
    lin = inp(P, fs, 2 * nf - 1 if fld else nf, cplx, "lin")
    mul = inp(P, (L,) + fs, 2 * size - 1 if fld else size, cplx, "mul")
    kw = {} if fld is None else dict(fold=fld)
    if binning is not None:
        kw["binning"] = binning
    t, y = cd.multitau.log_merge(lin, mul, **kw)
    Lf = nlev(size, nf)
    e = [(0, i, i) for i in range(size)] + [(l + 1, i, 2 * tt) for l, i, tt in mtimes(size, Lf - 1)]
    es = mtimes(size, L, 2 * period)
    P.eq("times", t, np.array([a[2] for a in e + es]))
    for q in np.ndindex(*fs):
        v = [lin[q + (i,)] for i in range(lin.shape[-1])]
        want = levels(fold(v) if fld else v, size, MEAN if binning is None else binning)
        w = [want[l][i] for l, i, _ in e]
        for l, i, _ in es:
            s = [mul[(l,) + q + (k,)] for k in range(mul.shape[-1])]
            w.append((fold(s) if fld else s)[i])
        check(P, "data", y[q], w)
        fin = [a[2] for a, b in zip(e + es, w) if b is not None]
        P.true("increasing times", all(a < b for a, b in zip(fin, fin[1:])))


def norm_multi(P, cd, norm, cross, cplx, mode, scale, mask):
    """every part is normalised as linear data"""
    fs = (1, 2)
    f1, f2 = P.cplx("f1", (12,) + fs), P.cplx("f2", (12,) + fs)
    m = cd.multitau
    kw = dict(level_size=6, nlevel=1, norm=raw_of(norm), method="corr", complex=cplx)
    lin, mul = m.ccorr_multi(f1, f2, **kw) if cross else m.acorr_multi(f1, **kw)
    bg = (P.cplx("b1", fs), P.cplx("b2", fs)) if cross else P.cplx("b1", fs)
    va = (P.real("v1", fs), P.real("v2", fs)) if cross else P.real("v1", fs)
    for v in (va if cross else (va,)):
        for q in np.ndindex(*fs):
            P.assume(v[q] > 0)
    kw = dict(norm=norm, mode=mode, scale=scale)
    if mask:
        kw["mask"] = np.array([[True, False]])
    got = m.normalize_multi((lin, mul), bg, va, **kw)
    for g, d, n in zip(got, (lin, mul), ("fast", "slow")):
        P.eq(n, g, cd.norm.normalize(d, bg, va, **kw))


def counts(P, cd, n, size, binning):
    """effective counts: (sum of weights*counts)^3 / sum of squares, over the points averaged"""
    c = P.real("c", (n,))
    for i in range(n):
        P.assume(c[i] > 0)
    got = cd.multitau.multilevel_count(c, size, binning=binning)
    L = nlev(size, n)
    P.same("shape", tuple(got.shape), (L, size))
    for l in range(L):
        h = 2 ** l - 1 if binning == MEAN else 0
        w = []
        for i in range(size):
            p = i * 2 ** l
            if p >= n:
                w.append(None)
                continue
            N = V = 0.
            for j in range(-h, h + 1):
                if 0 <= p + j < n:
                    k = (h + 1 - abs(j)) / 4 ** l if binning == MEAN else 1.
                    N = N + c[p + j] * k
                    V = V + c[p + j] * c[p + j] * (k * k)
            w.append(N * N * N / V)
        check(P, "level %d" % l, got[l], w)


def tml(P, cd, shape, period):
    got = cd.multitau.t_multilevel(shape, period)
    P.same("shape", tuple(got.shape), (shape[0],) + (1,) * (len(shape) - 2) + (shape[-1],))
    P.eq("times", got.reshape((shape[0], shape[-1])), np.array([[i * 2 * period * 2 ** l for i in range(shape[-1])] for l in range(shape[0])]))


def errors(P, cd):
    m = cd.multitau
    x, z, w = P.real("x", (2, 8)), P.cplx("z", (2, 8)), P.real("w", (3, 2, 4))
    for s in (1, 0, -1):
        P.raises("level size %d" % s, lambda: m.multilevel(x, s), ValueError)
        P.raises("count, level size %d" % s, lambda: m.multilevel_count(x[0], s), ValueError)
    for s in (0, -1):
        P.raises("size %d" % s, lambda: m.log_average(x, s), ValueError)
    P.raises("binning", lambda: m.multilevel(x, 4, binning=5), ValueError)
    P.raises("binning of log_merge", lambda: m.log_merge(x, w, binning=5), ValueError)
    P.raises("fold is needed", lambda: m.multilevel(z, 4), ValueError)
    P.raises("fold is needed", lambda: m.log_average(z, 2), ValueError)
    P.raises("fold is needed", lambda: m.log_merge(z, P.cplx("u", (3, 2, 4))), ValueError)
    P.raises("odd size", lambda: m.merge_multilevel(P.real("y", (3, 5))), ValueError)
    P.raises("mode", lambda: m.merge_multilevel(w, mode="foo"), ValueError)
    P.raises("fast size is not a multiple", lambda: m.log_merge(P.real("y", (2, 9)), w), ValueError)


def cases(tier):
    th = tier == "thorough"
    out = []
    top = 70 if th else 20
    for n in list(range(1, 18)) + [20] + ([33, 47, 64, 70] if th else []):
        for size in (2, 4, 3, 6):
            for binning in (None, FIRST):
                if n > 12 and size in (3, 6) and not th:
                    continue
                out.append(Case(nm("multilevel", n, "size", size, "first" if binning == FIRST else ""), multi, dict(fs=() if n % 2 else (2,), n=n, size=size, binning=binning, cplx=False, fld=None)))
    for n in (5, 9, 15, 17):
        for fld in (True, False):
            out.append(Case(nm("multilevel complex", n, "folded" if fld else ""), multi, dict(fs=(1, 2), n=n, size=2, binning=None, cplx=True, fld=fld)))
            out.append(Case(nm("log_average complex", n, "folded" if fld else ""), average, dict(fs=(1, 2), n=n, size=1, cplx=True, fld=fld)))
    for n in (9, 17, 20, 33):
        for size in (2, 3, 4):
            out.append(Case(nm("kernel", n, size), kernel, dict(n=n, size=size)))
    for n in (3, 4, 5, 8):
        out.append(Case(nm("random", n), choose, dict(n=n, size=2)))
    for fs in ((), (2,), (1, 2)):
        for L in (1, 2, 3):
            for size in (2, 4, 6):
                out.append(Case(nm("merge", fs, L, size), merge, dict(fs=fs, L=L, size=size)))
    for n in (1, 2, 4, 5, 7, 8, 9, 12, 16, 17, 20) + ((40, 65) if th else ()):
        for size in (1, 2, 3):
            out.append(Case(nm("log_average", n, "size", size), average, dict(fs=(2,) if n < 10 else (), n=n, size=size, cplx=False, fld=None)))
    for period in (1, 2, 3, 4):
        for size in (2, 4) + ((6, 8) if th else ()):
            for L in (1, 2, 3):
                for binning in (None, FIRST):
                    out.append(Case(nm("log_merge period", period, "size", size, "levels", L, "first" if binning == FIRST else ""), logmerge, dict(fs=() if L > 1 else (2,), period=period, size=size, L=L, binning=binning, cplx=False, fld=None)))
            for fld in (True, False):
                out.append(Case(nm("log_merge complex period", period, "size", size, "folded" if fld else ""), logmerge, dict(fs=(2,), period=period, size=size, L=2, binning=None, cplx=True, fld=fld)))
    for cross in (True, False):
        for norm in (1, 2, 5, 6, 9, 10):
            for cplx in (False, True):
                for mode, scale, mask in (("corr", False, False), ("diff", True, True)):
                    out.append(Case(nm("normalize_multi", "cross" if cross else "auto", norm, "complex" if cplx else "", mode, "scaled" if scale else "", "mask" if mask else ""), norm_multi,
                                    dict(norm=norm, cross=cross, cplx=cplx, mode=mode, scale=scale, mask=mask)))
    for n in (3, 5, 8, 9) + ((17,) if th else ()):
        for size in (2, 4):
            for binning in (MEAN, FIRST):
                out.append(Case(nm("count", n, "size", size, "first" if binning == FIRST else ""), counts, dict(n=n, size=size, binning=binning)))
    for shape in ((3, 4), (2, 5, 4), (3, 2, 2, 6)):
        for period in (1, 2, 3):
            out.append(Case(nm("t_multilevel", shape, period), tml, dict(shape=shape, period=period)))
    out.append(Case("errors", errors, {}))
    return out
