"""weighted normalisation is the optimal combination of the standard and the structured one"""
from .norms import *

BOUNDS = "quick: 3 frames, frame shapes (3,), (1,2), 2..3 delays; arbitrary weights, arbitrary smoothed estimates; weight formulas for all g, delta, backgrounds"
OUTSIDE = "IEEE rounding; sizes beyond the bounds; the smoothing filter itself is C30"
STUBS = "cddm.avg.denoise returns arbitrary data of the same shape (weighted normalisation only); progress printing"


def smooth(P, cd):
    """replace the denoising filter by an arbitrary function"""
    log = []
    orig = cd.avg.denoise

    def stub(x, *a, **k):
        i = len(log)
        y = P.cplx("est%d" % i, x.shape) if P.np.iscomplexobj(x) else P.real("est%d" % i, x.shape)
        log.append((x, y))
        return y
    for m in (cd.avg, cd.norm, cd.norm._avg if hasattr(cd.norm, "_avg") else cd.avg):
        for k in dir(m):
            try:
                if getattr(m, k) is orig:
                    P.patch(m, k, stub)
            except Exception:
                pass
    return log


def wsum(w, x, y, cplx):
    if not cplx:
        return w * x + (1 - w) * y
    w = w if hasattr(w, "imag") and not is_real(w) else w * (1 + 1j)
    return (re(w) * re(x) + (1 - re(w)) * re(y)) + 1j * (im(w) * im(x) + (1 - im(w)) * im(y))


def is_real(w):
    return isinstance(w, (float, int, np.floating)) or type(w).__name__ == "SReal"


def obj(a):
    a = np.asarray(a) if not hasattr(a, "view_raw") else a
    o = np.empty(a.shape, object)
    for q in np.ndindex(*a.shape):
        o[q] = a[q]
    return o


def mk(P, cd, shape, n, norm, cplx, cross):
    data, bg, va, raw = setup(P, cd, shape, None, None, n, norm, cplx, cross, "corr")
    v1, v2 = raw[4:]
    for q in np.ndindex(*shape[1:]):
        P.assume(v1[q] > 0)
        if cross:
            P.assume(v2[q] > 0)
    return data, bg, va, raw


def given(P, cd, shape, n, norm, cplx, cross, mode, scale, real_weight, out):
    """the weight the user gives"""
    data, bg, va, raw = mk(P, cd, shape, n, norm, cplx, cross)
    N = cd.norm.normalize
    kw = dict(mode=mode, scale=scale)
    ws = data[0].shape
    w = P.real("w", ws) if real_weight else P.cplx("w", ws)
    std = obj(N(data, bg, va, norm=norm & ~2, **kw))
    struct = obj(N(data, bg, va, norm=norm & ~1, **kw))
    if out:
        o = P.array(np.zeros(ws), "c16" if cplx else "f8")
        got = N(data, bg, va, norm=norm, weight=w, out=o, **kw)
        P.same("output array is used", got is o, True)
    else:
        got, rw = N(data, bg, va, norm=norm, weight=w, ret_weight=True, **kw)
        P.eq("weight", rw, w)
    want = np.empty(ws, object)
    for q in np.ndindex(*ws):
        want[q] = wsum(w[q], struct[q], std[q], cplx)
    P.eq("weighted", got, want)


def computed(P, cd, shape, n, norm, cplx, cross, mode, scale):
    """the computed weight belongs to the smoothed estimate and to the noise of the two cameras"""
    data, bg, va, raw = mk(P, cd, shape, n, norm, cplx, cross)
    v1, v2 = raw[4:]
    N = cd.norm.normalize
    kw = dict(mode=mode, scale=scale)
    std = obj(N(data, bg, va, norm=norm & ~2, **kw))
    struct = obj(N(data, bg, va, norm=norm & ~1, **kw))
    log = smooth(P, cd)
    got, w = N(data, bg, va, norm=norm, ret_weight=True, **kw)
    P.true("an estimate is made", len(log) > 0)
    x, est = log[-1]
    ws = tuple(got.shape)
    want, ww = np.empty(ws, object), np.empty(ws, object)
    for q in np.ndindex(*ws):
        v = (v1[q[:-1]] + v2[q[:-1]]) * 0.5
        d = (v2[q[:-1]] - v1[q[:-1]]) / (v1[q[:-1]] + v2[q[:-1]]) if cross else 0.
        g = est[q] if scale else est[q] / v
        if mode == "diff":
            g = 1 - g * 0.5
        ww[q] = 2 * g / (ab2(g) + 1 + d * d)
        want[q] = wsum(w[q], struct[q], std[q], cplx)
    P.eq("weight of the estimate", w, ww)
    P.eq("weighted", got, want)
    P.eq("first estimate is of the standard data", log[0][0], std)


def formulas(P, cd):
    nb = cd.norm
    g, d, w = P.real("g"), P.real("d"), P.real("w")
    P.assume(g >= 0)
    P.assume(g <= 1)
    ws = nb.weight_from_g(g, d)
    P.true("0 <= weight", ws >= 0)
    P.true("weight <= 1", ws <= 1)
    P.eq("weight from difference", nb.weight_from_d(2 - 2 * g, d), ws)


def optimum(P, cd, prime):
    """the variance at any weight exceeds that at the weight by a square"""
    nb = cd.norm._nb if hasattr(cd.norm, "_nb") else cd.core_nb
    g, d, w = P.cplx("g") if prime else P.real("g"), P.real("d"), P.real("w")
    gr = re(g)
    if prime:
        b1, b2 = P.cplx("b1"), P.cplx("b2")
        a = (g, d, b1, b2)
        ws, sg = nb.weight_prime_from_g, nb.sigma_prime_weighted
    else:
        a = (g, d)
        ws, sg = nb.weight_from_g, nb.sigma_weighted
    p = [sg(x, *a) ** 2 for x in (0., 1., -1.)]
    pw = sg(w, *a) ** 2
    al, be = (p[1] + p[2]) * 0.5 - p[0], (p[1] - p[2]) * 0.5
    P.eq("variance is a parabola of the weight", pw, p[0] + be * w + al * w * w)
    if prime:
        P.assume(al > 0)
    else:
        P.true("with a minimum", al > 0)
    P.eq("at the computed weight", 2 * al * ws(*a) + be, 0.)


def cases(tier):
    th = tier == "thorough"
    out = []
    for cross in (True, False):
        for cplx in (False, True):
            for norm in (3, 7, 11, 15):
                for mode in ("corr", "diff"):
                    for scale in (False, True):
                        k = dict(shape=(3, 3) if norm in (3, 11) else (2, 1, 2), n=2, norm=norm, cplx=cplx, cross=cross, mode=mode, scale=scale)
                        t = nm("cross" if cross else "auto", "norm", norm, "complex" if cplx else "", "mode", mode, "scaled" if scale else "")
                        out.append(Case("computed weight " + t, computed, k))
                        out.append(Case("given weight " + t, given, dict(k, real_weight=not cplx, out=False)))
                        if mode == "corr":
                            out.append(Case("given weight, out " + t, given, dict(k, real_weight=True, out=True)))
    out.append(Case("weight formulas", formulas, {}))
    for prime in (False, True):
        out.append(Case(nm("optimal weight", "prime" if prime else ""), optimum, dict(prime=prime)))
    return out
