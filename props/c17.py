"""masks, scale factors and noise levels; inputs of normalisation are left alone"""
from .norms import *

BOUNDS = "quick: 2 frames of shapes (2,2), (3,), (1,2), every mask; data, backgrounds, variances arbitrary; thorough: (2,3)"
OUTSIDE = "IEEE rounding; sizes beyond the bounds"
STUBS = "progress printing"


def put(shape, k):
    return np.array([bool(k >> i & 1) for i in range(int(np.prod(shape)))]).reshape(shape)


def masked_norm(P, cd, fs, norm, cplx, cross, mode, scale, method):
    shape = (2,) + fs
    kw = dict(n=2, norm=raw_of(norm), method=method)
    f1, f2 = P.cplx("f1", shape), P.cplx("f2", shape)
    if method == "corr":
        kw["complex"] = cplx
    d = cd.core.ccorr(f1, f2, **kw) if cross else cd.core.acorr(f1, **kw)
    bg = (P.cplx("b1", fs), P.cplx("b2", fs)) if cross else P.cplx("b1", fs)
    va = (P.real("v1", fs), P.real("v2", fs)) if cross else P.real("v1", fs)
    for v in (va if cross else (va,)):
        for q in np.ndindex(*fs):
            P.assume(v[q] > 0)
    before = [None if x is None else x.copy() for x in d]
    bb = [x.copy() for x in (bg if cross else (bg,))]
    vv = [x.copy() for x in (va if cross else (va,))]
    k = P.choice("mask", list(range(1, 2 ** int(np.prod(fs)))))
    m = put(fs, k)
    kw = dict(norm=norm, mode=mode, scale=scale)
    ws = tuple(d[0].shape)
    kwm = dict(kw)
    if norm & 3 == 3:
        w = P.cplx("w", ws) if cplx else P.real("w", ws)
        kw["weight"] = w
        kwm["weight"] = w[m]
    full = cd.norm.normalize(d, bg, va, **kw)
    got = cd.norm.normalize(d, bg, va, mask=m, **kwm)
    P.eq("masked", got, full[m])
    taken = cd.norm.take_data(d, m)
    sub = lambda x: tuple(e[m] for e in x) if cross else x[m]
    if int(m.sum()) != 2 or cross:        # two pixels of one camera look like a pair
        P.eq("of masked data", cd.norm.normalize(taken, sub(bg), sub(va), **kwm), full[m])
    P.same("masked data", [x is None for x in taken], [x is None for x in d])
    for i, (a, b) in enumerate(zip(taken, d)):
        if b is not None:
            P.eq("take_data %d" % i, a, b if i == 1 else b[m])
    for i, (a, b) in enumerate(zip(d, before)):
        if b is not None:
            P.eq("data %d unchanged" % i, a, b)
    for i, (a, b) in enumerate(zip((bg if cross else (bg,)), bb)):
        P.eq("background %d unchanged" % i, a, b)
    for i, (a, b) in enumerate(zip((va if cross else (va,)), vv)):
        P.eq("variance %d unchanged" % i, a, b)


def factors(P, cd, fs, cross, kind):
    N = cd.norm
    v1, v2 = P.real("v1", fs), P.real("v2", fs)
    for q in np.ndindex(*fs):
        P.assume(v1[q] + v2[q] > 0)
    if cross:
        va = {"tuple": lambda: (v1, v2), "list": lambda: [v1, v2], "array": lambda: P.np.stack([v1, v2], 0)}[kind]()
    else:
        va = v1
    k = P.choice("mask", list(range(0, 2 ** int(np.prod(fs)))))
    m = put(fs, k)
    w1, w2 = v1.copy(), v2.copy()
    sc, de, du = (np.empty(fs, object) for _ in range(3))
    for q in np.ndindex(*fs):
        sc[q] = (w1[q] + w2[q]) * 0.5 if cross else w1[q]
        de[q] = (w2[q] - w1[q]) / (w1[q] + w2[q]) if cross else 0.
        du[q] = (w2[q] - w1[q]) * 0.5 if cross else 0.
    P.eq("scale factor", N.scale_factor(va), sc)
    P.eq("scale factor, mask", N.scale_factor(va, m), sc[m])
    P.eq("noise difference", N.noise_delta(va), de)
    P.eq("noise difference, mask", N.noise_delta(va, m), de[m])
    P.eq("noise difference, not scaled", N.noise_delta(va, scale=False), du)
    P.eq("variance unchanged", v1, w1)
    P.eq("variance unchanged", v2, w2)
    P.raises("no variance", lambda: N.scale_factor(None), ValueError)


def noise(P, cd, fs):
    N = cd.norm
    g, s = P.real("g", fs + (2,)), P.real("s", fs)
    for q in np.ndindex(*fs):
        P.assume(s[q] > 0)
    c, d = np.empty(fs, object), np.empty(fs, object)
    for q in np.ndindex(*fs):
        x = g[q + (0,)] / s[q]
        c[q] = P.ite(x < 0, 1., P.ite(x > 1, 0., 1 - x))
        d[q] = P.ite(x < 0, 0., P.ite(x > 2, 1., x * 0.5))
    P.eq("mean noise", N.noise_mean(g, s), c)
    P.eq("mean noise, difference", N.noise_mean(g, s, mode="diff"), d)
    P.raises("mode", lambda: N.noise_mean(g, s, mode="foo"), ValueError)
    w, i = P.real("w", fs), P.real("i")
    P.eq("noise level", N.noise_level(w, i), sum(w[q] * w[q] for q in np.ndindex(*fs)) * i)


def cases(tier):
    th = tier == "thorough"
    out = []
    for cross in (True, False):
        c = "cross" if cross else "auto"
        for fs in ((3,), (1, 2), (3, 1)) + (((2, 3),) if th and cross else ()):
            for kind in ("tuple", "list", "array") if cross else ("",):
                out.append(Case(nm("factors", c, fs, kind), factors, dict(fs=fs, cross=cross, kind=kind)))
        for norm in (1, 2, 3, 5, 6, 7, 9, 10, 11):
            for cplx in (False, True):
                for mode, scale in (("corr", True), ("diff", False)):
                    fs = (2, 2) if cross and norm in (1, 6, 11) else (1, 2) if norm & 1 else (3,)
                    out.append(Case(nm("masked", c, fs, "norm", norm, "complex" if cplx else "", mode, "scaled" if scale else ""), masked_norm,
                                    dict(fs=fs, norm=norm, cplx=cplx, cross=cross, mode=mode, scale=scale, method="corr")))
        for norm in (2, 6) if cross else (2,):
            for mode in ("corr", "diff"):
                out.append(Case(nm("masked", c, "difference data, norm", norm, mode), masked_norm, dict(fs=(3,), norm=norm, cplx=False, cross=cross, mode=mode, scale=True, method="diff")))
    for fs in ((1,), (3,), (2, 2)):
        out.append(Case(nm("noise", fs), noise, dict(fs=fs)))
    return out
