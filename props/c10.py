"""iccorr_multi / iacorr_multi: any chunking gives the levels of the in-memory multi-tau algorithm"""
from .common import *
from fractions import Fraction
from .c08 import stream

BOUNDS = "quick: level_size 1..5, chunk sizes 1..8, 4..16 frames of 1 or 2 elements, up to 4 slow levels; thorough: up to 32 frames, all chunk sizes"
OUTSIDE = "IEEE rounding; sizes beyond the bounds; trigger times where frames further apart than one chunk have a delay below period * level_size"
STUBS = "cddm's FFT back ends: exact DFT by contract; progress printing; the random numbers of BINNING_CHOOSE are arbitrary"


def case(P, cd, N, extra, shape, L, chunk, period, method, norm, cplx, cross, binning, nlevel, mode, bg, irr):
    f1 = P.cplx("f1", (N + extra,) + shape)
    f2 = P.cplx("f2", (N + extra,) + shape) if cross else None
    half = chunk
    kw = dict(count=N)
    t1 = t2 = arange(N)
    if irr:
        o1, o2 = P.ints("o1", (N,), 0, 1), P.ints("o2", (1,), 0, 1)
        t1 = [period * i + o1[i] for i in range(N)]
        t2 = [period * i + o2[0] for i in range(N)] if cross else t1
        kw = dict(t1=t1, t2=t2) if cross else dict(t=t1)
    if cplx:
        kw["complex"] = True
    if mode != "full":
        kw["mode"] = mode
    if binning is not None:
        kw["binning"] = binning
    if nlevel is not None:
        kw["nlevel"] = nlevel
    if bg:
        kw["auto_background"] = True
    if norm is not None:
        kw["norm"] = norm
    fn = cd.multitau.iccorr_multi if cross else cd.multitau.iacorr_multi
    fast, slow = fn(stream(f1, f2, cross), level_size=L, chunk_size=chunk, period=period, method=method, stats=False, **kw)
    g1, g2 = stackf(frames(f1[:N])), (stackf(frames(f2[:N])) if cross else None)
    if norm is None:
        norm = 7 if method != "diff" else (6 if cross else 2)
    lv = 0
    while N // 2 ** (lv + 1) >= L:
        lv += 1
    if nlevel is not None:
        lv = min(lv, nlevel)
    if bg:
        g1 = g1 - sum(g1[i] for i in range(half)) * (1 / Fraction(half))
        if cross:
            g2 = g2 - sum(g2[i] for i in range(half)) * (1 / Fraction(half))
    s1, s2 = abs2o(g1), (abs2o(g2) if cross else None)
    n = L * period
    # in chunk mode correlations do not reach over the border of a chunk of the level's data, for
    # the levels that are computed while streaming
    top = 0
    while N // (half * 2 ** top) > 1:
        top += 1

    def level(j, g1, g2, s1, s2, t1, t2, n):
        m = len(g1)
        step = half if mode == "chunk" and (j == 0 or j < top) and half < m else m
        w = None
        for c in range(0, m, step):
            s = slice(c, c + step)
            x = ctuple(P, g1[s], g2[s] if cross else None, s1[s], s2[s] if cross else None, t1[s], t2[s], 0, n, method, norm, cplx, cross)
            w = x if w is None else addt(w, x)
        return w
    eqt(P, "fast", fast, level(0, g1, g2, s1, s2, t1, t2, n), method)
    P.same("levels", [g.shape[0] for g in slow if g is not None], [lv for g in slow if g is not None])
    b = binning if binning is not None else (0 if method == "diff" else 1)
    for j in range(1, lv + 1):
        k = len(g1) // 2
        if b == 2:
            i0 = 2 if method == "diff" else 3
            z = (0,) * len(shape)
            c = picks(P, "level %d selects one frame of each pair" % j, k, slow[i0][j - 1][z + (0,)], g1,
                      lambda c: sum(g1[(2 * i + e,) + z] for i, e in enumerate(c)), list(itertools.product((0, 1), repeat=k)))
            if c is None:
                return
            bf = lambda a: sel_frames(a, c)
        else:
            bf = lambda a: np.array(bin_frames(P, list(a), b), object).reshape((-1,) + shape)
        g1, s1 = bf(g1), bf(s1)
        if cross:
            g2, s2 = bf(g2), bf(s2)
        m = len(g1)
        want = level(j, g1, g2, s1, s2, arange(m), arange(m), L)
        eqt(P, "level %d" % j, tuple(None if g is None else g[j - 1] for g in slow), want, method)


def memory(P, cd, N, L, chunk, norm, cplx, cross, binning, method):
    """directly against ccorr_multi / acorr_multi"""
    f1 = P.cplx("f1", (N, 1))
    f2 = P.cplx("f2", (N, 1)) if cross else None
    kw = dict(level_size=L, norm=norm, binning=binning, method=method, complex=cplx)
    if cross:
        a = cd.multitau.iccorr_multi(stream(f1, f2, True), count=N, chunk_size=chunk, stats=False, **kw)
        b = cd.multitau.ccorr_multi(f1, f2, **kw)
    else:
        a = cd.multitau.iacorr_multi(stream(f1, f2, False), count=N, chunk_size=chunk, stats=False, **kw)
        b = cd.multitau.acorr_multi(f1, **kw)
    eqt(P, "fast", a[0], b[0], method)
    eqt(P, "slow", a[1], b[1], method)


def errors(P, cd):
    f = P.cplx("f", (4, 1))
    mt = cd.multitau
    P.raises("short stream", lambda: mt.iccorr_multi(stream(f, f, True), count=8, level_size=2))
    P.raises("short stream", lambda: mt.iacorr_multi(stream(f, f, False), count=8, level_size=2))
    P.raises("mode", lambda: mt.iccorr_multi(stream(f, f, True), count=4, level_size=2, mode="foo"))
    P.raises("chunk smaller than level", lambda: mt.iccorr_multi(stream(f, f, True), count=4, level_size=2, chunk_size=1))
    P.raises("level larger than count", lambda: mt.iccorr_multi(stream(f, f, True), count=4, level_size=5))
    P.raises("chunk larger than count", lambda: mt.iccorr_multi(stream(f, f, True), count=4, level_size=2, chunk_size=5))
    P.raises("nlevel", lambda: mt.iccorr_multi(stream(f, f, True), count=4, level_size=2, nlevel=-1))


def cases(tier):
    th = tier == "thorough"
    out = []

    def add(N, L, chunk, shape=(1,), method="corr", norm=3, cplx=False, cross=True, binning=None, nlevel=None, mode="full", period=1, bg=False, irr=False, extra=0):
        name = nm("cross" if cross else "auto", "frames", N, shape, "level_size", L, "chunk", chunk, "period", period, method, "norm", norm, "cplx" if cplx else "", "binning", str(binning),
                  "nlevel %d" % nlevel if nlevel is not None else "", mode if mode != "full" else "", "background" if bg else "", "irr" if irr else "", "longer stream" if extra else "")
        if any(c.name == name for c in out):
            return
        out.append(Case(name, case, dict(N=N, extra=extra, shape=shape, L=L, chunk=chunk, period=period, method=method, norm=norm, cplx=cplx, cross=cross, binning=binning, nlevel=nlevel, mode=mode, bg=bg, irr=irr)))
    for cross in (True, False):
        for cplx in (False, True):
            for norm in (1, 2, 3, 5, 6, 7):
                add(8, 2, 2, norm=norm, cplx=cplx, cross=cross)
            d = dict(norm=7, cplx=cplx, cross=cross)
            add(8, 2, 2, shape=(2,), **d)
            add(8, 2, 2, shape=(1, 2), **d)
            add(16, 2, 2, **d)
            add(16, 2, 4, **dict(d, norm=3))
            add(8, 2, 4, **d)
            add(8, 2, 8, **d)
            add(12, 3, 3, **dict(d, norm=3))
            add(6, 2, 3, extra=3, **d)
            add(4, 1, 1, **d)
            for b in (0, 2):
                add(8, 2, 2, binning=b, **d)
                add(8, 2, 4, binning=b, **d)
                add(8, 2, 8, binning=b, **d)
            for nl in (0, 1, 2):
                add(8, 2, 2, nlevel=nl, **dict(d, norm=3))
                add(8, 2, 8, nlevel=nl, **dict(d, norm=3))
            add(8, 2, 2, mode="chunk", **d)
            add(8, 2, 4, mode="chunk", **dict(d, norm=3))
            add(8, 2, 2, bg=True, **d)
            add(8, 2, 4, bg=True, binning=0, **dict(d, norm=3))
            add(8, 2, 4, period=2, **d)
            add(8, 2, 4, period=2, irr=True, **dict(d, norm=3))
            add(4, 2, 2, method="fft", **d)
        add(8, 2, 2, method="diff", norm=None, cross=cross)
        add(8, 2, 4, method="diff", norm=2, cross=cross, shape=(2,))
        if cross:
            add(8, 2, 2, method="diff", norm=6, binning=2)
        for chunk in (5, 10):
            out.append(Case(nm("in memory", "cross" if cross else "auto", "chunk", chunk), memory, dict(N=20, L=5, chunk=chunk, norm=3, cplx=True, cross=cross, binning=1, method="corr")))
            out.append(Case(nm("in memory first", "cross" if cross else "auto", "chunk", chunk), memory, dict(N=20, L=5, chunk=chunk, norm=3, cplx=False, cross=cross, binning=0, method="corr")))
        if th:
            for cplx in (False, True):
                d = dict(cplx=cplx, cross=cross)
                for N in (16, 32):
                    for chunk in (2, 4, 8, 16, 32):
                        if chunk <= N:
                            for b in (0, 1):
                                add(N, 2, chunk, binning=b, norm=7 if N == 16 else 3, **d)
                                add(N, 2, chunk, binning=b, mode="chunk", norm=3, **d)
                                for nl in (0, 1, 2, 3):
                                    if N == 16:
                                        add(N, 2, chunk, binning=b, nlevel=nl, norm=3, **d)
                add(24, 3, 6, norm=7, **d)
                add(8, 2, 2, norm=7, method="fft", **d)
    out.append(Case("errors", errors, {}))
    return out
