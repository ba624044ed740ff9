"""ccorr_multi / acorr_multi: every level is the linear correlation of the binned data"""
from .common import *
import itertools

BOUNDS = "quick: level_size 5 (the smallest allowed), 10..21 frames, frames of 1..4 elements, up to 2 slow levels; thorough: up to 40 frames, 3 levels, level_size 5..8"
OUTSIDE = "IEEE rounding; sizes beyond the bounds; races of parallel targets"
STUBS = "cddm's FFT back ends: exact DFT by contract; progress printing; the random numbers of BINNING_CHOOSE are arbitrary"


def case(P, cd, N, shape, axis, L, period, method, norm, cplx, cross, binning, nlevel, irr, align, gap):
    full = list(shape)
    full.insert(axis % (len(shape) + 1), N)
    f1 = P.cplx("f1", tuple(full))
    f2 = P.cplx("f2", tuple(full)) if cross else None
    kw = {}
    t1 = t2 = arange(N)
    if irr:
        # one trigger per period and camera, at a symbolic offset
        o1, o2 = P.ints("o1", (N,), 0, gap), (P.ints("o2", (N,), 0, gap) if not cplx else P.ints("o2", (1,), 0, gap))
        if cplx:
            o2 = [o2[0]] * N
        t1 = [period * i + o1[i] for i in range(N)]
        t2 = [period * i + o2[i] for i in range(N)] if cross else t1
        kw.update(dict(t1=t1, t2=t2) if cross else dict(t=t1))
    if binning is not None:
        kw["binning"] = binning
    if nlevel is not None:
        kw["nlevel"] = nlevel
    if norm is not None:
        kw["norm"] = norm
    if align:
        kw["align"] = True
    fn = cd.multitau.ccorr_multi if cross else cd.multitau.acorr_multi
    args = (f1, f2) if cross else (f1,)
    got = fn(*args, level_size=L, period=period, method=method, axis=axis, complex=cplx, **kw)
    P.same("fast and slow", len(got), 2)
    fast, slow = got
    lv = nlevel
    if lv is None:
        lv = 0
        while N // 2 ** (lv + 1) >= L:
            lv += 1
    if norm is None:
        norm = 7 if method != "diff" else (6 if cross else 2)
    g1 = np.moveaxis(np.array(stackf(frames(f1)), object), axis, 0)
    g2 = np.moveaxis(np.array(stackf(frames(f2)), object), axis, 0) if cross else None
    n = L * period
    want = ctuple(P, g1, g2, abs2o(g1), abs2o(g2) if cross else None, t1, t2, 0, n, method, norm, cplx, cross)
    eqt(P, "fast", fast, want, method)
    P.same("levels", [g.shape[0] for g in slow if g is not None], [lv for g in slow if g is not None])
    b = binning if binning is not None else (0 if method == "diff" else 1)
    s1, s2 = abs2o(g1), (abs2o(g2) if cross else None)
    for j in range(lv):
        k = len(g1) // 2
        pick = [0] * k
        if b == 2:
            i0 = 2 if method == "diff" else 3
            z = (0,) * len(shape)
            c = picks(P, "level %d selects one frame of each pair" % (j + 1), k, slow[i0][j][z + (0,)], g1,
                      lambda c: sum(g1[(2 * i + e,) + z] for i, e in enumerate(c)), [(e,) * k for e in (0, 1)])
            if c is None:
                return
            if len(g1) % 2 and False:
                pass
            g1, s1 = sel_frames(g1, c), sel_frames(s1, c)
            if cross:
                g2, s2 = sel_frames(g2, c), sel_frames(s2, c)
        else:
            odd = len(g1) % 2 and b == 0
            bf = lambda a: np.array(bin_frames(P, list(a), b) + ([a[len(a) - 1]] if odd else []), object).reshape((-1,) + shape)
            g1, s1 = bf(g1), bf(s1)
            if cross:
                g2, s2 = bf(g2), bf(s2)
        m = len(g1)
        want = ctuple(P, g1, g2, s1, s2, arange(m), arange(m), 0, L, method, norm, cplx, cross)
        eqt(P, "level %d" % (j + 1), tuple(None if g is None else g[j] for g in slow), want, method)


def errors(P, cd):
    f = P.cplx("f", (10, 1))
    mt = cd.multitau
    P.raises("method", lambda: mt.ccorr_multi(f, f, level_size=5, method="foo"))
    P.raises("binning of differences", lambda: mt.ccorr_multi(f, f, level_size=5, method="diff", binning=1))
    P.raises("binning", lambda: mt.acorr_multi(f, level_size=5, binning=7))
    P.raises("one time list", lambda: mt.ccorr_multi(f, f, t1=np.arange(10), level_size=5))
    P.raises("norm", lambda: mt.ccorr_multi(f, f, level_size=5, norm=4))


def cases(tier):
    th = tier == "thorough"
    out = []

    def add(N=20, shape=(1,), axis=0, L=5, period=1, method="corr", norm=3, cplx=False, cross=True, binning=None, nlevel=None, irr=False, align=False, gap=1):
        name = nm("cross" if cross else "auto", "frames", N, shape, "axis", axis, "level_size", L, "period", period, method, "norm", norm, "cplx" if cplx else "", "binning", str(binning),
                  "nlevel %d" % nlevel if nlevel is not None else "", "irr" if irr else "", "align" if align else "")
        if any(c.name == name for c in out):
            return
        out.append(Case(name, case, dict(N=N, shape=shape, axis=axis, L=L, period=period, method=method, norm=norm, cplx=cplx, cross=cross, binning=binning, nlevel=nlevel, irr=irr, align=align, gap=gap)))
    for cross in (True, False):
        for cplx in (False, True):
            for norm in (1, 2, 3, 5, 6, 7):
                add(N=10, norm=norm, cplx=cplx, cross=cross)
            add(N=20, norm=7, cplx=cplx, cross=cross, shape=())
            add(N=21, norm=3, cplx=cplx, cross=cross, binning=1)
            add(N=12, norm=7, cplx=cplx, cross=cross, binning=0)
            add(N=11, norm=7, cplx=cplx, cross=cross, binning=0, shape=(2,))
            add(N=12, norm=7, cplx=cplx, cross=cross, binning=2)
            add(N=20, norm=7, cplx=cplx, cross=cross, binning=2)
            add(N=10, norm=7, cplx=cplx, cross=cross, shape=(2, 2), nlevel=1)
            add(N=10, norm=7, cplx=cplx, cross=cross, shape=(2,), axis=1)
            add(N=10, norm=7, cplx=cplx, cross=cross, shape=(1, 2), axis=-1)
            add(N=10, norm=7, cplx=cplx, cross=cross, shape=(2, 1), axis=1)
            add(N=10, norm=7, cplx=cplx, cross=cross, shape=(2,), align=True)
            add(N=20, norm=3, cplx=cplx, cross=cross, nlevel=0)
            add(N=20, norm=3, cplx=cplx, cross=cross, nlevel=1)
            add(N=10, norm=7, cplx=cplx, cross=cross, period=2)
            add(N=10, norm=3, cplx=cplx, cross=cross, period=2, irr=True)
            add(N=10, norm=None, cplx=cplx, cross=cross, method="fft")
        add(N=20, norm=2, cross=cross, method="diff")
        add(N=10, norm=None, cross=cross, method="diff", shape=(2,))
        add(N=12, norm=None, cross=cross, method=None, shape=(2,))
        if cross:
            add(N=12, norm=6, cross=cross, method="diff", binning=2)
        if th:
            for cplx in (False, True):
                for L in (5, 6, 8):
                    for N in (4 * L, 4 * L + 3, 8 * L):
                        for b in (0, 1, 2):
                            add(N=N, L=L, norm=7, cplx=cplx, cross=cross, binning=b)
                add(N=20, norm=7, cplx=cplx, cross=cross, period=2, irr=True)
                add(N=20, norm=7, cplx=cplx, cross=cross, shape=(2, 2))
                add(N=20, norm=7, cplx=cplx, cross=cross, method="fft")
    out.append(Case("errors", errors, {}))
    return out
