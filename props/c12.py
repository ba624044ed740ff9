"""statistics of streamed data equal the statistics of the frames that were processed"""
from .common import *
from .c08 import stream, Watch
from fractions import Fraction

BOUNDS = "quick: 2..8 frames of shapes (2,), (1,2), (2,2), chunk sizes 1..4, masks, thread_divisor, auto background; thorough: up to 16 frames"
OUTSIDE = "IEEE rounding; sizes beyond the bounds"
STUBS = "cddm's FFT back ends: exact DFT by contract; progress printing"


def mv(fr):
    """mean and variance of a list of frames (object arrays)"""
    n = len(fr)
    o = stackf(fr)
    m = sum(o[i] for i in range(n)) * (1 / Fraction(n))
    v = sum(abs2o(o)[i] for i in range(n)) * (1 / Fraction(n))
    if not m.shape:
        return m, v - ab2(m)
    return m, v - abs2o(m)


def put(a, mask, P):
    return a


def case(P, cd, N, extra, shape, chunk, cross, multi, mask, td, bg, method, watch, mode=None):
    f1 = P.cplx("f1", (N + extra,) + shape)
    f2 = P.cplx("f2", (N + extra,) + shape) if cross else None
    kw = dict(count=N + extra, chunk_size=chunk, method=method, norm=1 if method != "diff" else 2)
    m = np.array(mask, bool) if mask else None
    if mask:
        kw["mask"] = m
    if td:
        kw["thread_divisor"] = td
    if mode:
        kw["mode"] = mode
    if bg:
        kw["auto_background"] = True
    v = Watch(P)
    if watch:
        kw["viewer"] = v
    if multi:
        fn = cd.multitau.iccorr_multi if cross else cd.multitau.iacorr_multi
        got = fn(stream(f1, f2, cross), level_size=min(2, chunk), **kw)
    else:
        fn = cd.core.iccorr if cross else cd.core.iacorr
        got = fn(stream(f1, f2, cross), n=min(2, chunk), **kw)
    P.same("data, background, variance", len(got), 3)
    data, b, va = got

    def compare(label, k, b, va):
        both = ((b[0], va[0], f1), (b[1], va[1], f2)) if cross else ((b, va, f1),)
        for i, (x, y, f) in enumerate(both):
            fr = frames(f[:k])
            wm, wv = mv(fr)
            if bg:
                wm = wm - mv(frames(f[:chunk]))[0]
            P.same(label + " shapes %d" % i, (tuple(x.shape), tuple(y.shape)), (shape, shape))
            if m is None:
                P.eq(label + " background %d" % i, x, wm)
                P.eq(label + " variance %d" % i, y, wv)
            else:
                P.eq(label + " background %d" % i, x[m], wm[m])
                P.eq(label + " variance %d" % i, y[m], wv[m])
                if not m.all():
                    P.true(label + " nan where masked %d" % i, P.np.isnan(x[np.logical_not(m)]))
                    P.true(label + " nan where masked %d" % i, P.np.isnan(y[np.logical_not(m)]))
    compare("stats", N, b, va)


def partial(P, cd, N, chunk, cross):
    """statistics given to a viewer are those of the frames read so far"""
    f1 = P.cplx("f1", (N, 1, 2))
    f2 = P.cplx("f2", (N, 1, 2)) if cross else None

    class V(Watch):
        def set_data(self, data, background=None, variance=None):
            cp = (lambda x: tuple(e.copy() for e in x)) if cross else (lambda x: x.copy())
            self.kw.append((cp(background), cp(variance)))
    v = V(P)
    fn = cd.core.iccorr if cross else cd.core.iacorr
    fn(stream(f1, f2, cross), count=N, n=1, chunk_size=chunk, norm=1, viewer=v)
    ends = [c + chunk for c in range(0, N, chunk)] + [N]
    P.same("updates", len(v.kw), len(ends))
    for (b, va), k in zip(v.kw, ends):
        for x, y, f in (((b[0], va[0], f1), (b[1], va[1], f2)) if cross else ((b, va, f1),)):
            wm, wv = mv(frames(f[:k]))
            P.eq("background after %d" % k, x, wm)
            P.eq("variance after %d" % k, y, wv)


def sc(e):
    return e[()] if isinstance(e, np.ndarray) else e


def mem(P, cd, shape, axis, cross):
    a = P.cplx("a", shape)
    b = P.cplx("b", shape)
    core = cd.core
    for f, (m, v) in (((a, core.stats(a, axis=axis)),) if not cross else
                      [(x, (core.stats(a, b, axis=axis)[0][i], core.stats(a, b, axis=axis)[1][i])) for i, x in enumerate((a, b))]):
        mm = np.empty([s for i, s in enumerate(shape) if i != axis % len(shape)], object)
        vv = mm.copy()
        for q, x in cols(f, axis):
            wm, wv = mv(x)
            mm[q], vv[q] = sc(wm), sc(wv)
        P.eq("mean", m, mm)
        P.eq("variance", v, vv)


def subtract(P, cd, shape, axis, given, ret, inplace):
    a = P.cplx("a", shape)
    fs = tuple(s for i, s in enumerate(shape) if i != axis % len(shape))
    bg = P.cplx("bg", fs) if given else None
    src = a.copy()
    out = a if inplace else None
    got = cd.core.subtract_background(a, axis=axis, bg=bg, return_bg=ret, out=out)
    if ret:
        got, rb = got
    want = np.empty(shape, object)
    wb = np.empty(fs, object)
    for q, x in cols(src, axis):
        m = bg[q] if given else sc(mv(x)[0])
        wb[q] = m
        idx = list(q)
        idx.insert(axis % len(shape), slice(None))
        want[tuple(idx)] = [e - m for e in x]
    P.eq("subtracted", got, want)
    if ret:
        P.eq("background", rb, wb)
    if inplace:
        P.same("in place", got is a, True)
    else:
        P.eq("input is not changed", a, src)


def cases(tier):
    th = tier == "thorough"
    out = []

    def add(N, chunk, shape=(1, 2), cross=True, multi=False, mask=None, td=None, bg=False, method="corr", watch=False, extra=0, mode=None):
        n = nm("multi" if multi else "linear", "cross" if cross else "auto", "frames", N, "extra" if extra else "", shape, "chunk", chunk, "mask" if mask else "", "divisor" if td else "", "background" if bg else "", method, mode or "")
        if all(c.name != n for c in out):
            out.append(Case(n, case, dict(N=N, extra=extra, shape=shape, chunk=chunk, cross=cross, multi=multi, mask=mask, td=td, bg=bg, method=method, watch=watch, mode=mode)))
    for cross in (True, False):
        for multi in (False, True):
            add(4, 2, cross=cross, multi=multi)
            add(8, 2, cross=cross, multi=multi, shape=(2, 2))
            add(6, 3, cross=cross, multi=multi, shape=(2,), extra=1)
            add(3, 3, cross=cross, multi=multi)
            add(4, 1, cross=cross, multi=multi)
            add(4, 2, cross=cross, multi=multi, method="diff")
            add(4, 2, cross=cross, multi=multi, method="fft")
            add(8, 4, cross=cross, multi=multi, td=2, shape=(2, 2))
            add(4, 2, cross=cross, multi=multi, td=4, shape=(4,))
            add(4, 2, cross=cross, multi=multi, mask=[[True, False], [True, True]], shape=(2, 2))
            add(4, 2, cross=cross, multi=multi, mask=[[False, True], [True, False]], td=2, shape=(2, 2))
            add(4, 2, cross=cross, multi=multi, bg=True)
            add(8, 2, cross=cross, multi=multi, bg=True, shape=(2,))
            add(8, 2, cross=cross, multi=multi, mode="chunk")
            add(8, 2, cross=cross, multi=multi, shape=(2,), mode="chunk", bg=True)
            add(8, 1, cross=cross, multi=multi, shape=(2,), mode="full")
            if th:
                for N, c in ((16, 1), (16, 2), (16, 4), (16, 8), (12, 3), (10, 5)):
                    add(N, c, cross=cross, multi=multi)
                    add(N, c, cross=cross, multi=multi, bg=True)
        out.append(Case(nm("viewer", "cross" if cross else "auto"), partial, dict(N=6 if not th else 12, chunk=3, cross=cross)))
        out.append(Case(nm("viewer short chunks", "cross" if cross else "auto"), partial, dict(N=4, chunk=1, cross=cross)))
        for shape, axis in (((3,), 0), ((3, 2), 0), ((2, 3), 1), ((2, 3), -1), ((2, 3, 2), 1), ((4, 2, 2), 0)):
            out.append(Case(nm("stats", "cross" if cross else "auto", shape, axis), mem, dict(shape=shape, axis=axis, cross=cross)))
    for shape, axis in (((3, 2), 0), ((2, 3), 1), ((2, 3), -1), ((2, 3, 2), 1), ((3,), 0), ((3, 2, 2), 0)):
        for given in (False, True):
            for ret, inp in ((False, False), (True, False), (False, True), (True, True)):
                out.append(Case(nm("subtract background", shape, axis, "given" if given else "mean", "ret" if ret else "", "in place" if inp else ""), subtract,
                                dict(shape=shape, axis=axis, given=given, ret=ret, inplace=inp)))
    return out
