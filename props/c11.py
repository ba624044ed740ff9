"""frame layout, masks and thread_divisor do not change the results"""
from .common import *
from .c08 import stream

BOUNDS = "quick: 2..10 frames of shape (2,), (4,), (2,2), (2,3), (1,4), every mask of a 2x2 frame with at least one valid element, all divisors; thorough: also 3x2 frames and every axis"
OUTSIDE = "IEEE rounding; sizes beyond the bounds; masks with no valid element"
STUBS = "cddm's FFT back ends: exact DFT by contract; progress printing"


def amask(P, shape):
    m = np.zeros(shape, bool)
    for k, q in enumerate(np.ndindex(*shape)):
        m[q] = P.choice("m%d" % k, [False, True])
    P.assume(bool(m.any()))
    return m


def masked(P, label, got, want, mask):
    """got at valid elements equals want, nan elsewhere (delays are the last axis)"""
    P.same(label + " shape", tuple(got.shape), tuple(want.shape))
    w = mask.nonzero()
    sel = (Ellipsis,) + w + (slice(None),)
    P.eq(label, got[sel], want[sel])
    w = np.logical_not(mask).nonzero()
    if len(w[0]):
        P.true(label + " is nan where masked", P.np.isnan(got[(Ellipsis,) + w + (slice(None),)]))


def roundtrip(P, cd, shape, axis, td, cplx, method, norm):
    """reshape_input, correlate, reshape_output == correlate"""
    core = cd.core
    a, b = P.cplx("a", shape), P.cplx("b", shape)
    n = shape[axis]
    fs = tuple(s for i, s in enumerate(shape) if i != axis % len(shape))
    ra, sa = core.reshape_input(a, axis=axis, thread_divisor=td)
    rb, sb = core.reshape_input(b, axis=axis, thread_divisor=td)
    P.same("frame shape", (tuple(sa), tuple(sb)), (fs, fs))
    P.same("length", ra.shape[axis], n)
    if td is not None:
        P.same("threads", [s for i, s in enumerate(ra.shape) if i != axis % ra.ndim][0], td)
    data = core.ccorr(ra, rb, axis=axis, n=2, norm=norm, method=method, complex=cplx)
    out = core.reshape_output(data, sa)
    t = arange(n)
    want = ctuple(P, a, b, abs2o(a), abs2o(b), t, t, axis, 2, method, norm, cplx, True)
    eqt(P, "round trip", out, want, method)
    one = core.reshape_output(data[0], sa)
    P.eq("single array", one, want[0])
    auto = core.acorr(ra, axis=axis, n=2, norm=norm & 7 if method != "diff" else 2, method=method, complex=cplx)
    out = core.reshape_output(auto, sa)
    eqt(P, "auto round trip", out, ctuple(P, a, None, abs2o(a), None, t, t, axis, 2, method, norm & 7 if method != "diff" else 2, cplx, False), method)


def maskrt(P, cd, shape, td, cplx):
    core = cd.core
    m = amask(P, shape)
    if td:
        P.assume(int(m.sum()) % td == 0)
    a, b = P.cplx("a", (3,) + shape), P.cplx("b", (3,) + shape)
    ra, sa = core.reshape_input(a, mask=m, thread_divisor=td)
    rb, sb = core.reshape_input(b, mask=m, thread_divisor=td)
    P.same("frame shape", tuple(sa), (int(m.sum()),))
    data = core.ccorr(ra, rb, n=2, norm=7, complex=cplx)
    out = core.reshape_output(data, sa, mask=m)
    t = arange(3)
    want = ctuple(P, a, b, abs2o(a), abs2o(b), t, t, 0, 2, "corr", 7, cplx, True)
    P.same("tuple", len(out), 5)
    P.eq("count", out[1], want[1])
    for k in (0, 2, 3, 4):
        masked(P, NAMES[False][k], out[k], want[k], m)
    masked(P, "single array", core.reshape_output(data[0], sa, mask=m), want[0], m)
    fr = P.cplx("fr", (int(m.sum()),))
    got = core.reshape_frame(fr.reshape(td, -1) if td else fr, sa, mask=m)
    P.eq("frame", got[m], fr)
    if not m.all():
        P.true("frame is nan where masked", P.np.isnan(got[np.logical_not(m)]))


def multi(P, cd, shape, td, mask, cross, cplx, stream_, method, align):
    """multi-tau and streaming algorithms: elementwise the same as without mask and thread_divisor"""
    N = 10 if not stream_ else 8
    a = P.cplx("a", (N,) + shape)
    b = P.cplx("b", (N,) + shape) if cross else None
    norm = (7 if cross else 3) if method != "diff" else 2
    m = None
    if mask:
        m = amask(P, shape)
        if td:
            P.assume(int(m.sum()) % td == 0)
    kw = dict(norm=norm, method=method)
    if cplx:
        kw["complex"] = True
    mt = cd.multitau
    if stream_ == "linear":
        fn = cd.core.iccorr if cross else cd.core.iacorr
        f = lambda x, y, **k: fn(stream(x, y, cross), count=N, n=2, chunk_size=4, stats=False, **dict(kw, **k))
    elif stream_:
        fn = mt.iccorr_multi if cross else mt.iacorr_multi
        f = lambda x, y, **k: fn(stream(x, y, cross), count=N, level_size=2, chunk_size=2, stats=False, **dict(kw, **k))
    else:
        kw["align"] = align
        f = (lambda x, y, **k: mt.ccorr_multi(x, y, level_size=5, **dict(kw, **k))) if cross else (lambda x, y, **k: mt.acorr_multi(x, level_size=5, **dict(kw, **k)))
    got = f(a, b, thread_divisor=td, mask=m)
    want = [f(a.reshape(N, 1, -1), None if b is None else b.reshape(N, 1, -1))]
    if stream_ == "linear":
        got, want = [got], [[want[0]]]
    for lv, g, w in zip(("fast", "slow"), got, want[0]):
        for k, name in enumerate(NAMES[method == "diff"]):
            P.same("%s %s is None" % (lv, name), g[k] is None, w[k] is None)
            if g[k] is None:
                continue
            if k == 1:
                P.eq("%s %s" % (lv, name), g[k], w[k])
            else:
                x = w[k].reshape(w[k].shape[:-3] + shape + w[k].shape[-1:])
                if m is None:
                    P.eq("%s %s" % (lv, name), g[k], x)
                else:
                    masked(P, "%s %s" % (lv, name), g[k], x, m)


def errors(P, cd):
    core = cd.core
    f = P.cplx("f", (3, 2, 3))
    P.raises("not a divisor", lambda: core.reshape_input(f, thread_divisor=4))
    P.raises("mask with another axis", lambda: core.reshape_input(f, axis=1, mask=np.ones((3, 3), bool)))
    P.raises("no shape and no mask", lambda: core.reshape_output(core.acorr(f, n=2)))
    P.raises("wrong size", lambda: core.reshape_output(core.acorr(f, n=2), (7,)))


def cases(tier):
    th = tier == "thorough"
    out = []
    for shape, axis, tds in (((3, 2), 0, (None, 1, 2)), ((3, 4), 0, (2, 4)), ((3, 2, 2), 0, (None, 1, 2, 4)), ((3, 2, 3), 0, (3, 6)), ((2, 3), 1, (None, 1, 2)), ((2, 3), -1, (2,)),
                             ((2, 3, 2), 1, (None, 2, 4)), ((2, 2, 3), 2, (2, 4)), ((2, 2, 3), -1, (4,)), ((2, 3, 1, 2), 1, (None, 2)), ((2, 2, 2, 3), 0, (3,))):
        for td in tds:
            for cplx in (False, True):
                out.append(Case(nm("round trip", shape, "axis", axis, "divisor", str(td), "cplx" if cplx else ""), roundtrip, dict(shape=shape, axis=axis, td=td, cplx=cplx, method="corr", norm=7)))
            if td == 2:
                out.append(Case(nm("round trip diff", shape, "axis", axis), roundtrip, dict(shape=shape, axis=axis, td=td, cplx=False, method="diff", norm=6)))
    for shape, td in (((2, 2), None), ((4,), None), ((2, 2), 2), ((2, 2), 1)) + (((2, 3), None), ((3, 2), 3)) * th:
        out.append(Case(nm("masked", shape, "divisor", str(td)), maskrt, dict(shape=shape, td=td, cplx=td is None)))
    for cross in (True, False):
        for st in (False, True, "linear"):
            s = "stream" if st is True else st or "memory"
            for shape, td in (((2,), None), ((4,), 2), ((2, 2), None), ((2, 2), 4), ((1, 4), 2), ((2, 1, 2), 2), ((2, 1, 2), None)):
                out.append(Case(nm("multi" if st != "linear" else "", s, "cross" if cross else "auto", shape, "divisor", str(td)), multi,
                                dict(shape=shape, td=td, mask=False, cross=cross, cplx=shape == (2, 2), stream_=st, method="corr" if shape != (1, 4) else "diff", align=shape == (4,))))
            for td in (None, 2):
                out.append(Case(nm("multi" if st != "linear" else "", s, "cross" if cross else "auto", "mask", "divisor", str(td)), multi,
                                dict(shape=(2, 2), td=td, mask=True, cross=cross, cplx=td is None, stream_=st, method="corr", align=False)))
    out.append(Case("errors", errors, {}))
    return out
