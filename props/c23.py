"""k-selection and the data viewers"""
from .common import *
from .c22 import vectors, angle_of, member, clear_of, D
import math
import numpy as np

BOUNDS = "quick: full grids 3x3, 3x5, 5x3, every sector centre (symbolic), widths 20..180 degrees, three resolutions; all data values; every mask of half-space data of 3x2; thorough: 5x5, 7x5 and symbolic width"
OUTSIDE = "the Nyquist row and column of even sizes; sector borders closer than 1e-6 to a grid point; the matplotlib part of the viewers"
STUBS = "none"
LEVEL = None


def selection(P, H, W, shape, angle, width, kstep):
    """{ring: [(i, j)]} of the full grid"""
    v = vectors(H, W, shape)
    o = {0: [(0, 0)]}
    for i in range(H):
        for j in range(W):
            if (i, j) != (0, 0):
                n = math.hypot(*v[i][j])
                if bool(member(P, angle_of(v[i][j]), (angle - width / 2) * D, (angle + width / 2) * D)):
                    o.setdefault(math.ceil(n / kstep - 0.5), []).append((i, j))
    return o, v


def points(sel, H, W, half, mask=None):
    """[(slot, conjugated)] of the elements"""
    o = []
    for i, j in sel:
        if half and j > W // 2:
            i, j, c = -i % H, W - j, True
        else:
            c = False
        if mask is None or mask[i, j]:
            o.append(((i, j), c))
    return sorted(o)


def mean(get, pts):
    s = 0
    for q, c in pts:
        z = get(q)
        s = s + (cj(z) if c else z)
    return s * (1 / len(pts)) if len(pts) > 1 else s


def pick_angle(P, H, W, shape, lo, hi, width):
    angle = P.ctl("angle", lo, hi)
    ts = sorted({angle_of(x) for r in vectors(H, W, shape) for x in r})
    clear_of(P, ts, (angle - width / 2) * D)
    clear_of(P, ts, (angle + width / 2) * D)
    return angle


def compare(P, res, sel, v, data, H, W, half, mask, front, n, label="", conv=None):
    """res: tuple of (k, data) for increasing rings"""
    want = []
    for q in sorted(sel):
        pts = points(sel[q], H, W, half, mask)
        if pts:
            want.append((q, pts))
    P.same(label + "number of rings", len(res), len(want))
    for (k, d), (q, pts) in zip(res, want):
        one(P, (k, d), q, pts, v, data, H, front, n, label)


def one(P, r, q, pts, v, data, H, front, n, label):
    k, d = r
    P.eq("%sk of ring %d" % (label, q), k, sum(math.hypot(*v[i][j]) for (i, j), c in pts) / len(pts), tol=1e-9)
    P.same("%sshape of ring %d" % (label, q), tuple(d.shape), front + (n,))
    for f in np.ndindex(*front):
        for m in range(n):
            P.eq("%sring %d delay %d" % (label, q, m), d[f + (m,)], mean(lambda s: data[f + s + (m,)], pts))


def select(P, cd, H, W, shape, lo, hi, width, mode, cplx, front, kform):
    half = mode == "rfft2"
    W2 = (W + 1) // 2 if half else W
    n = 2
    data = (P.cplx if cplx else P.real)("x", front + (H, W2, n))
    keep = data.copy()
    kstep = P.choice("kstep", [1., 0.8, 2.3])
    if width is None:
        width = P.ctl("sector", 1, 180)
    angle = pick_angle(P, H, W, shape, lo, hi, width)
    kw = dict(angle=angle, sector=width, kstep=kstep, shape=shape, mode=mode)
    sel, v = None, None
    if kform == "all":
        res = cd.map.k_select(data, **kw)
        sel, v = selection(P, H, W, shape, angle, width, kstep)
        P.same("tuple", isinstance(res, tuple), True)
        compare(P, res, sel, v, keep, H, W, half, None, front, n)
    elif kform == "list":
        ks = [1, 7, 0.2]
        res = cd.map.k_select(data, k=ks, **kw)
        sel, v = selection(P, H, W, shape, angle, width, kstep)
        want = [q for q in (1, 7, 0) if points(sel.get(q, []), H, W, half)]
        P.same("number of rings", len(res), len(want))
        for r, q in zip(res, want):
            one(P, r, q, points(sel[q], H, W, half), v, keep, H, front, n, "")
    else:
        q = P.choice("k", [0, 1, 2, 7])
        res = cd.map.k_select(data, k=q, **kw)
        sel, v = selection(P, H, W, shape, angle, width, kstep)
        pts = points(sel.get(q, []), H, W, half)
        if pts:
            one(P, res, q, pts, v, keep, H, front, n, "")
        else:
            P.same("nothing there", res, None)
    P.eq("data unchanged", data, keep)


def masked(P, cd, H, W, shape, mode, taken, width, fill, free=None):
    """a mask of the computed elements: full-size data (NaN elsewhere) or only the masked elements"""
    half = mode == "rfft2"
    W2 = (W + 1) // 2 if half else W
    n = 2
    x = P.cplx("x", (H, W2, n))
    if free is None:
        mask = P.bools("mask", (H, W2))
        m = np.array([[bool(e) for e in r] for r in mask])
    else:
        m = np.ones((H, W2), bool)
        for q, e in zip(free, P.bools("mask", (len(free),))):
            m[q] = bool(e)
    P.assume(m.any())
    angle = P.choice("angle", [0., 45., -70., 150.])
    data = x.copy()
    if fill:
        data[~m] = np.nan
    if taken:
        data = data[m]
    keep = data.copy()
    res = cd.map.k_select(data, angle, width, 1., shape=shape, mask=m, mode=mode)
    sel, v = selection(P, H, W, shape, angle, width, 1.)
    compare(P, res, sel, v, x, H, W, half, m, (), n)
    if not fill:
        P.eq("data unchanged", data, keep)


def nans(P, cd, H, W, mode):
    """missing data points are ignored"""
    half = mode == "rfft2"
    W2 = (W + 1) // 2 if half else W
    x = P.cplx("x", (H, W2, 1))
    data = x.copy()
    i, j = P.int("i", 0, H - 1), P.int("j", 0, W2 - 1)
    i, j = int(i), int(j)
    P.assume((i, j) != (0, 0))
    data[i, j] = np.nan
    m = np.ones((H, W2), bool)
    m[i, j] = False
    res = dict()
    for k in (1, 2):
        r = cd.map.k_select(data, 0., 180., 1., k=k, mode=mode)
        sel, v = selection(P, H, W, None, 1e-4, 180., 1.)
        sel, v = selection(P, H, W, None, 0., 180., 1.)
        pts = points(sel.get(k, []), H, W, half, m)
        if r is not None and pts:
            P.eq("ring %d" % k, r[1][0], mean(lambda s: x[s + (0,)], pts))


def repr_of(P, z, mode):
    if mode == "real":
        return re(z)
    if mode == "imag":
        return im(z)
    return P.np.sqrt(re(z) * re(z) + im(z) * im(z))


def common(P, H, W, shape, usemask):
    W2 = (W + 1) // 2
    m = None
    if usemask:
        m = np.ones((H, W2), bool)
        for q in usemask[1]:
            m[q] = False
    return W2, m


def check_view(P, view, t, want, sel, v, q, pts, n, label, cplx=True):
    """what the viewer returns against the mean over the points"""
    for mode in ("real", "imag", "abs"):
        view.mode = mode
        tt, y = view.get_data()
        P.same(label + "times", [float(e) for e in np.asarray(tt)], [float(e) for e in t])
        P.same(label + "length", len(y), n)
        for i in range(n):
            z = mean(lambda s: want(s, i), pts)
            if mode == "abs":
                P.eq(label + "abs squared", y[i] * y[i], re(z) * re(z) + im(z) * im(z))
                if cplx:
                    P.true(label + "abs positive", y[i] >= 0)
            else:
                P.eq(label + mode, y[i], repr_of(P, z, mode))
    P.eq(label + "k", view.get_k(), sum(math.hypot(*v[a][b]) for (a, b), c in pts) / len(pts), tol=1e-9)


def settings(P, H, W, shape, m):
    angle = P.choice("angle", [0., 40., -90., 80.])
    width = P.choice("sector", [30., 180.])
    q = P.choice("k", [0, 1, 2])
    sel, v = selection(P, H, W, shape, angle, width, 1.)
    pts = points(sel.get(q, []), H, W, True, m)
    return angle, width, q, sel, v, pts


def view_data(P, cd, H, W, shape, usemask):
    W2, m = common(P, H, W, shape, usemask)
    n = 2
    x = P.cplx("x", (H, W2, n))
    angle, width, q, sel, v, pts = settings(P, H, W, shape, m)
    view = cd.viewer.DataViewer(shape=shape, mask=m)
    P.raises("no data", view.get_data, ValueError)
    data = x[m] if usemask and usemask[0] else x
    keep = data.copy()
    P.raises("wrong times", lambda: view.set_data(data, [1, 2, 3]), ValueError)
    times = P.choice("times", [None, [3, 8]])
    view.set_data(data, times)
    if P.choice("other mask before", [False, True]):
        view.set_mask(1, 10., 170.)
        view.get_data()
    ok = view.set_mask(q, angle, width)
    P.same("valid mask", bool(ok), bool(pts))
    if pts:
        check_view(P, view, times or [0, 1], lambda s, i: x[s + (i,)], sel, v, q, pts, n, "")
    P.eq("data unchanged", data, keep)


def view_corr(P, cd, H, W, shape, usemask, cross, cplx, size, norm, fold, multi):
    """raw correlation data: normalised, folded, averaged, then as for normalised data"""
    W2, m = common(P, H, W, shape, usemask)
    n = 4
    cols = 2 * n - 1 if (cplx and cross) else n
    N = cd.norm
    fs = (H, W2)
    cnt = P.array(np.arange(1, cols + 1) + 4)

    def raw(pre):
        c = (P.cplx if cplx else P.real)(pre + "c", fs + (cols,))
        if not norm:
            return (c, cnt, None, None, None)
        s1 = P.cplx(pre + "s1", fs + (cols,))
        return (c, cnt, None, s1, P.cplx(pre + "s2", fs + (cols,)) if cross else None)
    data = raw("a")
    if multi:
        # the slow levels have half the fast size, starting at zero delay
        h = n // 2
        ks = 2 * h if not (cplx and cross) else 2 * n - 1
        c = (P.cplx if cplx else P.real)("b", (1,) + fs + (n,))
        data = (data, (c, P.array(np.array([[4, 3, 2, 1]])), None, None, None))
    bg = va = None
    if norm:
        b = [P.cplx("b%d" % i, fs) for i in range(2)]
        s = [P.real("v%d" % i, fs) for i in range(2)]
        bg, va = ((b[0], b[1]), (s[0], s[1])) if cross else (b[0], s[0])
    angle, width, q, sel, v, pts = settings(P, H, W, shape, m)
    P.assume(bool(pts))
    if multi:
        full = N.normalize if 0 else cd.multitau.normalize_multi(data, bg, va, norm=norm)
    else:
        full = N.normalize(data, bg, va, norm=norm)
    if multi:
        t, full = cd.multitau.log_merge(*full, fold=False)
    else:
        if cplx and (cross and fold is None or fold):
            full = N.fold_data(full)
        t = np.arange(full.shape[-1])
        if size:
            t, full = cd.multitau.log_average(full, size, fold=False)
    taken = usemask and usemask[0]
    pick = lambda a: a[..., m, :] if taken and a is not None else a
    pickb = lambda a: a if a is None or not taken else tuple(e[m] for e in a) if isinstance(a, tuple) else a[m]
    td = lambda d: tuple(e if i == 1 else pick(e) for i, e in enumerate(d))
    given = (tuple(td(d) for d in data) if multi else td(data))
    V = cd.viewer
    if multi:
        view = V.MultitauViewer(shape=shape, norm=norm, mask=m, fold=fold)
    else:
        view = V.CorrViewer(shape=shape, norm=norm, mask=m, fold=fold, size=size)
    view.set_data(given, pickb(bg), pickb(va))
    view.set_mask(q, angle, width)
    check_view(P, view, list(np.asarray(t)), lambda s, i: full[s + (i,)], sel, v, q, pts, len(np.asarray(t)), "", cplx)


def must_fold(P, cd):
    x = P.cplx("x", (3, 2, 3))
    view = cd.viewer.CorrViewer(norm=1)
    view.set_data((x, P.array([3, 2, 2]), None, None, None))
    view.set_mask(1, 0., 90.)
    P.raises("fold unknown", view.get_data, ValueError)


def arrays(P, cd, axes, norm, kind, fs=(2, 3)):
    """array viewers: average over the axes that are not fixed"""
    n = 3
    V = cd.viewer
    vals = [int(P.int("i%d" % k, -fs[k], fs[k] - 1)) for k in range(len(fs))]
    if kind == "data":
        full = P.cplx("x", fs + (n,))
        view = V.DataArrayViewer(axes=axes)
        view.set_data(full)
    else:
        c = P.real("c", fs + (n,))
        b = [P.cplx("b%d" % i, fs) for i in range(2)]
        s = [P.cplx("s%d" % i, fs + (n,)) for i in range(2)]
        cnt = P.array([4, 3, 2])
        data = (c, cnt, None, s[0], s[1]) if norm else (c, cnt, None, None, None)
        bg = (b[0], b[1]) if norm else None
        view = V.CorrArrayViewer(axes=axes, norm=norm)
        view.set_data(data, bg)
        full = cd.norm.normalize(data, bg, norm=norm)
    view.set_indices(*[vals[a] for a in axes])
    t, y = view.get_data()
    P.same("times", [float(e) for e in np.asarray(t)], [0., 1., 2.])
    pts = [q for q in np.ndindex(*fs) if all(q[a] == vals[a] % fs[a] for a in axes)]
    for i in range(n):
        P.eq("delay %d" % i, y[i], re(mean(lambda s: full[s + (i,)], [(q, False) for q in pts])))


def cases(tier):
    o = []
    big = tier != "quick"
    R = ((-180, -60), (-60, 60), (60, 180))
    for H, W, shape in [(3, 3, None), (3, 5, None), (5, 3, (10, 6))] + ([(5, 5, None), (7, 5, (9, 7))] if big else []):
        for mode in ("rfft2", "fft2"):
            for lo, hi in R:
                for width in (20., 90., 180.):
                    if (H, W) != (3, 3) and mode == "fft2" and not big:
                        continue
                    o.append(Case(nm("select", mode, H, W, str(lo), width), select, dict(H=H, W=W, shape=shape, lo=lo, hi=hi, width=width, mode=mode, cplx=True, front=(), kform="all")))
    for mode in ("rfft2", "fft2"):
        for lo, hi in R:
            for kf in ("list", "scalar"):
                o.append(Case(nm("select", kf, mode, str(lo)), select, dict(H=3, W=3, shape=None, lo=lo, hi=hi, width=100., mode=mode, cplx=True, front=(), kform=kf)))
        o.append(Case(nm("select stack", mode), select, dict(H=3, W=3, shape=None, lo=-50, hi=50, width=100., mode=mode, cplx=True, front=(2,), kform="all")))
        o.append(Case(nm("select real", mode), select, dict(H=3, W=3, shape=None, lo=-50, hi=50, width=100., mode=mode, cplx=False, front=(), kform="all")))
        if big:
            for a in range(-180, 180, 30):
                o.append(Case(nm("select any width", mode, str(a)), select, dict(H=3, W=3, shape=None, lo=a, hi=a + 30, width=None, mode=mode, cplx=True, front=(), kform="all")))
        for taken in (False, True):
            for fill in (False, True):
                if not (taken and fill):
                    for w in (60., 180.):
                        if mode == "rfft2" or big:
                            o.append(Case(nm("masked", mode, "taken" if taken else "", "nan" if fill else "", w), masked, dict(H=3, W=3, shape=None, mode=mode, taken=taken, width=w, fill=fill)))
        for taken in (False, True):
            for H, W, shape, free in [(3, 3, None, [(0, 1), (1, 1), (2, 0), (2, 1)]), (5, 5, (7, 10), [(0, 2), (1, 1), (4, 2), (3, 0)])]:
                for w in (40., 180.) if big or H == 3 else (100.,):
                    o.append(Case(nm("masked in part", mode, H, W, "taken" if taken else "", w), masked, dict(H=H, W=W, shape=shape, mode=mode, taken=taken, width=w, fill=False, free=free)))
        o.append(Case(nm("missing", mode), nans, dict(H=3, W=3, mode=mode)))
    M = [None, (False, [(0, 1), (2, 0)]), (True, [(0, 1), (2, 0)])]
    for H, W, shape in [(3, 3, None), (5, 3, (9, 5))]:
        for um in M:
            tag = "" if um is None else "taken" if um[0] else "mask"
            o.append(Case(nm("viewer", H, W, tag), view_data, dict(H=H, W=W, shape=shape, usemask=um)))
    for um in M:
        tag = "" if um is None else "taken" if um[0] else "mask"
        for cross in (True, False):
            for cplx in (True, False):
                for norm in (1, 5):
                    fold = None if not cplx or norm == 5 else True if cross else False
                    for size in (None, 2):
                        o.append(Case(nm("corr viewer", tag, "cross" if cross else "auto", "complex" if cplx else "real", norm, size or "lin"), view_corr,
                                      dict(H=3, W=3, shape=None, usemask=um, cross=cross, cplx=cplx, size=size, norm=norm, fold=fold, multi=False)))
        o.append(Case(nm("corr viewer not folded", tag), view_corr, dict(H=3, W=3, shape=None, usemask=um, cross=True, cplx=True, size=None, norm=1, fold=False, multi=False)))
        o.append(Case(nm("multitau viewer", tag), view_corr, dict(H=3, W=3, shape=None, usemask=um, cross=True, cplx=False, size=None, norm=1, fold=None, multi=True)))
    o.append(Case("fold unknown", must_fold))
    for ax in ((0,), (1,), (0, 1), (1, 0), ()):
        for kind, norm in (("data", 0), ("corr", 1), ("corr", 5)):
            if ax or kind == "data":
                o.append(Case(nm("array viewer", kind, str(norm), str(ax)), arrays, dict(axes=ax, norm=norm, kind=kind)))
    for ax in ((), (0,), (1,), (2,), (0, 2), (2, 1, 0)):
        for kind, norm in (("data", 0), ("corr", 1)):
            if ax or kind == "data":
                o.append(Case(nm("array viewer 3", kind, str(ax)), arrays, dict(axes=ax, norm=norm, kind=kind, fs=(2, 1, 2))))
    o.append(Case("array viewer 4", arrays, dict(axes=(0,), norm=0, kind="data", fs=(2, 2, 2, 2))))
    return o
