"""iccorr / iacorr: the result does not depend on how the stream is cut into chunks"""
from .common import *

BOUNDS = ("quick: 4..8 frames of 1 or 2 elements, chunk sizes 1..8, n_out 1..4, all methods/norms, regular times and symbolic increasing times; "
          "thorough: up to 16 frames, all chunk sizes")
OUTSIDE = "IEEE rounding; sizes beyond the bounds; trigger times where frames further apart than one chunk have a delay below n (documented use has increasing triggers)"
STUBS = "cddm's FFT back ends: exact DFT by contract; progress printing"


def stream(f1, f2, cross, tup=True):
    for i in range(f1.shape[0]):
        yield (f1[i], f2[i]) if cross else ((f1[i],) if tup else f1[i])


def trig(P, name, n, gap):
    """strictly increasing trigger times with gaps 1..gap"""
    d = P.ints(name, (n,), 0, gap - 1)
    t, out = 0, []
    for i in range(n):
        t = t + d[i] + (1 if i else 0)
        out.append(t)
    return out


def case(P, cd, N, extra, shape, n, chunk, method, norm, cplx, cross, mode, irr, count, nlist, bg):
    f1 = P.cplx("f1", (N + extra,) + shape)
    f2 = P.cplx("f2", (N + extra,) + shape) if cross else None
    kw = {}
    t1 = t2 = arange(N)
    if irr:
        half = chunk if chunk else N
        t1 = trig(P, "t1", N, 2)
        t2 = trig(P, "t2", N, 2) if cross else t1
        for i in range(N):
            for j in range(N):
                if i // half > j // half + 1 or j // half > i // half + 1:
                    P.assume(abs(t1[i] - t2[j]) >= n)
        a1 = np.array(t1, object) if False else t1
        if cross:
            kw.update(t1=list(t1), t2=list(t2))
        else:
            kw.update(t=list(t1))
    elif count:
        kw["count"] = N
    elif nlist:
        pass
    else:
        if cross:
            kw.update(t1=np.arange(N), t2=np.arange(N))
        else:
            kw.update(t=np.arange(N))
    data = list(stream(f1, f2, cross)) if nlist else stream(f1, f2, cross)
    if chunk:
        kw["chunk_size"] = chunk
    if cplx:
        kw["complex"] = True
    if mode != "full":
        kw["mode"] = mode
    if bg:
        kw["auto_background"] = True
    fn = cd.core.iccorr if cross else cd.core.iacorr
    got = fn(data, n=n, norm=norm, method=method, stats=False, **kw)
    g1, g2 = stackf(frames(f1[:N])), (stackf(frames(f2[:N])) if cross else None)
    half = chunk if chunk else N
    if bg:
        g1 = g1 - sum(g1[i] for i in range(half)) * (1 / Fraction(half))
        if cross:
            g2 = g2 - sum(g2[i] for i in range(half)) * (1 / Fraction(half))
    if mode == "full":
        want = ctuple(P, g1, g2, abs2o(g1), abs2o(g2) if cross else None, t1, t2, 0, n, method, norm, cplx, cross)
    else:
        want = None
        for c in range(0, N, half):
            s = slice(c, c + half)
            w = ctuple(P, g1[s], g2[s] if cross else None, abs2o(g1[s]), abs2o(g2[s]) if cross else None, t1[s], t2[s], 0, n, method, norm, cplx, cross)
            want = w if want is None else addt(want, w)
    eqt(P, "iterative", got, want, method)


from fractions import Fraction


def pair(P, cd, N, shape, n, c1, c2, method, norm, cplx, cross):
    """two chunk sizes (and the in-memory function) agree"""
    f1 = P.cplx("f1", (N,) + shape)
    f2 = P.cplx("f2", (N,) + shape) if cross else None
    fn = cd.core.iccorr if cross else cd.core.iacorr
    a = fn(stream(f1, f2, cross, False), count=N, n=n, norm=norm, method=method, chunk_size=c1, complex=cplx, stats=False)
    b = fn(stream(f1, f2, cross, False), count=N, n=n, norm=norm, method=method, chunk_size=c2, complex=cplx, stats=False)
    if cross:
        c = cd.core.ccorr(f1, f2, n=n, norm=norm, method=method, complex=cplx)
    else:
        c = cd.core.acorr(f1, n=n, norm=norm, method=method, complex=cplx)
    eqt(P, "chunk sizes", a, b, method)
    eqt(P, "in memory", a, c, method)


class Watch:
    """a viewer that remembers what it was given"""
    def __init__(self, P):
        self.P, self.data, self.kw, self.plots = P, [], [], 0

    def set_data(self, data, **kw):
        self.data.append(tuple(None if d is None else d.copy() for d in data))
        self.kw.append(kw)

    def plot(self):
        self.plots += 1


def watch(P, cd, N, chunk, n, norm, method, cplx, cross, interval, stats, crop):
    """every result handed to a viewer is the correlation of the frames read so far; the requested
    count is cropped to a length that can be processed"""
    f1 = P.cplx("f1", (N + crop, 1, 1))
    f2 = P.cplx("f2", (N + crop, 1, 1)) if cross else None
    v = Watch(P)
    fn = cd.core.iccorr if cross else cd.core.iacorr
    got = fn(stream(f1, f2, cross), count=N + crop, n=n, norm=norm, method=method, chunk_size=chunk, complex=cplx, stats=stats, viewer=v, viewer_interval=interval)
    if stats:
        got = got[0]
    ends = [c + chunk for c in range(0, N, chunk)] + [N]

    def want(m):
        g1, g2 = stackf(frames(f1[:m])), (stackf(frames(f2[:m])) if cross else None)
        t = arange(m)
        return ctuple(P, g1, g2, abs2o(g1), abs2o(g2) if cross else None, t, t, 0, n, method, norm, cplx, cross)
    ends = ends[::interval]
    P.same("number of updates", (len(v.data), v.plots), (len(ends), len(ends)))
    P.same("statistics", [sorted(k) for k in v.kw], [["background", "variance"] if stats else []] * len(ends))
    for i, (d, m) in enumerate(zip(v.data, ends)):
        eqt(P, "update %d" % i, d, want(m), method)
    eqt(P, "result", got, want(N), method)


def errors(P, cd):
    f = P.cplx("f", (4, 2))
    core = cd.core
    P.raises("short stream", lambda: core.iccorr(stream(f, f, True), count=8, n=2, chunk_size=2))
    P.raises("short stream", lambda: core.iacorr(stream(f, f, False), count=8, n=2, norm=1, chunk_size=4))
    P.raises("one time list", lambda: core.iccorr(stream(f, f, True), t1=np.arange(4), n=2))
    P.raises("mode", lambda: core.iccorr(stream(f, f, True), count=4, n=2, mode="foo"))
    P.raises("n larger than the chunk", lambda: core.iccorr(stream(f, f, True), count=4, n=3, chunk_size=2))
    P.raises("no count", lambda: core.iccorr(stream(f, f, True), n=2))


def cases(tier):
    th = tier == "thorough"
    out = []

    def add(N, chunk, n, shape=(2,), method="corr", norm=3, cplx=False, cross=True, mode="full", irr=False, extra=0, count=True, nlist=False, bg=False):
        name = nm("cross" if cross else "auto", "frames", N, shape, "chunk", str(chunk), "n", n, method, "norm", norm, "cplx" if cplx else "", mode if mode != "full" else "",
                  "irr" if irr else "", "longer stream" if extra else "", "list" if nlist else "", "background" if bg else "", "" if count else "t")
        if any(c.name == name for c in out):
            return
        out.append(Case(name, case, dict(N=N, extra=extra, shape=shape, n=n, chunk=chunk, method=method, norm=norm, cplx=cplx, cross=cross, mode=mode, irr=irr, count=count, nlist=nlist, bg=bg)))
    for cross in (True, False):
        for cplx in (False, True):
            for norm in (1, 2, 3, 5, 6, 7):
                add(8, 2, 2, norm=norm, cplx=cplx, cross=cross, shape=(1, 1))
            add(8, 4, 3, norm=7, cplx=cplx, cross=cross)
            add(4, 1, 1, norm=7, cplx=cplx, cross=cross)
            add(8, 8, 4, norm=7, cplx=cplx, cross=cross, shape=(1, 2))
            add(6, 3, 3, norm=7, cplx=cplx, cross=cross, extra=2, shape=(1, 1))
            add(6, None, 4, norm=7, cplx=cplx, cross=cross, nlist=True, count=False, shape=(1, 2))
            add(4, 2, 2, norm=7, cplx=cplx, cross=cross, mode="chunk", shape=(1, 2))
            add(8, 4, 3, norm=3, cplx=cplx, cross=cross, mode="chunk", shape=(1, 1))
            add(4, 2, 2, norm=7, cplx=cplx, cross=cross, irr=True, shape=(1, 2))
            add(6, 3, 3, norm=7, cplx=cplx, cross=cross, irr=True, shape=(1, 1))
            add(4, 1, 1, norm=3, cplx=cplx, cross=cross, irr=True, shape=(1, 1))
            if not cross:
                add(8, 4, 2, norm=3, cplx=cplx, cross=cross, irr=True, shape=(1, 1))
            add(4, 2, 2, method="fft", norm=7, cplx=cplx, cross=cross, shape=(1, 2))
            add(8, 4, 3, method="fft", norm=3, cplx=cplx, cross=cross, shape=(1, 1))
            add(4, 2, 2, norm=7, cplx=cplx, cross=cross, bg=True, shape=(1, 1))
            add(4, 2, 2, norm=7, cplx=cplx, cross=cross, count=False, shape=(1, 1))
        add(8, 2, 2, method="diff", norm=2, cross=cross, shape=(1, 2))
        add(6, 3, 3, method="diff", norm=2, cross=cross, shape=(1, 1), irr=True)
        if cross:
            add(8, 4, 4, method="diff", norm=6, cross=cross, shape=(1, 2))
        out.append(Case(nm("chunk sizes 2 and 4 agree", "cross" if cross else "auto"), pair, dict(N=8, shape=(1, 1), n=2, c1=2, c2=4, method="corr", norm=7, cplx=True, cross=cross)))
        for cplx in (False, True):
            out.append(Case(nm("viewer", "cross" if cross else "auto", "cplx" if cplx else ""), watch,
                            dict(N=4, chunk=2, n=2, norm=7, method="corr", cplx=cplx, cross=cross, interval=1, stats=cplx, crop=0)))
        out.append(Case(nm("viewer interval and cropped count", "cross" if cross else "auto"), watch,
                        dict(N=8, chunk=2, n=2, norm=3, method="corr", cplx=False, cross=cross, interval=2, stats=False, crop=3)))
        out.append(Case(nm("cropped count", "cross" if cross else "auto"), watch,
                        dict(N=6, chunk=3, n=2, norm=2, method="diff", cplx=False, cross=cross, interval=1, stats=False, crop=1)))
        if th:
            for cplx in (False, True):
                for N in (8, 16):
                    for chunk in (1, 2, 4, 8, 16):
                        if chunk <= N:
                            add(N, chunk, min(chunk, 5), norm=7, cplx=cplx, cross=cross, shape=(1, 1))
                            add(N, chunk, min(chunk, 5), norm=7, cplx=cplx, cross=cross, mode="chunk", shape=(1, 1))
                            if N == 8 and chunk >= 4 and not cross:
                                add(N, chunk, min(chunk, 3), norm=7, cplx=cplx, cross=cross, irr=True, shape=(1, 1))
                                add(N, chunk, min(chunk, 3), norm=7, cplx=cplx, cross=cross, bg=True, shape=(1, 1))
                add(12, 3, 3, norm=7, cplx=cplx, cross=cross, shape=(2, 2))
                add(10, 5, 4, method="fft", norm=7, cplx=cplx, cross=cross, shape=(1, 1))
    out.append(Case("errors", errors, {}))
    return out
