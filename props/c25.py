"""loading, threading, playing and showing videos"""
from .common import *
from .sched import Sched
import os, tempfile
import numpy as np

BOUNDS = "quick: videos of 0..4 multi-frames of 1..2 cameras; every interleaving of the reader thread and the consumer at queue operations (reader delayed at most twice in a row), queue sizes 0..2, every clock (symbolic non-decreasing times); thorough: up to 6 multi-frames"
OUTSIDE = "preemption inside of queue operations; the graphics libraries; videos that yield a different number of frames than announced"
STUBS = "threading.Thread and Queue: deterministic scheduler driven by symbolic choices; time.time: arbitrary non-decreasing symbolic times; ImageShow.show, pause: recorded; open_memmap: in-memory array (symbolic run only)"
LEVEL = None


def video(P, n, cams, shape=(2,), kind="r"):
    mk = dict(r=P.real, c=P.cplx)[kind]
    return [tuple(mk("x%d%d" % (i, c), shape) for c in range(cams)) for i in range(n)]


class NoLen:
    """an iterable (not an iterator) without length"""

    def __init__(self, v):
        self.v = v

    def __iter__(self):
        return iter(self.v)


FORMS = dict(list=lambda v: v, tuple=tuple, iterator=iter, generator=lambda v: (f for f in v), iterable=NoLen)


def load(P, cd, fn, form, n, cams, kind):
    v = video(P, n, cams, (2, 2), kind)
    x = FORMS[form](v)
    V = cd.video
    haslen = form in ("list", "tuple")
    given = P.choice("count given", [True, False])
    tmp = tempfile.mkdtemp(prefix="c25_")
    base = os.path.join(tmp, "video")
    f = (lambda *a: V.asmemmaps(base, *a)) if fn == "asmemmaps" else getattr(V, fn)
    try:
        if not given and not haslen:
            P.raises("count is required", lambda: f(x), ValueError)
            return
        out = f(x, n) if given else f(x)
        P.same("type", isinstance(out, tuple), True)
        if fn == "load":
            P.same("length", [len(o) for o in out], [cams] * n)
            for i in range(n):
                for c in range(cams):
                    P.eq("frame %d camera %d" % (i, c), out[i][c], v[i][c])
        else:
            P.same("shapes", [tuple(o.shape) for o in out], [(n, 2, 2)] * cams)
            P.same("dtypes", [np.dtype(o.dtype) for o in out], [np.dtype(f.dtype) for f in v[0]])
            for c in range(cams):
                for i in range(n):
                    P.eq("frame %d camera %d" % (i, c), out[c][i], v[i][c])
            if fn == "asmemmaps":
                P.same("files", sorted(getattr(o, "filename", None) or base + "_%d.npy" % c for c, o in enumerate(out)), sorted(base + "_%d.npy" % c for c in range(cams)))
            # and back to a video
            back = list(V.fromarrays(out))
            P.same("length of the video", [len(o) for o in back], [cams] * n)
            for i in range(n):
                for c in range(cams):
                    P.eq("fromarrays frame %d camera %d" % (i, c), back[i][c], v[i][c])
    finally:
        for c in range(cams):
            if os.path.exists(base + "_%d.npy" % c):
                os.remove(base + "_%d.npy" % c)
        os.rmdir(tmp)


class Env:
    """the video module with scheduler, clock and displays under control"""

    def __init__(self, P, cd, clock=False, plan=None):
        V = self.V = cd.video
        self.P, self.shown, self.n, self.pauses = P, {}, 0, 0
        self.s = Sched(P, plan=plan, idle=-1 if plan else 2)
        ns = type("threading", (), dict(Thread=staticmethod(self.s.Thread)))
        P.patch(V, "threading", ns)
        P.patch(V, "Queue", self.s.Queue)
        P.patch(V, "pause", self.pause)
        env = self

        class Show:
            def __init__(self, title="video", norm_func=lambda x: x):
                self.title, self.f = title, norm_func

            def show(self, im):
                env.shown.setdefault(self.title, []).append(self.f(im))
        P.patch(V, "ImageShow", Show)
        self.now = 0
        P.patch(V, "time", type("time", (), dict(time=staticmethod(self.time), sleep=staticmethod(lambda s: None))))
        self.clock = clock
        V._FIGURES.clear()

    def time(self):
        self.n += 1
        if self.clock:
            self.now = self.now + self.P.ctl("elapsed %d" % self.n, 0, 10)
        return self.now

    def pause(self, i=1):
        self.pauses += 1


def order(P, out, v, label=""):
    """the same multi-frames in the same order (the very same arrays)"""
    P.same(label + "number of frames", len(out), len(v))
    P.same(label + "frames in order", [[k for k, f in enumerate(v) if all(a is b for a, b in zip(f, o))] for o in out], [[k] for k in range(len(v))])


def threaded(P, cd, n, size, default):
    v = video(P, n, 2)
    e = Env(P, cd)
    try:
        it = e.V.threaded(iter(v)) if default else e.V.threaded(iter(v), size)
        out = []
        for frames in it:
            P.same("at least one frame", len(e.s.workers), 1)
            out.append(frames)
        order(P, out, v)
        P.same("reader is a daemon", [bool(w.daemon) for w in e.s.workers], [True])
    finally:
        e.s.close()


def nested(P, cd, n):
    """threaded source that is processed lazily"""
    v = video(P, n, 1)
    e = Env(P, cd)
    try:
        w = [f[0] for f in v]
        out = list(e.V.threaded(e.V.subtract(iter(v), iter(v[::-1])), 1))
        P.same("number of frames", len(out), n)
        for i in range(n):
            P.eq("frame %d" % i, out[i][0], v[i][0] - v[n - 1 - i][0])
    finally:
        e.s.close()


def playing(P, cd, fn, n, figs, fps):
    v = video(P, n, 2)
    e = Env(P, cd, clock=True)
    V = e.V
    try:
        x = iter(v)
        for f in range(figs):
            x = V.show_video(x, id=f, title="fig %d" % f)
        x = V.play(x, fps=fps) if fn == "play" else V.play_threaded(x, fps=fps)
        out = list(x)
        order(P, out, v)
        P.same("figures are forgotten", len(V._FIGURES), 0)
        for t, ims in e.shown.items():
            c = int(t.split()[1])
            w = [[k for k in range(n) if _is(im, v[k][c])] for im in ims]
            P.same("shown images are frames of the camera", [len(k) for k in w], [1] * len(ims))
            w = [k[0] for k in w]
            P.same("shown in order, each once", w, sorted(set(w)))
    finally:
        e.s.close()


def ahead(P, cd, fn, n):
    """the reader waits for long, then gets far ahead of the consumer, or the other way round"""
    v = video(P, n, 1)
    plan = [P.choice("reader waits", [0, 5, 300]), P.choice("reader is ahead", [1, 2, 30, 200]), P.choice("reader waits again", [0, 4, 150]), P.choice("reader is ahead again", [1, 30])]
    e = Env(P, cd, plan=plan)
    try:
        V = e.V
        x = V.threaded(iter(v), P.choice("size", [0, 1, 4])) if fn == "load" else V.play_threaded(V.show_video(iter(v)))
        out = list(x)
        order(P, out, v)
    finally:
        e.s.close()


def _is(im, f):
    return im is f or (im.shape == f.shape and all(_same(a, b) for a, b in zip(list(im), list(f))))


def _same(a, b):
    if hasattr(a, "d") and hasattr(b, "d"):
        return a.d == b.d
    return bool(a == b)


def ontime(P, cd, n):
    """play without delay shows every frame"""
    v = video(P, n, 1)
    e = Env(P, cd)
    try:
        out = list(e.V.play(e.V.show_video(iter(v)), fps=P.choice("fps", [1., 50.])))
        order(P, out, v)
        ims = [im for k in e.shown.values() for im in k]
        P.same("every frame was shown", len(ims), n)
        for i, im in enumerate(ims):
            P.eq("image %d" % i, im, v[i][0])
    finally:
        e.s.close()


def diff(P, cd, n, normalize, gated, neg=False):
    """difference images"""
    v = video(P, n, 2)
    if normalize:
        # one arbitrary value per frame pair
        v = [(P.np.concatenate((x[:1], P.array([1.]))), P.array([2., 1.5]) * (1 + i)) for i, (x, y) in enumerate(v)]
    for fs in v:
        for f in fs[:1] if normalize else fs:
            for q in range(2):
                P.assume((f[q] > (-3 if neg else 0.1)) & (f[q] < 3))
        if neg:
            # any sign, but the largest value is positive
            P.assume((fs[0][0] > 0.1) | (fs[0][1] > 0.1) | (fs[1][0] > 0.1) | (fs[1][1] > 0.1))
    e = Env(P, cd)
    try:
        kw = {}
        show = [True] * n
        if gated:
            t1 = [int(P.int("t1 %d" % i, 0, 2)) for i in range(n)]
            t2 = [i for i in range(n)]
            kw = dict(dt=(1, 2), t1=t1, t2=t2)
            show = [abs(a - b) in (1, 2) for a, b in zip(t1, t2)]
        out = list(e.V.play(e.V.show_diff(iter(v), title="d", normalize=normalize, **kw), fps=10.))
        order(P, out, v)
        ims = e.shown.get("d", [])
        want = [k for k in range(n) if show[k]]
        P.same("number of images", len(ims), len(want))
        for im, k in zip(ims, want):
            x, y = v[k]
            # x/m - y/m + 1/2 with m twice the largest of the (normalised) values
            sx, sy = (x[0] + x[1]) / 2, (y[0] + y[1]) / 2
            a = [x[0] * sy, x[1] * sy] if normalize else [x[0], x[1]]
            b = [y[0] * sx, y[1] * sx] if normalize else [y[0], y[1]]
            vals = a + b
            w = P.choice("largest", [0, 1, 2, 3])
            for z in vals:
                P.assume(z <= vals[w])
            for j in range(2):
                P.eq("image", (im[j] - 0.5) * vals[w] * 2, a[j] - b[j])
    finally:
        e.s.close()


def fftimage(P, cd, H, W, mode, clip):
    """images of the Fourier transform: zero frequency removed, scaled and clipped to 0..1, centred"""
    f = cd.video.norm_rfft2(clip, mode)
    x = P.real("x", (H, W))
    for q in np.ndindex(H, W):
        P.assume((x[q] < 1) & (x[q] > -1))
    x0 = x.copy()
    im = f(x)
    P.eq("frame unchanged", x, x0)
    F = cd.np.fft.rfft2(x0) if hasattr(cd, "symbolic") else np.fft.rfft2(x0)
    W2 = W // 2 + 1
    P.same("shape", tuple(im.shape), (H, W2))
    for i in range(H):
        for j in range(W2):
            z = F[i, j]
            got = im[(i + H // 2) % H, j]
            w = re(z) if mode == "real" else im_(z)
            if (i, j) == (0, 0):
                w = 0
            w = w / (2 * clip) + 0.5
            w = P.ite(w < 0, 0, P.ite(w > 1, 1, w))
            P.eq("element %d %d" % (i, j), got, w)


def im_(z):
    return z.imag


def random(P, cd, dual, n):
    e = Env(P, cd)
    try:
        mx = P.choice("max", [1., 4.])
        v = list(e.V.random_video((2, 3), n, max_value=mx, dual=dual))
        P.same("frames", [len(f) for f in v], [2 if dual else 1] * n)
        for fs in v:
            for f in fs:
                P.same("shape", tuple(f.shape), (2, 3))
                P.same("dtype", np.dtype(f.dtype), np.dtype(cd.conf.FDTYPE))
                for q in np.ndindex(2, 3):
                    P.true("range", (f[q] >= 0) & (f[q] <= mx))
    finally:
        e.s.close()


def cases(tier):
    o = []
    big = tier != "quick"
    for fn in ("asarrays", "asmemmaps", "load"):
        for form in FORMS:
            for n in (1, 3, 5):
                for cams in (1, 2):
                    for kind in ("r", "c"):
                        if (kind == "c" or n == 5) and form != "list":
                            continue
                        o.append(Case(nm(fn, form, n, cams, kind), load, dict(fn=fn, form=form, n=n, cams=cams, kind=kind)))
    for n in range(0, 7 if big else 5):
        for size in (0, 1, 2):
            o.append(Case(nm("threaded", str(n), str(size)), threaded, dict(n=n, size=size, default=False)))
    for n in (12, 70):
        for fn in ("load", "play"):
            o.append(Case(nm("ahead", fn, n), ahead, dict(fn=fn, n=n)))
    o.append(Case("threaded default", threaded, dict(n=3, size=0, default=True)))
    o.append(Case("threaded processing", nested, dict(n=3)))
    for n in range(0, 5 if big else 4):
        for figs in (0, 1, 2):
            for fn, fps in (("play", 5.), ("threaded", None), ("threaded", 5.)):
                if figs == 2 and (n > 2 or (fn == "threaded" and n > 1)) and not big:
                    continue
                if fn == "threaded" and n > 2 and figs and not big:
                    continue
                o.append(Case(nm(fn, str(n), "figures", str(figs), str(fps)), playing, dict(fn=fn, n=n, figs=figs, fps=fps)))
    for n in (1, 3):
        o.append(Case(nm("on time", n), ontime, dict(n=n)))
    for g in (False, True):
        for no in (False, True):
            o.append(Case(nm("difference", "gated" if g else "", "normalised" if no else ""), diff, dict(n=2 if g and not no else 1, normalize=no, gated=g)))
    o.append(Case("difference signs", diff, dict(n=1, normalize=False, gated=False, neg=True)))
    for H, W in [(2, 2), (3, 2), (2, 3)]:
        for mode in ("real", "imag"):
            o.append(Case(nm("fft image", H, W, mode), fftimage, dict(H=H, W=W, mode=mode, clip=2.)))
    for d in (False, True):
        for n in (0, 2):
            o.append(Case(nm("random", "dual" if d else "", str(n)), random, dict(dual=d, n=n)))
    return o
