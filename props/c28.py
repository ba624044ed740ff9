"""trigger schedules and simulated videos"""
from .common import *
from .rand import python
import numpy as np

BOUNDS = "quick: every sequence of random numbers; 0..5 frames, period 1..6, minimum distances up to the period; videos of up to 6 steps with every pair of increasing trigger schedules of up to 3 frames; every intensity and background; thorough: more frames and longer periods"
OUTSIDE = "unsorted or repeated trigger times of a video; frame values beyond the range of the data type; dt_min larger than the period"
STUBS = "random number generators: arbitrary values in the documented range (symbolic integers)"
LEVEL = None


def single(P, cd, n, period, dtmin):
    """one trigger in every period, never closer than the minimum distance"""
    python(P)
    kw = {} if dtmin is None else dict(dt_min=dtmin)
    t = cd.sim.create_random_time(n, period, **kw)
    d = 1 if dtmin is None else dtmin
    P.same("number", len(t), n)
    P.same("dtype", np.dtype(t.dtype).kind, "i")
    for i in range(n):
        P.true("in its period", (t[i] >= i * period) & (t[i] < (i + 1) * period))
        if i:
            P.true("distance", t[i] - t[i - 1] >= max(d, 1))


def single_reach(P, cd, period, dtmin):
    """every allowed trigger sequence can occur: the times are those drawn"""
    python(P)
    a = [P.int("a%d" % i, 0, period - 1) for i in range(3)]
    # choose the random numbers
    it = iter(a)
    calls = []

    class R:
        def __getattr__(self, nm_):
            return getattr(cd.np.random, nm_)

        def randint(self, low, high=None, size=None, dtype=int):
            calls.append((low, high))
            if len(calls) == 1:
                low = 0
            v = next(it)
            P.assume((v >= low) & (v < high))
            return v

    class N:
        random = R()

        def __getattr__(self, nm_):
            return getattr(cd.np, nm_)
    P.patch(cd.sim, "np", N())
    t = cd.sim.create_random_time(3, period, dtmin)
    for i in range(3):
        P.eq("time", t[i], a[i] + i * period)
        if i:
            # nothing that is allowed is excluded
            P.same("upper bound", bool(calls[i][1] == period), True)
            P.true("lower bound", calls[i][0] <= P.ite(a[i - 1] + dtmin - period > 0, a[i - 1] + dtmin - period, 0))


def dual(P, cd, n, period, kind):
    """camera 1 anywhere in the first half of the (doubled) period, camera 2 at the start or the
    middle of it; now and then at the time of camera 1"""
    python(P)
    t1, t2 = getattr(cd.sim, "create_random_times%d" % kind)(n, period)
    P.same("numbers", (len(t1), len(t2)), (n, n))
    P.same("dtype", (np.dtype(t1.dtype).kind, np.dtype(t2.dtype).kind), ("i", "i"))
    for i in range(n):
        s = 2 * period * i
        P.true("camera 1", (t1[i] >= s) & (t1[i] < s + period))
        ok = (t2[i] == s) | (t2[i] == s + period)
        if kind == 2:
            ok = ok | (t2[i] == t1[i])
        P.true("camera 2", ok)
        P.true("delay", (t2[i] - t1[i] > -period) & (t2[i] - t1[i] <= period))
        if i:
            P.true("increasing", (t1[i] > t1[i - 1]) & (t2[i] > t2[i - 1]))
            # no delays between different periods get lost or mixed up
            P.true("next period", (t1[i] >= t1[i - 1] + period) | (t1[i] > t1[i - 1]))


def dual_reach(P, cd, n, period, kind):
    """every delay -period+1..period occurs for some random numbers: times follow the numbers drawn"""
    if not hasattr(P, "ctx"):
        python(P)
        cd.sim.create_random_times1(n, period)
        return
    from symex.arr import drawn
    t1, t2 = getattr(cd.sim, "create_random_times%d" % kind)(n, period)
    d = [v for k, v, a in drawn() if k == "randint"]
    P.same("numbers drawn", len(d) in (2 * n, 3 * n), True)
    import z3
    from symex.terms import zint
    if kind == 2:
        P.same("numbers drawn", len(d), 3 * n)
        for e in d[2 * n:]:
            P.assume(e != 0)
    # (camera 1, camera 2) takes every combination
    for i in range(n):
        for a in range(period):
            for b in (0, period):
                q = z3.And(zint(t1[i] - 2 * period * i) == a, zint(t2[i] - 2 * period * i) == b)
                P.same("trigger %d %d is possible" % (a, b), str(P.ctx._check(q)), "sat")


def trigger(P, cd, n, k):
    """the elements at the given indices, in order, each once"""
    data = [P.real("x%d" % i) for i in range(n)]
    idx = [P.int("i%d" % j, 0, n) for j in range(k)]
    form = P.choice("form", ["list", "array", "tuple"])
    idx = [int(i) for i in idx]
    arg = dict(list=list, array=np.array, tuple=tuple)[form](idx)
    used = []

    def gen():
        for i, d in enumerate(data):
            used.append(i)
            yield d
    out = list(cd.sim.data_trigger(gen(), arg))
    want = [i for i in sorted(set(idx)) if i < n]
    P.same("number", len(out), len(want))
    for g, i in zip(out, want):
        P.eq("element %d" % i, g, data[i])
    if want == sorted(set(idx)):
        P.same("stops after the last one", used, list(range(want[-1] + 1)))


def schedule(P, name, k, T):
    t = [int(P.int("%s%d" % (name, i), 0, T - 1)) for i in range(k)]
    for i in range(1, k):
        P.assume(t[i] > t[i - 1])
    return t


def video(P, cd, T, k1, k2, offset, dtype, simple):
    """frame i of a camera shows the particle at trigger time i of the camera"""
    shape = (T, 3)
    t1 = schedule(P, "t", k1, T)
    t2 = None if k2 is None else schedule(P, "u", k2, T)
    I = int(P.choice("intensity", [1, 7] + ([300] if dtype == "uint16" else [])))
    bg = P.int("background", 0, 100)
    kw = dict(shape=shape, background=bg, intensity=I, dtype=dtype, sigma=None)
    if offset:
        kw["offset"] = (1., 0.)
    n = 2
    steps = [np.array([[i + 0.5, 0.5], [(i * 2) % T + 0.5, 1.5]]) for i in range(T)]
    form = P.choice("form", ["list", "array"])
    conv = np.array if form == "array" else list
    used = []

    def gen():
        for i, s in enumerate(steps):
            used.append(i)
            yield P.array(s)
    if simple:
        x0 = P.array(steps[0])
        kw.update(x0=x0, num_particles=n, delta=0., velocity=P.array([[1., 0.], [2., 0.]]))
        last = max(t1 + (t2 or []))
        out = list(cd.sim.simple_brownian_video(conv(t1), None if t2 is None else conv(t2), **kw))
    else:
        out = list(cd.sim.particles_video(gen(), conv(t1), t2=None if t2 is None else conv(t2), **kw))
    m = k1 if t2 is None else min(k1, k2)
    P.same("number of multi-frames", len(out), m)
    P.same("cameras", [(isinstance(o, tuple), len(o)) for o in out], [(True, 1 if t2 is None else 2)] * m)
    for j, o in enumerate(out):
        for c, (f, t) in enumerate(zip(o, (t1, t2))):
            want = np.zeros(shape, int)
            for y, x in steps[t[j]]:
                y = (int(y) + (1 if c == 0 and offset else 0)) % T
                want[y, int(x)] += I
            P.same("shape", tuple(f.shape), shape)
            P.same("dtype", np.dtype(f.dtype), np.dtype(dtype))
            for q in np.ndindex(*shape):
                P.eq("frame %d camera %d" % (j, c + 1), f[q], bg + int(want[q]))
        for other in out[:j]:
            P.same("frames are not shared", any(a is b for a in o for b in other), False)


def rotated(P, cd):
    """camera 1 is rotated and shifted, camera 2 is not"""
    p = [np.array([[1.3, 4.2]]), np.array([[2.4, 0.6]])]
    t = schedule(P, "t", 1, 2)
    I = P.choice("intensity", [3, 8])
    out = list(cd.sim.particles_video(iter([P.array(e) for e in p]), t, (4, 5), t2=t, rotation=np.pi / 2, offset=(0.2, 0.15), intensity=I))
    y, x = p[t[0]][0]
    a, b = y - 2, x - 2.5
    y2, x2 = (-b + 2 + .2) % 4, (a + 2.5 + .15) % 5
    for f, (i, j) in zip(out[0], ((y2, x2), (y, x))):
        want = np.zeros((4, 5), int)
        want[int(i), int(j)] = I
        P.eq("frame", f, P.array(want))


def invalid(P, cd):
    S = cd.sim
    for kw in (dict(dtype="float64"), dict(intensity=256), dict(intensity=-1), dict(dtype="uint32")):
        P.raises("%s" % kw, lambda: list(S.particles_video(iter([P.array([[0., 0.]])]), [0], (2, 2), **kw)), ValueError)


def count_(P, cd):
    """expected number of pairs: falls linearly, every delay up to the length of the experiment"""
    n, N = P.choice("n", [1, 2, 4]), P.choice("frames", [1, 3, 5])
    c = cd.sim.random_time_count(N, n)
    P.same("length", len(c), N * n + 1)
    for k in range(n, N * n + 1):
        P.eq("delay %d" % k, c[k], (N * n - k) / n ** 2)


def cases(tier):
    o = []
    big = tier != "quick"
    for n in (0, 1, 3) + ((5,) if big else ()):
        for period in (1, 2, 4) + ((7,) if big else ()):
            for d in (None, 1, 2, 4):
                if (d or 1) <= period:
                    o.append(Case(nm("single", str(n), period, str(d)), single, dict(n=n, period=period, dtmin=d)))
            for kind in (1, 2):
                if kind == 1 or n < 3 or period < 4:
                    o.append(Case(nm("dual", kind, str(n), period), dual, dict(n=n, period=period, kind=kind)))
    for period, d in ((4, 1), (4, 3), (3, 3)):
        o.append(Case(nm("allowed", period, d), single_reach, dict(period=period, dtmin=d)))
    for kind in (1, 2):
        o.append(Case(nm("combinations", kind), dual_reach, dict(n=2, period=3, kind=kind)))
    for n, k in ((3, 1), (4, 2), (4, 3)):
        o.append(Case(nm("trigger", n, k), trigger, dict(n=n, k=k)))
    for T, k1, k2 in ((3, 1, None), (4, 2, None), (3, 1, 1), (4, 2, 2), (5, 3, 2), (4, 1, 2)) + (((6, 3, 3),) if big else ()):
        for off in (False, True):
            for dt in ("uint8", "uint16"):
                for simple in (False, True):
                    if (dt == "uint16") != off and not big:
                        continue
                    o.append(Case(nm("video", T, k1, str(k2), "offset" if off else "", dt, "simple" if simple else ""), video, dict(T=T, k1=k1, k2=k2, offset=off, dtype=dt, simple=simple)))
    o.append(Case("rotated", rotated))
    o.append(Case("invalid", invalid))
    o.append(Case("count", count_))
    return o
