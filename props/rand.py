"""random numbers: nondeterministic inputs in the symbolic run; in a replay the numbers of the
counterexample (numpy) or the known sequence of a seeded generator (compiled functions)"""
import numpy as np

_NB = {}


def compiled(P, run, kind, lams, bound=None):
    """(result of run(), the random numbers drawn by numba functions); lams: expected parameters
    of the draws in order (None for normal numbers)"""
    if hasattr(P, "ctx"):
        from symex.arr import drawn
        m = len(drawn())
        P.ctx.memo[("draw bound",)] = bound
        r = run()
        d = drawn()[m:]
        if kind == "poisson":
            P.same("number of random numbers", len(d), len(lams))
        P.same("kinds of random numbers", [k for k, v, a in d[:len(lams)]], [kind] * len(lams))
        for i, ((k, v, a), l) in enumerate(zip(d, lams)):
            if l is not None:
                P.eq("parameter of draw %d" % i, a, l)
        return r, [v for k, v, a in d]
    import numba
    if not _NB:
        def seed(n):
            np.random.seed(n)

        def normal():
            return np.random.randn()

        def poisson(x):
            return np.random.poisson(x)
        for f in (seed, normal, poisson):
            _NB[f.__name__] = numba.njit(f)
    _NB["seed"](P.salt + 1)
    d = [_NB["normal"]() if l is None else _NB["poisson"](float(l)) for l in lams]
    if bound:
        P.assume(all(abs(x) < bound for x in d))
    _NB["seed"](P.salt + 1)
    return run(), d


def python(P):
    """a replay takes the numbers of the counterexample for numpy.random (symbolic: nothing to do)"""
    if hasattr(P, "ctx"):
        return
    vals = {}
    for k, v in P.values.items():
        if "!" in k:
            kind, n = k.rsplit("!", 1)
            if n.isdigit():
                vals.setdefault(kind, []).append((int(n), v))
    vals = {k: [x for _, x in sorted(v)] for k, v in vals.items()}
    R = np.random
    gen = dict(rand=R.rand, randn=R.randn, randint=R.randint)

    def one(kind, conv, default):
        q = vals.get(kind)
        return conv(q.pop(0)) if q else default()

    def many(shape, kind, conv, default, dt):
        if shape is None or shape == ():
            return one(kind, conv, default)
        a = np.empty(shape, dt)
        for q in np.ndindex(*a.shape):
            a[q] = one(kind, conv, default)
        return a

    def rand(*shape):
        return many(shape, "rand", float, gen["rand"], float)

    def randn(*shape):
        return many(shape, "randn", float, gen["randn"], float)

    def randint(low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        gen["randint"](low, high)           # range errors
        return many(size, "randint", int, lambda: gen["randint"](low, high), dtype)
    P.patch(R, "rand", rand)
    P.patch(R, "randn", randn)
    P.patch(R, "randint", randint)
    P.patch(R, "random", lambda size=None: rand(*((size,) if isinstance(size, int) else size or ())))
    P.patch(R, "uniform", lambda low=0., high=1., size=None: low + (high - low) * rand(*((size,) if isinstance(size, int) else size or ())))
