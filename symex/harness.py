"""Property harnesses: the same case function runs symbolically (deciding) and concretely (replay).

A case is a function case(P, cd, **params).  `P` hands out inputs and takes assertions, `cd` holds
cddm's modules (symbolically loaded, or the real numba-compiled ones)."""
import random
import hashlib, math, os, sys, time, traceback
from fractions import Fraction
import numpy as np

EPS = Fraction(1, 10 ** 9)


def generic(name, salt=0):
    """a 'random looking' non-zero value used for data the counterexample leaves unconstrained"""
    h = int(hashlib.md5((name + "#%d" % salt if salt else name).encode()).hexdigest(), 16)
    v = h % 61 - 30
    return Fraction(v if v else 31, 8)


class Case:
    def __init__(self, name, fn, params=None, tier="quick", group=None):
        self.name, self.fn, self.params, self.tier = name, fn, dict(params or {}), tier


class Violation(Exception):
    pass


# ------------------------------------------------------------------------------ concrete mode
class ConP:
    """concrete run on given values (replay on the real code, or encoding self-test)"""
    symbolic = False

    def __init__(self, values, draws=None, cd=None, lift=None, salt=0):
        self.values = values
        self.salt = salt
        self.draws = list(draws or [])
        self.fails = []
        self.log = []
        self.lift = lift
        self.assumed = True
        self.np = np
        self.notes = []

    def _v(self, name):
        if name in self.values:
            return self.values[name]
        return generic(name, self.salt)

    # inputs -------------------------------------------------------------
    def _arr(self, names, conv, dtype):
        if isinstance(names, str):
            v = conv(names)
            return self.lift(v, np.dtype(dtype)) if self.lift else np.dtype(dtype).type(v)
        a = np.empty(names.shape, dtype)
        for q in np.ndindex(*names.shape):
            a[q] = conv(names[q])
        return self.lift(a, a.dtype) if self.lift else a

    def real(self, name, shape=None, dtype="f8"):
        return self._arr(_names(name, shape), lambda n: float(self._v(n)), dtype)

    def cplx(self, name, shape=None, dtype="c16"):
        return self._arr(_names(name, shape), lambda n: complex(float(self._v(n + ".re")), float(self._v(n + ".im"))), dtype)

    def int(self, name, lo, hi):
        return int(self.values.get(name, lo))

    def ints(self, name, shape, lo=None, hi=None, dtype="i8"):
        return self._arr(_names(name, shape), lambda n: int(self.values.get(n, lo if lo is not None else 0)), dtype)

    def bool(self, name):
        return bool(self.values.get(name, False))

    def bools(self, name, shape):
        return self._arr(_names(name, shape), lambda n: bool(self.values.get(n, False)), "?")

    def ctl(self, name, lo=None, hi=None):
        return float(self.values.get(name, lo if lo is not None else 0))

    def array(self, a, dtype=None):
        a = np.array(a, dtype)
        return self.lift(a, a.dtype) if self.lift else a

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    # assertions -----------------------------------------------------------
    def assume(self, c):
        if not bool(c):
            self.assumed = False

    def _cmp(self, label, got, want, tol):
        got = _conc(got)
        want = _conc(want)
        if got.shape != want.shape:
            self.fails.append((label, "shape %s instead of %s" % (got.shape, want.shape)))
            return
        num = (int, float, complex, np.number, np.bool_)
        got, want = (a.astype(complex) if a.dtype.kind == "O" and all(isinstance(x, num) for x in a.flat) else a for a in (got, want))
        if got.dtype.kind in "OUS" or want.dtype.kind in "OUS":
            if not np.array_equal(got, want):
                self.fails.append((label, "%r instead of %r" % (got, want)))
            return
        with np.errstate(all="ignore"):
            g, w = got.astype(complex), want.astype(complex)
            sc = np.abs(np.where(np.isfinite(w), w, 0)).max() if w.size else 0.
            eps = tol * max(float(sc), 1.)
            bad = ~(np.abs(g - w) <= eps)
            bad &= ~((np.isnan(g) & np.isnan(w)) | (g == w))
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            self.fails.append((label, "element %s is %s instead of %s (%d of %d differ)" % (i, got[i] if i else got[()], want[i] if i else want[()], int(bad.sum()), bad.size)))

    def eq(self, label, got, want, tol=1e-6, exact=False):
        self.log.append((label, got))
        self._cmp(label, got, want, tol)

    def anyof(self, label, got, options):
        """index of an option that equals got (None, and a failure, when there is none)"""
        for k, w in enumerate(options):
            n = len(self.fails)
            self._cmp(label, got, w, 1e-6)
            if len(self.fails) == n:
                return k
            del self.fails[n:]
        self.fails.append((label, "%r is none of the %d allowed results" % (_conc(got).tolist(), len(options))))
        return None

    def same(self, label, got, want):
        """concrete python values (shapes, flags, counts of events ...)"""
        self.log.append((label, got))
        if got != want:
            self.fails.append((label, "%r instead of %r" % (got, want)))

    def true(self, label, c, msg=""):
        c = np.asarray(_conc(c))
        self.log.append((label, c))
        if not bool(np.all(c)):
            self.fails.append((label, msg or "is false"))

    def raises(self, label, fn, exc=Exception):
        try:
            fn()
        except exc:
            return
        except Exception as e:
            self.fails.append((label, "raised %s instead of %s" % (type(e).__name__, exc)))
            return
        self.fails.append((label, "did not raise"))

    def runs(self, label, fn):
        return fn()

    def ite(self, c, a, b):
        return a if bool(c) else b

    def prefer(self, c):
        pass

    def patch(self, mod, name, val):
        setattr(mod, name, val)


def _conc(x):
    """engine scalars with constant values -> numpy"""
    try:
        from . import terms as T
    except Exception:
        T = None
    if isinstance(x, np.ndarray) and x.dtype.kind != "O" and type(x) is np.ndarray:
        return x
    if T is not None and "z3" in sys.modules:
        from .arr import SymArray
        if isinstance(x, SymArray):
            o = np.empty(x.shape, x._ldt)
            r = x.view_raw()
            for q in np.ndindex(*x.shape):
                o[q] = _cv(r[q], T)
            return o
        if T.is_sym(x):
            return np.asarray(_cv(x, T))
        if isinstance(x, (list, tuple)) and x:
            return np.array([_conc(e) for e in x])
        if type(x).__name__ == "Spectrum":
            return _conc(x.materialize())
    return np.asarray(x)


def _cv(e, T):
    if isinstance(e, T.SCplx):
        return complex(_cv(e.re, T), _cv(e.im, T))
    if isinstance(e, T.SReal):
        k = e.const()
        if k is not None:
            return float(k)
        # algebraic atoms only (sqrt2 ...)
        s = 0.
        for m, c in e.d.items():
            t = float(c) if isinstance(c, Fraction) else float("nan")
            for a, p in m:
                nm = T.ctx().atoms[a][0]
                if nm.startswith("sqrt") and nm[4:].isdigit():
                    t *= math.sqrt(int(nm[4:])) ** p
                else:
                    t = float("nan")
            s += t
        return s
    if isinstance(e, (T.SInt, T.SBool)):
        return float("nan")
    return e


def _names(name, shape):
    if shape is None:
        return name
    if isinstance(shape, int):
        shape = (shape,)
    o = np.empty(shape, object)
    for q in np.ndindex(*o.shape):
        o[q] = name + "[" + ",".join(map(str, q)) + "]"
    return o


# ------------------------------------------------------------------------------ symbolic mode
class StopCase(BaseException):
    pass


class SymP:
    symbolic = True

    def __init__(self, ctx, res):
        from . import terms as T
        from . import arr as A
        self.T, self.A, self.ctx, self.res = T, A, ctx, res
        self.np = A.symnp
        self.reached = 0
        self.undo = []
        self.prefs = []
        self.notes = []

    # inputs -------------------------------------------------------------
    def _atom(self, n):
        a = self.ctx.atom(n)
        self.ctx.inputs.append(("data", n, a))
        return self.T.SReal({((a, 1),): Fraction(1)})

    def _arr(self, names, conv, dtype):
        if isinstance(names, str):
            return conv(names)
        o = np.empty(names.shape, object)
        for q in np.ndindex(*names.shape):
            o[q] = conv(names[q])
        return self.A.SymArray(o, dtype)

    def real(self, name, shape=None, dtype="f8"):
        return self._arr(_names(name, shape), self._atom, dtype)

    def cplx(self, name, shape=None, dtype="c16"):
        return self._arr(_names(name, shape), lambda n: self.T.SCplx(self._atom(n + ".re"), self._atom(n + ".im")), dtype)

    def _int(self, n, lo, hi):
        import z3
        z = z3.Int(n)
        if lo is not None:
            self.ctx.assume(z >= lo)
        if hi is not None:
            self.ctx.assume(z <= hi)
        self.ctx.inputs.append(("ctl", n, z))
        return self.T.SInt(z)

    def int(self, name, lo, hi):
        return self._int(name, lo, hi)

    def ints(self, name, shape, lo=None, hi=None, dtype="i8"):
        return self._arr(_names(name, shape), lambda n: self._int(n, lo, hi), dtype)

    def _bool(self, n):
        import z3
        z = z3.Bool(n)
        self.ctx.inputs.append(("ctl", n, z))
        return self.T.SBool(z)

    def bool(self, name):
        return self._bool(name)

    def bools(self, name, shape):
        return self._arr(_names(name, shape), self._bool, "?")

    def ctl(self, name, lo=None, hi=None):
        """a real control variable (enters coefficients and branches)"""
        import z3
        z = z3.Real(name)
        if lo is not None:
            self.ctx.assume(z >= z3.RealVal(str(Fraction(lo))))
        if hi is not None:
            self.ctx.assume(z <= z3.RealVal(str(Fraction(hi))))
        self.ctx.inputs.append(("ctl", name, z))
        return self.T.SReal({(): z})

    def array(self, a, dtype=None):
        a = np.array(a, dtype)
        return self.A.sym(a, a.dtype)

    def choice(self, name, options):
        """a solver-enumerated choice (forks)"""
        i = self._int(name, 0, len(options) - 1)
        return options[self.ctx.concretize(i.z)]

    def patch(self, mod, name, val):
        self.undo.append((mod, name, getattr(mod, name)))
        setattr(mod, name, val)

    # assertions -----------------------------------------------------------
    def assume(self, c):
        if isinstance(c, np.ndarray):
            for e in self.A.asobj(c).flat:
                self.assume(e)
            return
        self.ctx.assume(c)

    def ite(self, c, a, b):
        return self.T.ite(c, a, b)

    def _bad(self, label, msg, model=None, sure=True):
        self.res["cex"].append(dict(label=label, msg=msg, values=self._values(model), draws=self._draws(model), sure=sure))
        if len(self.res["cex"]) >= 4:
            raise StopCase()

    def _values(self, model):
        c = self.ctx
        if model is None:
            r = c._check()
            model = c.solver.model() if str(r) == "sat" else None
        vals = {}
        pcvars = self._pc_atoms() | getattr(self, "_extra_atoms", set())
        for kind, n, z in c.inputs:
            if kind == "data":
                if n in pcvars and model is not None:
                    vals[n] = _mv(model, c.atoms[z][1])
            elif kind == "ctl":
                vals[n] = _mv(model, z) if model is not None else None
            elif kind in ("int", "real") and model is not None:
                vals[n] = _mv(model, c.atoms[z][1] if kind == "real" else z)      # random numbers
        return {k: v for k, v in vals.items() if v is not None}

    def _draws(self, model):
        c = self.ctx
        if model is None:
            r = c._check()
            model = c.solver.model() if str(r) == "sat" else None
        d = []
        pcvars = self._pc_atoms()
        for kind, n, z in c.inputs:
            if kind == "int":
                d.append(_mv(model, z))
            elif kind == "real":
                v = _mv(model, c.atoms[z][1])
                if n not in pcvars:
                    v = str(abs(generic(n)) / 8)
                d.append(v)
        return d

    def _pc_atoms(self):
        c = self.ctx
        names = set()
        seen = set()
        import z3

        def walk(e):
            st = [e]
            while st:
                x = st.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    names.add(x.decl().name())
                else:
                    st.extend(x.children())
        for p in c.pc:
            walk(p)
        return names

    def _atoms_of(self, polys):
        c = self.ctx
        s = set()
        for p in polys:
            for m in p.d:
                for a, _ in m:
                    s.add(c.atoms[a][0])
        return s

    def _polys(self, d):
        T = self.T
        if isinstance(d, T.SCplx):
            return [d.re, d.im]
        return [T.to_real(d)]

    def _nonfin(self, p):
        T = self.T
        c = self.ctx
        for q in self._polys(p):
            for m in q.d:
                for a, _ in m:
                    n = c.atoms[a][0]
                    if n.startswith("nan!") or n.startswith("inf!"):
                        return n[:3]
        return None

    def eq(self, label, got, want, tol=None, exact=False):
        import z3
        T, A, c = self.T, self.A, self.ctx
        eps = Fraction(0) if exact else EPS
        g, w = _obj2(got, A), _obj2(want, A)
        asked = []
        self.reached += 1
        if g.shape != w.shape:
            self._bad(label, "shape %s instead of %s" % (g.shape, w.shape))
            return
        ors = []
        sure = []
        polys = []
        where = []
        for q in np.ndindex(*g.shape):
            x, y = g[q], w[q]
            if x is y:
                continue
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                if x is not y and x != y:
                    self._bad(label, "element %s is %r instead of %r" % (q, x, y))
                    return
                continue
            I = (int, np.integer, bool, np.bool_, T.SInt, T.SBool)
            if isinstance(x, I) and isinstance(y, I):
                if not T.is_sym(x) and not T.is_sym(y):
                    if int(x) != int(y):
                        self._bad(label, "element %s is %s instead of %s" % (q, x, y))
                        return
                    continue
                e = z3.simplify(T.zint(x) != T.zint(y))
                if not z3.is_false(e):
                    ors.append(e)
                    where.append(q)
                continue
            nx = self._nonfin(T.to_cplx(x) if not isinstance(x, I) else T.to_real(x))
            ny = self._nonfin(T.to_cplx(y) if not isinstance(y, I) else T.to_real(y))
            if nx and ny:
                continue
            d = T.to_cplx(x) - T.to_cplx(y)
            for p in (d.re, d.im):
                hit = False
                if p.d and (c.inv_of or c.square_rule):
                    z = T.clear_inv(p)
                    if not z.d:
                        continue
                for m, k in p.d.items():
                    if isinstance(k, Fraction):
                        if abs(k) > eps:
                            sure.append(q)
                            hit = True
                    else:
                        k = z3.simplify(k)
                        v = T._numval(k)
                        if v is not None:
                            if abs(v) > eps:
                                sure.append(q)
                                hit = True
                            continue
                        ors.append(k != 0 if eps == 0 else z3.Or(k > T._zc(eps), k < T._zc(-eps)))
                        where.append(q)
                        hit = True
                if hit:
                    polys.append((q, p))
        if not ors and not sure:
            self._linear(label, g, w)
            return
        c.stats["asserts"] = c.stats.get("asserts", 0) + 1
        if sure:
            r = c._check()
        else:
            # small queries are much easier than one large disjunction
            r = z3.unsat
            step = max(1, len(ors) // 40)
            for i in range(0, len(ors), step):
                asked = [z3.Or(*ors[i:i + step])]
                r = c._check(*asked)
                if r != z3.unsat:
                    break
        if r == z3.unsat:
            return
        model = c.solver.model() if r == z3.sat else None
        self._extra_atoms = set()
        if not sure:
            self._extra_atoms = _vars(asked)
        # data atoms that carry facts or path conditions need the full query
        if polys:
            an = self._atoms_of([p for _, p in polys])
            fa = _vars(c.fact_list)
            junkish = any(n.startswith(("junk!", "nan!", "inf!")) for n in an)
            co = _vars([k for _, p in polys for k in p.d.values() if not isinstance(k, Fraction)])
            if r == z3.unknown or (an & (self._pc_atoms() | fa | co)):
                asked = c.fact_list + [z3.Or(*[z3.Or(T.to_z3(p) > T._zc(EPS), T.to_z3(p) < T._zc(-EPS)) for _, p in polys] + [o for o, q in zip(ors, where) if not any(q == w2 for w2, _ in polys)])]
                r2 = c._check(*asked)
                if r2 == z3.unsat:
                    return
                if r2 == z3.sat:
                    model = c.solver.model()
                    self._extra_atoms = _vars(asked)
                    r = r2
                    if not junkish and model is not None:
                        pass
                else:
                    r = r2
        q = sure[0] if sure else (where[0] if where else "?")
        if r == z3.sat:
            model = self._prefer(asked, model)
        gq = g[q] if isinstance(q, tuple) else None
        wq = w[q] if isinstance(q, tuple) else None
        self._bad(label, "element %s: %s instead of %s" % (q, _short(gq), _short(wq)), model, sure=(r == z3.sat))

    def prefer(self, cond):
        """counterexamples that satisfy the condition replay more reliably (no assumption)"""
        self.prefs.append(self.T.zbool(cond))

    def _prefer(self, asked, model):
        import z3
        c = self.ctx
        keep = []
        for p in self.prefs:
            if c._check(*(asked + keep + [p])) == z3.sat:
                keep.append(p)
                model = c.solver.model()
        if keep:
            self._extra_atoms = self._extra_atoms | _vars(keep)
        return model

    def anyof(self, label, got, options):
        keep = self.res["cex"]
        for k, w in enumerate(options):
            self.res["cex"] = []
            try:
                self.eq(label, got, w)
                if not self.res["cex"]:
                    return k
            except StopCase:
                pass
            finally:
                self.res["cex"] = keep
        self._bad(label, "%s is none of the %d allowed results" % (_short(got), len(options)))
        return None

    def _linear(self, label, g, w):
        """both sides have the same normal form: submitted to the solver with every monomial of the
        data as an unconstrained real variable"""
        import z3
        T, c = self.T, self.ctx
        mon = c.memo.setdefault("monvars", {})
        ors, size = [], 0

        def lin(p):
            ts = []
            for m, k in sorted(p.d.items(), key=lambda t: t[0]):
                if m not in mon:
                    mon[m] = z3.Real("mon%d" % len(mon))
                ts.append(T._zc(k) * mon[m] if m else T._zc(k))
            return z3.Sum(*ts) if ts else z3.RealVal(0)

        def flush():
            if ors:
                c.stats["asserts"] = c.stats.get("asserts", 0) + 1
                if c._check(z3.Or(*ors)) != z3.unsat:
                    raise T.Unsupported("normal form and solver disagree in %s" % label)
                del ors[:]
        for q in np.ndindex(*g.shape):
            x, y = g[q], w[q]
            I = (int, np.integer, bool, np.bool_, T.SInt, T.SBool, str, type(None))
            if isinstance(x, I) or isinstance(y, I):
                continue
            x, y = T.to_cplx(x), T.to_cplx(y)
            for a, b in ((x.re, y.re), (x.im, y.im)):
                if self._nonfin(a) or self._nonfin(b) or not (a.d or b.d):
                    continue
                d = a - b
                if d.d:
                    continue            # equal within EPS only
                ors.append(lin(a) != lin(b))
                size += len(a.d)
                if size > 4000:
                    flush()
                    size = 0
        flush()

    def same(self, label, got, want):
        self.reached += 1
        if got != want:
            self._bad(label, "%r instead of %r" % (got, want))

    def true(self, label, cond, msg=""):
        import z3
        T, c = self.T, self.ctx
        self.reached += 1
        cs = []
        for e in (_obj2(cond, self.A).flat):
            if isinstance(e, (bool, np.bool_)):
                if not e:
                    self._bad(label, msg or "is false")
                    return
            else:
                cs.append(T.zbool(e))
        if not cs:
            return
        neg = z3.Not(z3.And(*cs))
        c.stats["asserts"] = c.stats.get("asserts", 0) + 1
        need = bool(_vars(c.fact_list) & _vars([neg]))
        r = c._check(*((c.fact_list if need else []) + [neg]))
        if r == z3.unsat:
            return
        self._extra_atoms = _vars([neg])
        m = c.solver.model() if r == z3.sat else None
        self._bad(label, msg or "can be false", m, sure=(r == z3.sat))
        self._extra_atoms = set()

    def raises(self, label, fn, exc=Exception):
        self.reached += 1
        try:
            fn()
        except (self.T.Unsupported,):
            raise
        except exc:
            return
        except Exception as e:
            self._bad(label, "raised %s (%s) instead of %s" % (type(e).__name__, e, exc))
            return
        self._bad(label, "did not raise")

    def runs(self, label, fn):
        return fn()


def _vars(es):
    import z3
    names, seen, st = set(), set(), list(es)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            names.add(x.decl().name())
        else:
            st.extend(x.children())
    return names


def _short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


def _obj2(x, A):
    if type(x).__name__ == "Spectrum":
        x = x.materialize()
    return A.asobj(x)


def _mv(model, z):
    import z3
    v = model.eval(z, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return "%d/%d" % (v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return "%d/%d" % (a.numerator_as_long(), a.denominator_as_long())
    return None


WITNESS = int(os.environ.get("CDDM_WITNESS", "0"))      # tools/selftest.py


def witness(res, P, case):
    """an input of this path, for the comparison with the real code"""
    l = res.setdefault("wit", [])
    n = res["paths"]
    k = n if n < WITNESS else random.Random(n).randrange(n + 1)
    if k < WITNESS:
        m = P.ctx.solver.model()
        w = dict(values=P._values(m), draws=P._draws(m), label="", case=case.name)
        if k < len(l):
            l[k] = w
        else:
            l.append(w)


def explore(case, cd, timeout_s, max_paths=20000, query_ms=60000):
    """all solver-feasible paths of one case"""
    from . import terms as T
    t0 = time.time()
    res = dict(case=case.name, cex=[], paths=0, infeasible=0, restarts=0, status="ok", reached=0, stats={}, fns=[], notes=[])
    stats = res["stats"]
    mon = _Monitor()
    force = set()
    work = [[]]
    try:
        while work:
            if time.time() - t0 > timeout_s:
                res["status"] = "error"
                res["error"] = "time limit of %d s after %d paths" % (timeout_s, res["paths"])
                break
            if res["paths"] > max_paths:
                res["status"] = "error"
                res["error"] = "more than %d paths" % max_paths
                break
            prefix = work.pop()
            c = T.Ctx(prefix, stats, query_ms, force)
            T.set_ctx(c)
            P = SymP(c, res)
            nf = len(force)
            try:
                try:
                    case.fn(P, cd, **case.params)
                except (T.Unsupported, T.PathAbort, StopCase):
                    raise
                except Exception:
                    if c.raised is not None:
                        raise c.raised
                    raise
                else:
                    if c.raised is not None:     # swallowed by the code under test
                        raise c.raised
                finally:
                    for mod, name, val in reversed(P.undo):
                        setattr(mod, name, val)
            except T.InfeasiblePath:
                res["infeasible"] += 1
                work.extend(c.alts)
                continue
            except T.RestartPath:
                # decisions are re-discovered from scratch with the new forced forks
                res["restarts"] += 1
                if len(force) == nf or res["restarts"] > 200:
                    raise T.Unsupported("merge restart does not progress")
                work = [[]]
                res["paths"] = 0
                res["cex"] = []
                continue
            except T.Unsupported:
                raise
            except StopCase:
                res["paths"] += 1
                break
            except Exception as e:
                r = c._check()
                if str(r) == "unsat":
                    res["infeasible"] += 1
                    work.extend(c.alts)
                    continue
                tb = traceback.extract_tb(e.__traceback__)
                at = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb][-6:]
                del c.guards[:]
                try:
                    P._bad("exception", "%s: %s at %s" % (type(e).__name__, e, " ".join(at)))
                except StopCase:
                    break
            else:
                r = c._check()
                if str(r) == "sat":
                    res["reached"] += P.reached
                    if WITNESS:
                        witness(res, P, case)
                elif str(r) == "unsat":
                    res["infeasible"] += 1
                    work.extend(c.alts)
                    continue
            res["paths"] += 1
            for n in P.notes:
                if n not in res["notes"]:
                    res["notes"].append(n)
            stats["bounds_checks"] = stats.get("bounds_checks", 0) + c.oob_checks
            res["fns"] = sorted(set(res["fns"]) | c.used_fns)
            work.extend(c.alts)
        if res["status"] == "ok" and not res["cex"] and res["reached"] == 0:
            res["status"] = "error"
            res["error"] = "vacuous: no assertion was reached on a satisfiable path"
    except T.Unsupported as e:
        res["status"] = "error"
        tb = traceback.extract_tb(e.__traceback__)
        res["error"] = "cannot encode: %s at %s" % (e, " ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-8:]))
    finally:
        res["fns"] = sorted(set(res["fns"]) | mon.stop())
        T.set_ctx(None)
    res["wall_s"] = time.time() - t0
    return res


class _Monitor:
    """names of the repository's functions that were executed symbolically"""

    def __init__(self):
        from .loader import REPO
        self.fns = set()
        self.pre = os.path.join(os.path.realpath(REPO), "cddm") + os.sep
        self.pre2 = os.path.join(REPO, "cddm") + os.sep
        m = sys.monitoring
        self.ok = m.get_tool(3) is None
        if self.ok:
            m.use_tool_id(3, "cddmfns")
            m.register_callback(3, m.events.PY_START, self._cb)
            m.set_events(3, m.events.PY_START)
            m.restart_events()

    def _cb(self, code, off):
        f = code.co_filename
        if f.startswith(self.pre) or f.startswith(self.pre2):
            if not code.co_name.startswith("<"):
                self.fns.add("cddm.%s:%s" % (os.path.basename(f)[:-3], code.co_qualname))
        return sys.monitoring.DISABLE

    def stop(self):
        if self.ok:
            m = sys.monitoring
            m.set_events(3, 0)
            m.register_callback(3, m.events.PY_START, None)
            m.free_tool_id(3)
        return self.fns


# ------------------------------------------------------------------------------ concrete runs
def run_concrete(case, cd, values, draws, lift=None, salt=0):
    """-> list of (label, message); raises nothing"""
    vals = {k: _pv(v) for k, v in values.items()}
    P = ConP(vals, [_pv(d) for d in draws], cd, lift, salt)
    undo = []
    _p = P.patch

    def patch(mod, name, val):
        undo.append((mod, name, getattr(mod, name)))
        _p(mod, name, val)
    P.patch = patch
    if hasattr(cd, "feed"):
        cd.feed(P.draws)
    try:
        case.fn(P, cd, **case.params)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb][-4:]
        P.fails.append(("exception", "%s: %s at %s" % (type(e).__name__, e, " ".join(at))))
    finally:
        for mod, name, val in reversed(undo):
            setattr(mod, name, val)
    return P


def _pv(v):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return v
    return Fraction(v)
