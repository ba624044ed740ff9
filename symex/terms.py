"""Symbolic scalars.

SReal  : polynomial over named real atoms (data), coefficients are exact rationals
         or z3 Real expressions over control variables (times, guards, ...).
SCplx  : pair (re, im) of SReal.
SInt   : z3 Int expression.
SBool  : z3 Bool expression.

Real arithmetic is exact (rounding of IEEE floats lies outside every claim), python/numpy
integers are mathematical integers unless a store into a narrow integer array narrows them.
"""
import math, itertools, numbers
from fractions import Fraction
import numpy as np
import z3

__all__ = ["Ctx", "ctx", "SReal", "SCplx", "SInt", "SBool", "Unsupported", "PathAbort",
           "InfeasiblePath", "ite", "lift", "to_real", "to_cplx", "is_sym", "zbool", "zint", "OOBError",
           "poly_atoms", "to_z3", "const_value", "smin", "smax", "sand", "sor", "snot", "RestartPath"]


class _Noted(BaseException):
    """the code under test may contain a bare `except:` that swallows the engine's own exceptions, so the
    path remembers the first one"""

    def __init__(self, *a):
        BaseException.__init__(self, *a)
        c = _CTX[0] if "_CTX" in globals() else None
        if c is not None and c.raised is None:
            c.raised = self


class Unsupported(_Noted, Exception):
    """The engine cannot encode this construct (never reported as a pass or a violation)."""


class PathAbort(_Noted):
    pass


class InfeasiblePath(PathAbort):
    pass


class RestartPath(PathAbort):
    """a merge turned out to be impossible; the path is re-run with that point forked"""


class OOBError(Exception):
    """An array access outside of its bounds (undefined behaviour in compiled kernels)."""


_F0 = Fraction(0)
_F1 = Fraction(1)


class Ctx:
    """Everything belonging to one symbolic path."""

    def __init__(self, prefix=(), stats=None, timeout_ms=60000, force=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.alts = []                  # alternatives discovered on this path
        self.guards = []                # guard stack (z3 bools)
        self.pc = []                    # path condition
        self.atoms = []                 # (name, z3var)
        self.atom_id = {}
        self.facts = {}                 # atom id -> list of z3 facts (contracts)
        self.fact_list = []
        self.memo = {}
        self.keep = []
        self.stats = stats if stats is not None else {}
        self.timeout_ms = timeout_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.force = force if force is not None else set()
        self.nonzero = []
        self.inputs = []                # (kind, name, z3 var / atom id)
        self.fresh = itertools.count()
        self.events = []
        self.used_fns = set()
        self.square_rule = {}
        self.nonfinite = False
        self.inv_of = {}                # atom of 1/p -> p
        self.oob_checks = 0
        self.raised = None              # first engine exception on this path
        self.random_log = []

    # -- atoms
    def atom(self, name):
        i = self.atom_id.get(name)
        if i is None:
            i = len(self.atoms)
            self.atoms.append((name, z3.Real(name)))
            self.atom_id[name] = i
        return i

    def new_atom(self, base):
        return self.atom("%s!%d" % (base, next(self.fresh)))

    def fact(self, f):
        self.fact_list.append(f)

    # -- solver
    def _check(self, *extra):
        import time
        t = time.perf_counter()
        r = self.solver.check(*extra)
        for k in range(2):
            if r != z3.unknown:
                break
            # a fresh solver: not every unknown is a hard query (a timer that fires late, an unlucky state)
            self.stats["retries"] = self.stats.get("retries", 0) + 1
            s = z3.Solver()
            s.set("timeout", self.timeout_ms)
            if k:
                s.set("random_seed", 7)
            s.add(self.solver.assertions())
            r = s.check(*extra)
            if r == z3.sat:
                self.solver = s
        self.stats["queries"] = self.stats.get("queries", 0) + 1
        self.stats["solver_s"] = self.stats.get("solver_s", 0.) + time.perf_counter() - t
        return r

    def guard(self):
        if not self.guards:
            return None
        if len(self.guards) == 1:
            return self.guards[0]
        return z3.And(*self.guards)

    def assume(self, c):
        if isinstance(c, SBool):
            c = c.z
        if c is True or (isinstance(c, (bool, np.bool_)) and bool(c)):
            return
        if isinstance(c, (bool, np.bool_)):
            raise InfeasiblePath()
        self.solver.add(c)
        self.pc.append(c)

    def feasible(self, *c):
        g = self.guards
        r = self._check(*(list(g) + list(c)))
        if r == z3.unknown:
            raise Unsupported("solver gave no answer on a path condition")
        return r == z3.sat

    def decide(self, cond):
        """Fork on a symbolic condition."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        g = self.guard()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self._take(cond if d else z3.Not(cond), g)
            return d
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if not t and not f:
            raise InfeasiblePath()
        self.pos += 1
        if t and f:
            self.alts.append(self.prefix + [False])
            self.prefix.append(True)
            self._take(cond, g)
            return True
        self.prefix.append(t)
        # forced by the path condition (still recorded so that prefixes line up)
        self._take(cond if t else z3.Not(cond), g)
        return t

    def _take(self, c, g):
        if g is not None:
            c = z3.Implies(g, c)
        self.solver.add(c)
        self.pc.append(c)

    def concretize(self, z):
        """Enumerate the feasible values of an integer term (solver driven)."""
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        if self.pos < len(self.prefix):
            # replay: recorded as ("v", value) entries
            d = self.prefix[self.pos]
            self.pos += 1
            if isinstance(d, tuple):
                kind, val, excl = d
                for e in excl:
                    self._take(z != e, self.guard())
                if kind == "v":
                    self._take(z == val, self.guard())
                    return val
                # need a new value different from excl
                self.pos -= 1
                self.prefix = self.prefix[:self.pos]
                return self._new_value(z, list(excl))
            raise Unsupported("decision sequence out of step")
        return self._new_value(z, [])

    def _new_value(self, z, excl):
        c = [z != e for e in excl]
        r = self._check(*(list(self.guards) + c))
        if r == z3.unsat:
            raise InfeasiblePath()
        if r == z3.unknown:
            raise Unsupported("solver gave no answer while enumerating an integer")
        v = self.solver.model().eval(z, model_completion=True).as_long()
        if len(excl) > 4000:
            raise Unsupported("too many values for an integer that must be concrete")
        base = self.prefix[:self.pos]
        self.alts.append(base + [("x", None, tuple(excl) + (v,))])
        self.prefix = base + [("v", v, tuple(excl))]
        self.pos += 1
        for e in excl:
            self._take(z != e, self.guard())
        self._take(z == v, self.guard())
        return v


_CTX = [None]


def ctx():
    return _CTX[0]


def set_ctx(c):
    _CTX[0] = c


# ------------------------------------------------------------------ coefficients
def _zc(c):
    """coefficient -> z3 Real expression"""
    if isinstance(c, Fraction):
        return z3.RealVal(str(c))
    return c


def _is_ite(e):
    return z3.is_app_of(e, z3.Z3_OP_ITE)


def _numval(e):
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def _cadd(a, b):
    if isinstance(a, Fraction):
        if isinstance(b, Fraction):
            return a + b
        if a == 0:
            return b
        return _zc(a) + b
    if isinstance(b, Fraction):
        if b == 0:
            return a
        return a + _zc(b)
    return a + b


def _cmul(a, b):
    if isinstance(a, Fraction):
        if isinstance(b, Fraction):
            return a * b
        a, b = b, a
    # a is z3
    if isinstance(b, Fraction):
        if b == 1:
            return a
        if b == 0:
            return _F0
        n = _numval(a)
        if n is not None:
            return n * b
        if _is_ite(a):
            x, y = a.arg(1), a.arg(2)
            nx, ny = _numval(x), _numval(y)
            if nx is not None and ny is not None:
                return z3.If(a.arg(0), z3.RealVal(str(nx * b)), z3.RealVal(str(ny * b)))
        return _zc(b) * a
    if _is_ite(a) and _numval(a.arg(2)) == 0 and _is_ite(b) and _numval(b.arg(2)) == 0:
        x = _cmul(_nf(a.arg(1)), _nf(b.arg(1)))
        return z3.If(z3.And(a.arg(0), b.arg(0)), _zc(x), z3.RealVal(0))
    if _is_ite(a):
        return z3.If(a.arg(0), _zc(_cmul(_nf(a.arg(1)), b)), _zc(_cmul(_nf(a.arg(2)), b)))
    if _is_ite(b):
        return z3.If(b.arg(0), _zc(_cmul(a, _nf(b.arg(1)))), _zc(_cmul(a, _nf(b.arg(2)))))
    if z3.is_add(a):
        r = _F0
        for ch in a.children():
            r = _cadd(r, _cmul(_nf(ch), b))
        return r
    if z3.is_add(b):
        r = _F0
        for ch in b.children():
            r = _cadd(r, _cmul(a, _nf(ch)))
        return r
    return a * b


def _nf(e):
    n = _numval(e)
    return e if n is None else n


def _cneg(a):
    if isinstance(a, Fraction):
        return -a
    return _cmul(a, Fraction(-1))


def _czero(a):
    if isinstance(a, Fraction):
        return a == 0
    return z3.is_rational_value(a) and _numval(a) == 0


def _cite(g, a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction) and a == b:
        return a
    if not isinstance(a, Fraction) and not isinstance(b, Fraction) and a.eq(b):
        return a
    return z3.If(g, _zc(a), _zc(b))


# ------------------------------------------------------------------ monomials
def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    i = j = 0
    out = []
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] < b[0]:
            out.append(a); i += 1
        elif a[0] > b[0]:
            out.append(b); j += 1
        else:
            p = a[1] + b[1]
            if p:
                out.append((a[0], p))
            i += 1; j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out)


class SBool:
    __slots__ = ("z",)
    __array_ufunc__ = None

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ctx().decide(self.z)

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    logical_not = __invert__

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return sand(self, o)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return sor(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, zbool(o)))
    __rxor__ = __xor__

    def logical_and(self, o):
        return sand(self, o)

    def logical_or(self, o):
        return sor(self, o)

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (bool, np.bool_, SBool)):
            return mkbool(self.z == zbool(o))
        return self.as_int() == o

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        r = self == o
        return snot(r)

    __hash__ = None

    def as_int(self):
        return SInt(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return "SBool(%s)" % self.z

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def dtype(self):
        return np.dtype(bool)

    ndim = 0
    shape = ()


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def zbool(b):
    if isinstance(b, SBool):
        return b.z
    if isinstance(b, (bool, np.bool_)):
        return z3.BoolVal(bool(b))
    if isinstance(b, z3.BoolRef):
        return b
    if isinstance(b, SInt):
        return b.z != 0
    if isinstance(b, (int, float, np.number)):
        return z3.BoolVal(bool(b))
    if isinstance(b, SReal):
        r = b != 0
        return zbool(r)
    raise Unsupported("not a boolean: %r" % (b,))


def sand(*bs):
    zs = []
    for b in bs:
        if isinstance(b, (bool, np.bool_)):
            if not b:
                return False
        else:
            zs.append(zbool(b))
    if not zs:
        return True
    return mkbool(z3.And(*zs) if len(zs) > 1 else zs[0])


def sor(*bs):
    zs = []
    for b in bs:
        if isinstance(b, (bool, np.bool_)):
            if b:
                return True
        else:
            zs.append(zbool(b))
    if not zs:
        return False
    return mkbool(z3.Or(*zs) if len(zs) > 1 else zs[0])


def snot(b):
    if isinstance(b, (bool, np.bool_)):
        return not b
    return mkbool(z3.Not(zbool(b)))


_INTS = (int, np.integer)


def zint(x):
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, _INTS):
        return z3.IntVal(int(x))
    if isinstance(x, SBool):
        return x.as_int().z
    raise Unsupported("not an integer: %r" % (x,))


def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SInt(z)


class SInt:
    __slots__ = ("z",)
    __array_ufunc__ = None

    def __init__(self, z):
        self.z = z

    @property
    def dtype(self):
        return np.dtype("int64")
    ndim = 0
    shape = ()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self
    conj = conjugate

    def item(self):
        return self

    def astype(self, dt):
        dt = np.dtype(dt)
        if dt.kind in "iu":
            return self
        if dt.kind == "f":
            return to_real(self)
        if dt.kind == "c":
            return to_cplx(self)
        raise Unsupported("astype %s" % dt)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _bin(self, o, f, rf):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, _INTS + (SInt, SBool, bool, np.bool_)):
            return mkint(f(self.z, zint(o)))
        if isinstance(o, (float, complex, Fraction, SReal, SCplx, np.floating, np.complexfloating)):
            return rf(to_real(self), o)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a, lambda a, b: b + a)

    def __sub__(self, o):
        if isinstance(o, SInt):
            a, b = self.z, o.z
            if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_app_of(b, z3.Z3_OP_ITE) and a.arg(0).eq(b.arg(0)):
                # max(x, y) - min(x, y): common offsets of x and y cancel
                return mkint(z3.If(a.arg(0), a.arg(1) - b.arg(1), a.arg(2) - b.arg(2)))
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a, lambda a, b: b * a)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return to_real(self) / o

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return to_real(o) / to_real(self)

    def _divmod(self, o):
        if isinstance(o, (float, np.floating)):
            q = to_real(self) / o
            fl = q.floor()
            return fl, to_real(self) - to_real(fl) * o
        a, b = self.z, zint(o)
        return _pydiv(a, b)

    def __floordiv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        r = self._divmod(o)[0]
        return to_real(r) if isinstance(o, (float, np.floating)) else r

    def __mod__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self._divmod(o)[1]

    def __rfloordiv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return _pydiv(zint(o), self.z)[0]

    def __rmod__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return _pydiv(zint(o), self.z)[1]

    def __divmod__(self, o):
        return self._divmod(o)

    def __pow__(self, k):
        if isinstance(k, _INTS) and k >= 0:
            r = 1
            for _ in range(int(k)):
                r = self * r
            return r
        return to_real(self) ** k

    def __rpow__(self, b):
        if isinstance(b, _INTS):
            return int(b) ** self.__index__()
        raise Unsupported("pow")

    def __lshift__(self, k):
        return self * (2 ** int(k))

    def __rshift__(self, k):
        return self // (2 ** int(k))

    def __and__(self, k):
        if isinstance(k, _INTS) and (int(k) + 1) & int(k) == 0 and k >= 0:
            return self % (int(k) + 1)
        if isinstance(k, np.ndarray):
            return NotImplemented
        return self._bits(k, lambda a, b: z3.And(a, b))
    __rand__ = __and__

    def _bits(self, k, f):
        """bitwise operation on the lowest bits; the operands are known to fit"""
        w = 16
        a, b = self.z, zint(k)
        c = ctx()
        if c._check(*(list(c.guards) + [z3.Not(z3.And(a >= 0, a < 2 ** w, b >= 0, b < 2 ** w))])) != z3.unsat:
            raise Unsupported("bit operation on large or negative integers")
        r = z3.IntVal(0)
        for i in range(w):
            bit = lambda x: (x / (2 ** i)) % 2 == 1
            r = r + z3.If(f(bit(a), bit(b)), 2 ** i, 0)
        return mkint(r)

    def __or__(self, k):
        if isinstance(k, np.ndarray):
            return NotImplemented
        return self._bits(k, lambda a, b: z3.Or(a, b))
    __ror__ = __or__

    def __xor__(self, k):
        if isinstance(k, np.ndarray):
            return NotImplemented
        return self._bits(k, lambda a, b: z3.Xor(a, b))
    __rxor__ = __xor__

    def __neg__(self):
        return mkint(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.z >= 0, self.z, -self.z))

    def _cmp(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, _INTS + (SInt, SBool, bool, np.bool_)):
            return mkbool(f(self.z, zint(o)))
        if isinstance(o, (float, np.floating)):
            o = float(o)
            if o != o:
                return f is _ne
            if math.isinf(o):
                return bool(f(0., o))
            if o == int(o):
                return mkbool(f(self.z, z3.IntVal(int(o))))
            return mkbool(f(z3.ToReal(self.z), _zc(Fraction(o))))
        if isinstance(o, (Fraction, SReal)):
            return mkbool(f(z3.ToReal(self.z), to_z3(to_real(o))))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, _ne)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return ctx().concretize(self.z)

    __int__ = __index__

    def __trunc__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return "SInt(%s)" % self.z

    def sqrt(self):
        return to_real(self).sqrt()

    def log(self):
        return to_real(self).log()

    def isnan(self):
        return False


class TInt(int):
    """integer that remembers the type of the array it comes from (for the selection of overloads)"""
    def __new__(cls, v, dt):
        o = int.__new__(cls, v)
        o.dt = dt
        return o


class TSInt(SInt):
    __slots__ = ("dt",)

    def __init__(self, z, dt):
        self.z = z
        self.dt = dt


def typed(v, dt):
    if dt.kind in "iu" and dt.itemsize < 8:
        if isinstance(v, SInt):
            return TSInt(v.z, dt)
        if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
            return TInt(int(v), dt)
    return v


def _ne(a, b):
    return a != b


def _pydiv(a, b):
    """Python floor division / modulo of z3 ints (z3's is Euclidean)"""
    b = z3.simplify(b)
    if z3.is_int_value(b):
        v = b.as_long()
        if v == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if v > 0:
            return mkint(a / b), mkint(a % b)
        q = mkint(-((-a) / b) if False else (-a) / z3.IntVal(-v))
        return q, mkint(a - zint(q) * b)
    c = ctx()
    if bool(mkbool(b == 0)):
        raise ZeroDivisionError("integer division or modulo by zero")
    q = z3.If(b > 0, a / b, (-a) / (-b))
    return mkint(q), mkint(a - q * b)


class SReal:
    """polynomial; d: {monomial: coef}, monomial = tuple of (atom id, power)"""
    __slots__ = ("d",)
    __array_ufunc__ = None

    def __init__(self, d):
        self.d = d

    # numpy scalar look-alike
    @property
    def dtype(self):
        return np.dtype("float64")
    ndim = 0
    shape = ()
    size = 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return R0

    def conjugate(self):
        return self
    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def astype(self, dt):
        dt = np.dtype(dt)
        if dt.kind == "f":
            return self
        if dt.kind == "c":
            return to_cplx(self)
        if dt.kind in "iu":
            return self.trunc()
        raise Unsupported("astype %s" % dt)

    # --- arithmetic
    def _co(self, o):
        if isinstance(o, SReal):
            return o
        if isinstance(o, np.ndarray):
            return None
        if isinstance(o, (complex, np.complexfloating, SCplx)):
            return None
        if isinstance(o, (int, float, Fraction, np.number, SInt, SBool, np.bool_)):
            return to_real(o)
        return None

    def __add__(self, o):
        p = self._co(o)
        if p is None:
            if isinstance(o, (complex, np.complexfloating)):
                return to_cplx(self) + o
            return NotImplemented
        if not self.d:
            return p
        if not p.d:
            return self
        a, b = self.d, p.d
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            if m in r:
                s = _cadd(r[m], c)
                if _czero(s):
                    del r[m]
                else:
                    r[m] = s
            else:
                r[m] = c
        return SReal(r)
    __radd__ = __add__

    def __neg__(self):
        return SReal({m: _cneg(c) for m, c in self.d.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        p = self._co(o)
        if p is None:
            if isinstance(o, (complex, np.complexfloating)):
                return to_cplx(self) - o
            return NotImplemented
        return self + (-p)

    def __rsub__(self, o):
        p = self._co(o)
        if p is None:
            if isinstance(o, (complex, np.complexfloating)):
                return to_cplx(o) - self
            return NotImplemented
        return p + (-self)

    def __mul__(self, o):
        p = self._co(o)
        if p is None:
            if isinstance(o, (complex, np.complexfloating)):
                return to_cplx(self) * o
            return NotImplemented
        r = {}
        c_ = ctx()
        if c_ is not None and c_.nonfinite and (not self.d or not p.d) and not (self.isfinite() and p.isfinite()):
            return nonfinite("nan")     # 0 * nan, 0 * inf
        sq = c_.square_rule if c_ is not None else None
        for m1, c1 in self.d.items():
            for m2, c2 in p.d.items():
                m = _mmul(m1, m2)
                c = _cmul(c1, c2)
                if sq and any(pw >= 2 and a in sq for a, pw in m):
                    extra = SReal({(): c})
                    rest = []
                    for a, pw in m:
                        if pw >= 2 and a in sq:
                            for _ in range(pw // 2):
                                extra = extra * sq[a]
                            if pw % 2:
                                rest.append((a, 1))
                        else:
                            rest.append((a, pw))
                    t = SReal({tuple(rest): _F1}) * extra
                    for mm, cc in t.d.items():
                        r[mm] = _cadd(r[mm], cc) if mm in r else cc
                    continue
                if m in r:
                    r[m] = _cadd(r[m], c)
                else:
                    r[m] = c
        return SReal({m: c for m, c in r.items() if not _czero(c)})
    __rmul__ = __mul__

    def const(self):
        """Fraction if this is a known constant else None"""
        if not self.d:
            return _F0
        if len(self.d) == 1:
            c = self.d.get(())
            if isinstance(c, Fraction):
                return c
        return None

    def inv(self):
        k = self.const()
        if k is not None:
            if k == 0:
                return nonfinite("inf")
            return SReal({(): 1 / k})
        ctx().nonzero.append(self)
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if isinstance(c, Fraction):
                return SReal({tuple((a, -p) for a, p in m): 1 / c})
        key = ("inv",) + poly_key(self)
        memo = ctx().memo
        if key not in memo:
            a = ctx().new_atom("inv")
            v = SReal({((a, 1),): _F1})
            memo[key] = (a, v)
            ctx().inv_of[a] = self
            zz = to_z3(self)
            ctx().fact(z3.Implies(zz != 0, zz * ctx().atoms[a][1] == 1))
        return memo[key][1]

    def __truediv__(self, o):
        p = self._co(o)
        if p is None:
            if isinstance(o, (complex, np.complexfloating)):
                return to_cplx(self) / o
            return NotImplemented
        k = p.const()
        if k is not None:
            if k == 0:
                return nonfinite("inf" if self.const() not in (0, None) else "nan")
            return self * SReal({(): 1 / k})
        if self.const() == 0 and k is None:
            ctx().nonzero.append(p)
            return self
        return self * p.inv()

    def __rtruediv__(self, o):
        p = self._co(o)
        if p is None:
            if isinstance(o, (complex, np.complexfloating)):
                return to_cplx(o) / self
            return NotImplemented
        return p / self

    def __pow__(self, k):
        if isinstance(k, SReal):
            k = k.const()
            if k is None:
                raise Unsupported("symbolic exponent")
        if isinstance(k, (int, np.integer)) or (isinstance(k, (float, np.floating, Fraction)) and float(k) == int(k)):
            k = int(k)
            if k < 0:
                return (self ** (-k)).inv()
            r = R1
            for _ in range(k):
                r = r * self
            return r
        if float(k) == 0.5:
            return self.sqrt()
        if float(k) == -0.5:
            return self.sqrt().inv()
        raise Unsupported("power %r" % (k,))

    def __rpow__(self, b):
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        k = self.const()
        if k is not None:
            return SReal({(): abs(k)}) if k else R0
        return ite(self >= 0, self, -self)

    def __floordiv__(self, o):
        return to_real((self / o).floor())

    def __mod__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self - to_real((self / o).floor()) * o

    # --- functions
    def floor(self):
        k = self.const()
        if k is not None:
            return math.floor(k)
        return mkint(z3.ToInt(to_z3(self)))

    def ceil(self):
        k = self.const()
        if k is not None:
            return math.ceil(k)
        return mkint(-z3.ToInt(-to_z3(self)))

    def trunc(self):
        k = self.const()
        if k is not None:
            return math.trunc(k)
        zz = to_z3(self)
        return mkint(z3.If(zz >= 0, z3.ToInt(zz), -z3.ToInt(-zz)))

    def rint(self):
        k = self.const()
        if k is not None:
            return SReal({(): Fraction(round(k))}) if round(k) else R0
        return to_real(self.__round__())

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported("round with digits")
        k = self.const()
        if k is not None:
            return round(k)
        zz = to_z3(self)
        f = z3.ToInt(zz)
        d = zz - z3.ToReal(f)
        half = z3.RealVal("1/2")
        up = z3.Or(d > half, z3.And(d == half, f % 2 == 1))
        return mkint(z3.If(up, f + 1, f))

    def _fn(self, name, facts=None):
        key = (name,) + poly_key(self)
        memo = ctx().memo
        if key not in memo:
            v = near(name, self)
            if v is not None:
                memo[key] = (self, v)
                return v
            a = ctx().new_atom(name)
            v = SReal({((a, 1),): _F1})
            memo[key] = (self, v)
            memo.setdefault(("args", name), []).append((self, v))
            if facts is not None:
                facts(a, v)
        return memo[key][1]

    def sqrt(self):
        k = self.const()
        if k is not None:
            if k < 0:
                return nonfinite("nan")
            n, d = math.isqrt(k.numerator), math.isqrt(k.denominator)
            if n * n == k.numerator and d * d == k.denominator:
                return SReal({(): Fraction(n, d)}) if n else R0

        def facts(a, v):
            zv = ctx().atoms[a][1]
            zp = to_z3(self)
            ctx().fact(zv >= 0)
            ctx().fact(z3.Implies(zp >= 0, zv * zv == zp))
            ctx().square_rule[a] = self
        return self._fn("sqrt", facts)

    def cos(self):
        return self._cossin()[0]

    def sin(self):
        return self._cossin()[1]

    def _cossin(self):
        """exact for (half) sums of arctan2 values, otherwise two atoms on the unit circle"""
        if self.const() == 0:
            return R1, R0
        key = ("trig",) + poly_key(self)
        memo = ctx().memo
        if key not in memo:
            v = self._angles() or near("trig", self)
            if v is None:
                a, b = ctx().new_atom("cos"), ctx().new_atom("sin")
                zc, zs = ctx().atoms[a][1], ctx().atoms[b][1]
                ctx().fact(zc * zc + zs * zs == 1)
                ctx().fact(z3.And(zc <= 1, zc >= -1, zs <= 1, zs >= -1))
                c, s = SReal({((a, 1),): _F1}), SReal({((b, 1),): _F1})
                ctx().square_rule[b] = 1 - c * c
                v = (c, s)
                memo.setdefault(("args", "trig"), []).append((self, v))
            memo[key] = (self, v)
        return memo[key][1]

    def _angles(self):
        """cos, sin of a (half) sum of arctan2 values whose arguments are not both zero"""
        parts = []
        for m, k in self.d.items():
            if len(m) != 1 or m[0][1] != 1 or not isinstance(k, Fraction) or ("atan2 of", m[0][0]) not in ctx().memo:
                return None
            parts.append((m[0][0], k))
        den = max(k.denominator for _, k in parts)
        if den == 1 and sum(abs(k) for _, k in parts) <= 4:
            c, s = R1, R0
            for a, k in parts:
                y, x = ctx().memo[("atan2 of", a)]
                r = (x * x + y * y).sqrt().inv()
                ca, sa = x * r, y * r if k > 0 else -(y * r)
                for _ in range(abs(int(k))):
                    c, s = c * ca - s * sa, s * ca + c * sa
            return c, s
        if den == 2:
            c2, s2 = (self * 2)._cossin()
            a = ctx().new_atom("cos")
            c = SReal({((a, 1),): _F1})
            ctx().square_rule[a] = (1 + c2) * Fraction(1, 2)
            s = s2 * SReal({((a, -1),): Fraction(1, 2)})
            ctx().fact(z3.And(ctx().atoms[a][1] <= 1, ctx().atoms[a][1] >= -1))
            return c, s
        return None

    def exp(self):
        k = self.const()
        if k == 0:
            return R1
        if k is not None and abs(k) < 700:
            return SReal({(): Fraction(math.exp(float(k)))})

        def facts(a, v):
            ctx().fact(ctx().atoms[a][1] > 0)
        return self._fn("exp", facts)

    def log(self):
        if self.const() == 1:
            return R0
        return self._fn("log")

    def arctan2(self, o):
        key = ("arctan2",) + poly_key(self) + poly_key(to_real(o))
        memo = ctx().memo
        if key not in memo:
            o = to_real(o)
            if self.const() is not None and o.const() is not None:
                memo[key] = ((self, o), SReal({(): Fraction(math.atan2(float(self.const()), float(o.const())))}))
                return memo[key][1]
            a = ctx().new_atom("arctan2")
            v = SReal({((a, 1),): _F1})
            memo[key] = ((self, o), v)
            ctx().memo[("atan2 of", a)] = (self, o)
            z = ctx().atoms[a][1]
            ctx().fact(z3.And(z <= _zc(Fraction(math.pi)), z >= _zc(-Fraction(math.pi))))
        return memo[key][1]

    def arctan(self):
        return self._fn("arctan")

    def isnan(self):
        return any(ctx().atoms[a][0].startswith("nan!") for m in self.d for a, _ in m)

    def _undefined(self):
        """certainly a nan"""
        return any(isinstance(k, Fraction) and ctx().atoms[a][0].startswith("nan!") for m, k in self.d.items() for a, _ in m)

    def isinf(self):
        return any(ctx().atoms[a][0].startswith("inf!") for m in self.d for a, _ in m)

    def isfinite(self):
        return not (self.isnan() or self.isinf())

    # --- comparisons
    def _cmp(self, o, f, pf):
        p = self._co(o)
        if p is None:
            return NotImplemented
        if self._undefined() or p._undefined():
            return pf(math.nan)
        d = self - p
        k = d.const()
        if k is not None:
            return pf(k)
        if isinstance(o, (float, np.floating)) and math.isinf(float(o)):
            return bool(pf(0. - float(o)))
        return mkbool(f(to_z3(d)))

    def __lt__(self, o):
        return self._cmp(o, lambda z: z < 0, lambda k: k < 0)

    def __le__(self, o):
        return self._cmp(o, lambda z: z <= 0, lambda k: k <= 0)

    def __gt__(self, o):
        return self._cmp(o, lambda z: z > 0, lambda k: k > 0)

    def __ge__(self, o):
        return self._cmp(o, lambda z: z >= 0, lambda k: k >= 0)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, (complex, np.complexfloating, SCplx)):
            return to_cplx(self) == o
        return self._cmp(o, lambda z: z == 0, lambda k: k == 0)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    __hash__ = None

    def __bool__(self):
        k = self.const()
        if k is not None:
            return k != 0
        return bool(self != 0)

    def __float__(self):
        k = self.const()
        if k is not None:
            return float(k)
        raise Unsupported("a symbolic real must become a float")

    def __int__(self):
        t = self.trunc()
        return t if isinstance(t, int) else t.__index__()

    def __complex__(self):
        return complex(float(self))

    def __repr__(self):
        c = ctx()
        parts = []
        for m, k in list(self.d.items())[:8]:
            s = "*".join((c.atoms[a][0] if c else str(a)) + ("" if p == 1 else "^%d" % p) for a, p in m)
            parts.append("%s%s" % (k, "*" + s if s else ""))
        return "SReal(%s%s)" % (" + ".join(parts) or "0", "..." if len(self.d) > 8 else "")

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


R0 = SReal({})
R1 = SReal({(): _F1})


def clear_inv(p, limit=4000):
    """p times powers of the denominators in it (which are not zero): free of 1/q atoms"""
    inv = ctx().inv_of
    for _ in range(12 if inv else 0):
        ats = [a for m in p.d for a, k in m if a in inv and k > 0]
        if not ats or len(p.d) > limit:
            break
        a = max(ats)
        n = max(k for m in p.d for b, k in m if b == a)
        q = [R1]
        for _i in range(n):
            q.append(q[-1] * inv[a])
        if len(p.d) * len(q[-1].d) > 20 * limit:
            break
        r = R0
        by = {}
        for m, c in p.d.items():
            k = dict(m).get(a, 0)
            by.setdefault(n - k, {})[tuple((b, e) for b, e in m if b != a)] = c
        for e, d in by.items():
            r = r + SReal(d) * q[e]
        p = r
    return clear_neg(p, limit)


def clear_neg(p, limit=4000):
    """p times powers of the square roots in its denominators (which are not zero)"""
    sq = ctx().square_rule
    for _ in range(12):
        ats = [(a, k) for m in p.d for a, k in m if k < 0 and a in sq]
        if not ats or len(p.d) > limit:
            break
        a = max(a for a, _k in ats)
        n = -min(k for b, k in ats if b == a)
        r = R0
        for m, c in p.d.items():
            k = dict(m).get(a, 0) + n
            t = SReal({tuple((b, e) for b, e in m if b != a): c})
            for _i in range(k // 2):
                t = t * sq[a]
            if k % 2:
                t = t * SReal({((a, 1),): _F1})
            r = r + t
        p = r
    return p


def nonfinite(kind):
    """a value produced by a division by zero etc: a fresh opaque atom, equal to nothing"""
    a = ctx().new_atom(kind)
    ctx().nonfinite = True
    return SReal({((a, 1),): _F1})


def near(name, p):
    """value of the function for an argument that differs only by rounding of constants"""
    for q, v in ctx().memo.get(("args", name), ()):
        if q.d.keys() == p.d.keys() and all(
                isinstance(c, Fraction) and isinstance(q.d[m], Fraction) and abs(c - q.d[m]) <= abs(c) / 10**12
                for m, c in p.d.items()):
            return v
    return None


def poly_key(p):
    items = []
    for m, c in p.d.items():
        if isinstance(c, Fraction):
            items.append((m, 0, c.numerator, c.denominator))
        else:
            c = z3.simplify(c)
            ctx().keep.append(c)
            items.append((m, 1, c.get_id(), 0))
    items.sort(key=repr)
    return tuple(items)


def to_real(x):
    if isinstance(x, SReal):
        return x
    if isinstance(x, (bool, np.bool_)):
        return R1 if x else R0
    if isinstance(x, _INTS):
        x = int(x)
        return SReal({(): Fraction(x)}) if x else R0
    if isinstance(x, Fraction):
        return SReal({(): x}) if x else R0
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x == 0:
            return R0
        if x != x:
            return nonfinite("nan")
        if math.isinf(x):
            return nonfinite("inf")
        return SReal({(): Fraction(x)})
    if isinstance(x, SInt):
        return SReal({(): z3.ToReal(x.z)})
    if isinstance(x, SBool):
        return SReal({(): z3.If(x.z, z3.RealVal(1), z3.RealVal(0))})
    if isinstance(x, SCplx):
        return x.re
    if isinstance(x, (complex, np.complexfloating)):
        return to_real(x.real)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_real(x[()])
    raise Unsupported("not a real: %r" % (type(x),))


def to_z3(p):
    """polynomial -> z3 real expression"""
    if not isinstance(p, SReal):
        p = to_real(p)
    c = ctx()
    terms = []
    for m, k in p.d.items():
        num = [] if isinstance(k, Fraction) and k == 1 and m else [_zc(k)]
        den = []
        for a, pw in m:
            v = c.atoms[a][1]
            if pw > 0:
                num.extend([v] * pw)
            else:
                den.extend([_invz(c, a)] * (-pw))
        fs = num + den
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        terms.append(t)
    if not terms:
        return z3.RealVal(0)
    return z3.Sum(*terms) if len(terms) > 1 else terms[0]


def _invz(c, a):
    key = ("invz", a)
    if key not in c.memo:
        v = z3.Real("1/" + c.atoms[a][0])
        c.memo[key] = v
        c.fact(z3.And(c.atoms[a][1] != 0, v * c.atoms[a][1] == 1))
    return c.memo[key]


def poly_atoms(p):
    return set(a for m in p.d for a, _ in m)


class SCplx:
    __slots__ = ("re", "im")
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @property
    def dtype(self):
        return np.dtype("complex128")
    ndim = 0
    shape = ()
    size = 1

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SCplx(self.re, -self.im)
    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def astype(self, dt):
        dt = np.dtype(dt)
        if dt.kind == "c":
            return self
        if dt.kind == "f":
            return self.re
        raise Unsupported("astype %s" % dt)

    @staticmethod
    def _co(o):
        if isinstance(o, SCplx):
            return o
        if isinstance(o, np.ndarray):
            return None
        if isinstance(o, (int, float, complex, Fraction, np.number, SInt, SBool, SReal, np.bool_)):
            return to_cplx(o)
        return None

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return SCplx(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return SCplx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return SCplx(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if not o.im.d:
            return SCplx(self.re * o.re, self.im * o.re)
        if not self.im.d:
            return SCplx(self.re * o.re, self.re * o.im)
        return SCplx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if not o.im.d:
            return SCplx(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        return SCplx(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, k):
        if float(k) == int(k) and k >= 0:
            r = to_cplx(1)
            for _ in range(int(k)):
                r = r * self
            return r
        raise Unsupported("complex power")

    def __neg__(self):
        return SCplx(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        if not self.im.d:
            return abs(self.re)
        return (self.re * self.re + self.im * self.im).sqrt()

    def exp(self):
        e = self.re.exp()
        return SCplx(e * self.im.cos(), e * self.im.sin())

    def sqrt(self):
        """principal square root"""
        key = ("csqrt",) + poly_key(self.re) + poly_key(self.im)
        memo = ctx().memo
        if key not in memo:
            a, b = ctx().new_atom("csqrt_re"), ctx().new_atom("csqrt_im")
            r = SCplx(SReal({((a, 1),): _F1}), SReal({((b, 1),): _F1}))
            memo[key] = (self, r)
            za, zb = ctx().atoms[a][1], ctx().atoms[b][1]
            zr, zi = to_z3(self.re), to_z3(self.im)
            ctx().fact(za >= 0)
            ctx().fact(za * za - zb * zb == zr)
            ctx().fact(2 * za * zb == zi)
            ctx().fact(z3.Implies(za == 0, zb >= 0))
        return memo[key][1]

    def isnan(self):
        return self.re.isnan() or self.im.isnan()

    def isinf(self):
        return self.re.isinf() or self.im.isinf()

    def isfinite(self):
        return self.re.isfinite() and self.im.isfinite()

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        o = self._co(o)
        if o is None:
            return NotImplemented
        return sand(self.re == o.re, self.im == o.im)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    # numpy orders complex numbers lexicographically
    def __lt__(self, o):
        o = self._co(o)
        return sor(self.re < o.re, sand(self.re == o.re, self.im < o.im))

    def __gt__(self, o):
        o = self._co(o)
        return sor(self.re > o.re, sand(self.re == o.re, self.im > o.im))

    __hash__ = None

    def __bool__(self):
        return bool(self != 0)

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __float__(self):
        return float(self.re)

    def __repr__(self):
        return "SCplx(%r, %r)" % (self.re, self.im)


def to_cplx(x):
    if isinstance(x, SCplx):
        return x
    if isinstance(x, (complex, np.complexfloating)):
        return SCplx(to_real(x.real), to_real(x.imag))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_cplx(x[()])
    return SCplx(to_real(x), R0)


_SYM = (SReal, SCplx, SInt, SBool)


def is_sym(x):
    return isinstance(x, _SYM)


def lift(x):
    return x


def const_value(x):
    """concrete python value of a scalar, or None"""
    if isinstance(x, SReal):
        return x.const()
    if isinstance(x, SCplx):
        a, b = x.re.const(), x.im.const()
        return None if a is None or b is None else (a, b)
    if isinstance(x, SInt):
        z = z3.simplify(x.z)
        return z.as_long() if z3.is_int_value(z) else None
    if isinstance(x, SBool):
        return None
    return x


class NoMerge(Exception):
    pass


def ite(c, a, b):
    """if c then a else b"""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    z = c.z if isinstance(c, SBool) else c
    if a is b:
        return a
    if isinstance(a, (bool, np.bool_, SBool)) and isinstance(b, (bool, np.bool_, SBool)):
        return mkbool(z3.If(z, zbool(a), zbool(b)))
    I = _INTS + (SInt, bool, np.bool_, SBool)
    if isinstance(a, I) and isinstance(b, I):
        return mkint(z3.If(z, zint(a), zint(b)))
    Rr = I + (float, np.floating, Fraction, SReal)
    if isinstance(a, Rr) and isinstance(b, Rr):
        return _ite_poly(z, to_real(a), to_real(b))
    Cc = Rr + (complex, np.complexfloating, SCplx)
    if isinstance(a, Cc) and isinstance(b, Cc):
        a, b = to_cplx(a), to_cplx(b)
        return SCplx(_ite_poly(z, a.re, b.re), _ite_poly(z, a.im, b.im))
    if type(a) is type(b) and isinstance(a, (str, type(None), tuple)) and a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    raise NoMerge("%r / %r" % (type(a), type(b)))


def _ite_poly(z, a, b):
    if a is b:
        return a
    r = {}
    for m in set(a.d) | set(b.d):
        c = _cite(z, a.d.get(m, _F0), b.d.get(m, _F0))
        if not _czero(c):
            r[m] = c
    return SReal(r)


def _order(a, b):
    # the order of integer operands does not matter: a common condition for min and max of the same pair
    if isinstance(a, SInt) and isinstance(b, SInt) and b.z.get_id() < a.z.get_id():
        return b, a
    return a, b


def smin(a, b):
    if isinstance(a, SInt) and isinstance(b, SInt):
        a, b = _order(a, b)
        return ite(a <= b, a, b)
    return ite(b < a, b, a)


def smax(a, b):
    if isinstance(a, SInt) and isinstance(b, SInt):
        a, b = _order(a, b)
        return ite(a <= b, b, a)
    return ite(b > a, b, a)


def scaled(cond, v):
    """[cond] * v"""
    if isinstance(cond, (bool, np.bool_)):
        return v if cond else v * 0
    if isinstance(v, SCplx):
        return SCplx(_ite_poly(cond.z, v.re, R0), _ite_poly(cond.z, v.im, R0))
    if isinstance(v, (SInt,) + _INTS):
        return mkint(z3.If(cond.z, zint(v), z3.IntVal(0)))
    if isinstance(v, (complex, np.complexfloating)):
        return scaled(cond, to_cplx(v))
    return _ite_poly(cond.z, to_real(v), R0)
