"""Guard-merging interpreter for the AST of compiled (numba) kernels.

Symbolic conditions do not fork: both branches are executed under a guard and the states are
merged with if-then-else terms; every array index carries a bounds obligation. Constructs that
cannot be merged are re-run with the offending condition forked (solver-checked path split)."""
import ast, builtins, inspect, math, operator, textwrap, types
import numpy as np
import z3
from . import terms as T
from .terms import *
from .terms import mkbool, scaled, NoMerge
from .arr import SymArray, symnp, check_index, cast_scalar, asobj, written, unwrap_scalar, PartView
from . import arr as A

BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: None,
       ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
       ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitAnd: operator.and_,
       ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.MatMult: operator.matmul}
CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
       ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Is: operator.is_, ast.IsNot: operator.is_not,
       ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b}

_STMT = (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.If, ast.For, ast.While, ast.Return, ast.Expr, ast.Pass,
         ast.Break, ast.Continue, ast.Assert, ast.Raise)
_EXPR = (ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.Compare, ast.Call, ast.Name, ast.Constant, ast.Attribute,
         ast.Subscript, ast.Slice, ast.Tuple, ast.List, ast.IfExp, ast.JoinedStr, ast.FormattedValue, ast.Starred,
         ast.ListComp, ast.GeneratorExp, ast.comprehension, ast.Dict)
_OTHER = (ast.Load, ast.Store, ast.operator, ast.unaryop, ast.boolop, ast.cmpop, ast.keyword, ast.arguments, ast.arg,
          ast.FunctionDef)

_cache = {}


class FnInfo:
    def __init__(self, fn):
        src, self.line = inspect.getsourcelines(fn)
        tree = ast.parse(textwrap.dedent("".join(src)))
        self.node = tree.body[0]
        self.ok = isinstance(self.node, ast.FunctionDef)
        if self.ok:
            for st in self.node.body:
                for n in ast.walk(st):
                    if not isinstance(n, _STMT + _EXPR + _OTHER) or isinstance(n, ast.FunctionDef):
                        self.ok = False
        self.doc_skip = 1 if self.ok and self.node.body and isinstance(self.node.body[0], ast.Expr) and \
            isinstance(self.node.body[0].value, ast.Constant) and isinstance(self.node.body[0].value.value, str) else 0
        self.name = "%s:%s" % (fn.__module__, fn.__qualname__)
        self.fn = fn


def info(fn):
    r = _cache.get(fn)
    if r is None:
        r = _cache[fn] = FnInfo(fn)
    return r


class LazyRow:
    """base[..., m, ...] with a symbolic m selecting a sub-array"""

    def __init__(self, base, idx, k, ax, m):
        self.base, self.idx, self.k, self.ax, self.m = base, idx, k, ax, m
        self.n = base.shape[ax]

    def at(self, j):
        return self.base[self.idx[:self.k] + (j,) + self.idx[self.k + 1:]]

    @property
    def shape(self):
        return self.at(0).shape

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.base.dtype

    def __len__(self):
        return self.shape[0]

    def materialize(self):
        res = None
        for j in range(self.n - 1, -1, -1):
            v = self.at(j)
            if res is None:
                res = v.copy()
            else:
                g = self.m == j
                vr, rr = v.view_raw(), res.view_raw()
                for q in np.ndindex(*v.shape):
                    rr[q] = ite(g, vr[q], rr[q])
        return res


class Conflict:
    """a name bound to values that cannot be merged; only using it forces separate paths"""

    def __init__(self, key):
        self.key = key


def _mat(x):
    return x.materialize() if isinstance(x, LazyRow) else x


def sym_int(x=0, *a):
    if a or isinstance(x, (str, bytes)):
        return int(x, *a)
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return x.as_int()
    if isinstance(x, SReal):
        return x.trunc()
    return int(x)


def sym_float(x=0.):
    if isinstance(x, (SInt, SReal, SBool)):
        return to_real(x)
    return float(x)


def sym_complex(*a):
    if any(is_sym(x) for x in a):
        if len(a) == 1:
            return to_cplx(a[0])
        return SCplx(to_real(a[0]), to_real(a[1]))
    return complex(*a)


def sym_bool(x=False):
    if is_sym(x):
        return mkbool(zbool(x))
    return bool(x)


def sym_min(*a, **k):
    v = list(a[0]) if len(a) == 1 else a
    if k or not any(is_sym(x) for x in v):
        return builtins.min(v, **k) if len(a) == 1 else builtins.min(*a, **k)
    r = v[0]
    for x in v[1:]:
        r = T.smin(r, x)
    return r


def sym_max(*a, **k):
    v = list(a[0]) if len(a) == 1 else a
    if k or not any(is_sym(x) for x in v):
        return builtins.max(v, **k) if len(a) == 1 else builtins.max(*a, **k)
    r = v[0]
    for x in v[1:]:
        r = T.smax(r, x)
    return r


def sym_round(x, nd=None):
    if isinstance(x, SReal):
        return x.__round__(nd)
    return builtins.round(x) if nd is None else builtins.round(x, nd)


class SymMath:
    def __getattr__(self, name):
        v = getattr(math, name)
        if not callable(v):
            return v

        def f(*a):
            if any(is_sym(x) for x in a):
                m = {"ceil": "ceil", "floor": "floor", "trunc": "trunc"}.get(name)
                x = to_real(a[0])
                if m:
                    return getattr(x, m)()
                if name == "fabs":
                    return abs(x)
                if name == "pow":
                    return x ** a[1]
                if name == "atan2":
                    return x.arctan2(a[1])
                if name == "atan":
                    return x.arctan()
                if name == "isnan":
                    return x.isnan()
                if name == "hypot":
                    return (x * x + to_real(a[1]) * a[1]).sqrt()
                if hasattr(x, name):
                    return getattr(x, name)()
                raise Unsupported("math." + name)
            return v(*a)
        return f


symmath = SymMath()
CALLMAP = {int: sym_int, float: sym_float, complex: sym_complex, bool: sym_bool, builtins.min: sym_min,
           builtins.max: sym_max, builtins.round: sym_round}


class Frame:
    def __init__(self, fi, globs, closure):
        self.fi = fi
        self.g = globs
        self.closure = closure


def call(fn, args, kwargs=None):
    """run a python function (compiled kernel body) under the current guards"""
    fi = info(fn)
    T.ctx().used_fns.add(fi.name)
    if not fi.ok:
        return fn(*args, **(kwargs or {}))
    b = inspect.signature(fn).bind(*args, **(kwargs or {}))
    b.apply_defaults()
    env = dict(b.arguments)
    closure = {}
    if fn.__closure__:
        for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
            closure[nm] = cell.cell_contents
    fr = Frame(fi, fn.__globals__, closure)
    locs = set()
    outs = block(fi.node.body[fi.doc_skip:], env, fr)
    rets = []
    for kind, c, v in outs:
        if kind == "return":
            rets.append((c, v))
        elif kind == "next":
            rets.append((c, None))
    if len(rets) == 1:
        return rets[0][1]
    r = rets[-1][1]
    for c, v in reversed(rets[:-1]):
        try:
            r = ite(c if c is True else mkbool(c), v, r)
        except NoMerge:
            for n in ast.walk(fi.node):
                if isinstance(n, (ast.If, ast.While)):
                    T.ctx().force.add((fi.name, n.lineno, n.col_offset))
            raise RestartPath()
    return r


def _and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def merge(nexts, fr, key):
    """[(cond, env)] -> (cond, env)"""
    if len(nexts) == 1:
        return nexts[0]
    cs = [c for c, _ in nexts]
    if any(c is True for c in cs):
        tot = True
    else:
        tot = z3.simplify(z3.Or(*cs))
        if z3.is_true(tot):
            tot = True
    env = dict(nexts[-1][1])
    for c, e in reversed(nexts[:-1]):
        cc = True if c is True else mkbool(c)
        new = {}
        for k in list(e) + [k for k in env if k not in e]:
            if k not in env:
                new[k] = e[k]
            elif k not in e:
                new[k] = env[k]
            elif e[k] is env[k]:
                new[k] = e[k]
            else:
                x, y = e[k], env[k]
                if isinstance(x, Conflict) or isinstance(y, Conflict):
                    new[k] = x if isinstance(x, Conflict) else y
                    continue
                if isinstance(x, LazyRow) or isinstance(y, LazyRow):
                    new[k] = Conflict(key)      # a view: a merged copy would not alias the array
                    continue
                try:
                    new[k] = ite(cc, x, y)
                except NoMerge:
                    new[k] = Conflict(key)
        env = new
    return tot, env


def block(stmts, env, fr):
    outs = []
    cond = True
    ctx = T.ctx()
    for s in stmts:
        pushed = False
        if cond is not True:
            if not ctx.feasible(cond):
                return outs
            ctx.guards.append(cond)
            pushed = True
        try:
            o = stmt(s, env, fr)
        finally:
            if pushed:
                ctx.guards.pop()
        nexts = []
        for kind, c, e in o:
            if kind == "next":
                nexts.append((c, e))
            else:
                outs.append((kind, _and(cond, c), e))
        if not nexts:
            return outs
        c, env = merge(nexts, fr, (fr.fi.name, s.lineno, s.col_offset))
        cond = _and(cond, c)
    outs.append(("next", cond, env))
    return outs


def truth(v):
    """concrete bool or z3 condition"""
    if isinstance(v, SBool):
        return v.z
    if isinstance(v, (SInt, SReal, SCplx)):
        b = mkbool(zbool(v)) if not isinstance(v, SCplx) else v != 0
        return b.z if isinstance(b, SBool) else bool(b)
    return bool(v)


def stmt(s, env, fr):
    ctx = T.ctx()
    t = type(s)
    if t is ast.Assign:
        # X = X + e  is treated as  X += e  (keeps merged terms small)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.value, ast.BinOp) \
                and isinstance(s.value.op, (ast.Add, ast.Sub)):
            tgt = ast.dump(s.targets[0]).replace("Store()", "Load()")
            if ast.dump(s.value.left) == tgt:
                if aug_subscript(s.targets[0], s.value.op, s.value.right, env, fr):
                    return [("next", True, env)]
            elif isinstance(s.value.op, ast.Add) and ast.dump(s.value.right) == tgt:
                if aug_subscript(s.targets[0], s.value.op, s.value.left, env, fr):
                    return [("next", True, env)]
        v = ev(s.value, env, fr)
        for tg in s.targets:
            assign(tg, v, env, fr)
        return [("next", True, env)]
    if t is ast.AugAssign:
        if isinstance(s.target, ast.Subscript) and isinstance(s.op, (ast.Add, ast.Sub)):
            if aug_subscript(s.target, s.op, s.value, env, fr):
                return [("next", True, env)]
        if isinstance(s.target, ast.Name):
            old = lookup(s.target.id, env, fr)
        else:
            old = ev_target_load(s.target, env, fr)
        v = ev(s.value, env, fr)
        if isinstance(old, np.ndarray):
            r = inplace(s.op, old, v)
        else:
            r = binop(s.op, old, v)
        assign(s.target, r, env, fr)
        return [("next", True, env)]
    if t is ast.AnnAssign:
        if s.value is not None:
            assign(s.target, ev(s.value, env, fr), env, fr)
        return [("next", True, env)]
    if t is ast.Expr:
        ev(s.value, env, fr)
        return [("next", True, env)]
    if t is ast.If:
        c = truth(ev(s.test, env, fr))
        key = (fr.fi.name, s.lineno, s.col_offset)
        if not isinstance(c, bool) and key in ctx.force:
            c = ctx.decide(c)
        if isinstance(c, bool):
            return block(s.body if c else s.orelse, env, fr)
        if not ctx.feasible(c):
            return block(s.orelse, env, fr)
        nc = z3.Not(c)
        if not ctx.feasible(nc):
            return block(s.body, env, fr)
        outs = []
        for cc, body in ((c, s.body), (nc, s.orelse)):
            e = dict(env)
            ctx.guards.append(cc)
            depth = len(ctx.guards)
            try:
                o = block(body, e, fr)
            except (Unsupported, PathAbort):
                raise
            except Exception:
                # an exception inside a guarded branch: explore that branch as a path of its own
                ctx.force.add(key)
                raise RestartPath()
            finally:
                del ctx.guards[depth - 1:]
            for kind, c2, e2 in o:
                outs.append((kind, _and(cc, c2), e2))
        return outs
    if t is ast.For:
        it = ev(s.iter, env, fr)
        return loop(s, iter_values(it), env, fr)
    if t is ast.While:
        return loop(s, None, env, fr)
    if t is ast.Return:
        return [("return", True, _mat(ev(s.value, env, fr)) if s.value is not None else None)]
    if t is ast.Pass:
        return [("next", True, env)]
    if t is ast.Break:
        return [("break", True, env)]
    if t is ast.Continue:
        return [("continue", True, env)]
    if t is ast.Assert:
        c = truth(ev(s.test, env, fr))
        if not isinstance(c, bool):
            c = ctx.decide(c)
        if not c:
            raise AssertionError(ev(s.msg, env, fr) if s.msg is not None else "")
        return [("next", True, env)]
    if t is ast.Raise:
        e = ev(s.exc, env, fr)
        raise e if isinstance(e, BaseException) else e()
    raise Unsupported("statement %s" % t.__name__)


def iter_values(it):
    if isinstance(it, (range, list, tuple)):
        return list(it)
    if isinstance(it, (SymArray, np.ndarray)):
        return [it[i] for i in range(len(it))]
    return list(it)


def loop(s, values, env, fr):
    ctx = T.ctx()
    key = (fr.fi.name, s.lineno, s.col_offset)
    cond = True
    outs = []
    exits = []
    n = 0
    while True:
        if values is not None:
            if n >= len(values):
                exits.append((cond, env, True))
                break
        n += 1
        pushed = 0
        if cond is not True:
            if not ctx.feasible(cond):
                break
            ctx.guards.append(cond)
            pushed = 1
        try:
            if values is None:
                c = truth(ev(s.test, env, fr))
                if not isinstance(c, bool) and key in ctx.force:
                    c = ctx.decide(c)
                if c is False:
                    exits.append((cond, env, True))
                    break
                if c is not True:
                    if n > 400:
                        raise Unsupported("unbounded while loop")
                    if not ctx.feasible(c):
                        exits.append((cond, env, True))
                        break
                    exits.append((_and(cond, z3.Not(c)), dict(env), True))
                    cond = _and(cond, c)
                    ctx.guards.append(c)
                    pushed += 1
                if n > 100000:
                    raise Unsupported("loop bound")
            else:
                assign(s.target, values[n - 1], env, fr)
            o = block(s.body, env, fr)
        finally:
            for _ in range(pushed):
                ctx.guards.pop()
        nexts = []
        for kind, c, e in o:
            if kind in ("next", "continue"):
                nexts.append((c, e))
            elif kind == "break":
                exits.append((_and(cond, c), e, False))
            else:
                outs.append((kind, _and(cond, c), e))
        if not nexts:
            break
        c, env = merge(nexts, fr, key)
        cond = _and(cond, c)
    final = []
    for c, e, natural in exits:
        if natural and s.orelse:
            if c is not True:
                ctx.guards.append(c)
            try:
                o = block(s.orelse, e, fr)
            finally:
                if c is not True:
                    ctx.guards.pop()
            for kind, c2, e2 in o:
                outs.append((kind, _and(c, c2), e2)) if kind != "next" else final.append((_and(c, c2), e2))
        else:
            final.append((c, e))
    if final:
        c, e = merge(final, fr, key)
        outs.append(("next", c, e))
    return outs


def lookup(name, env, fr):
    if name in env:
        v = env[name]
        if isinstance(v, Conflict):
            force = T.ctx().force
            keys = {v.key}
            if v.key in force:
                keys = {(fr.fi.name, n.lineno, n.col_offset) for n in ast.walk(fr.fi.node) if isinstance(n, (ast.If, ast.While))}
            if keys <= set(force):
                raise Unsupported("values of %s cannot be merged" % name)
            force |= keys
            raise RestartPath()
        return v
    if name in fr.closure:
        return fr.closure[name]
    if name in fr.g:
        v = fr.g[name]
        if v is np:
            return symnp
        if v is math:
            return symmath
        return v
    try:
        return getattr(builtins, name)
    except AttributeError:
        raise NameError("name %r is not defined" % name)


def binop(op, a, b):
    a, b = _mat(a), _mat(b)
    if type(op) is ast.Div:
        if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and not isinstance(a, bool):
            if b == 0:
                raise ZeroDivisionError("division by zero")
            from fractions import Fraction
            return to_real(Fraction(int(a), int(b)))
        if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray) and (is_sym(a) or is_sym(b)):
            return A._truediv(a, b)
        return a / b
    if type(op) is ast.Pow and is_sym(a):
        return A._pow(a, b)
    if isinstance(a, float) and isinstance(b, (SReal, SCplx)):
        a = to_real(a)
    return BIN[type(op)](a, b)


def inplace(op, a, b):
    b = _mat(b)
    t = type(op)
    f = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv}.get(t)
    if f is None:
        return binop(op, a, b)
    return f(a, b)


def aug_subscript(tg, op, value, env, fr):
    """base[idx] += value for scalar elements, merged over symbolic indices/guards; False if not applicable"""
    base = ev(tg.value, env, fr)
    if isinstance(base, LazyRow):
        return _aug_lazy(base, tg, op, value, env, fr)
    if not isinstance(base, SymArray):
        return False
    idx = ev_index(tg.slice, env, fr)
    tup = idx if isinstance(idx, tuple) else (idx,)
    if len(tup) != base.ndim or not all(isinstance(i, (int, np.integer, SInt)) and not isinstance(i, bool) for i in tup):
        return False
    v = _mat(ev(value, env, fr))
    if isinstance(v, np.ndarray):
        v = v[()] if v.ndim == 0 else v
        if isinstance(v, np.ndarray):
            return False
    if type(op) is ast.Sub:
        v = -v
    _accum(base, tup, v, True)
    return True


def _accum(base, tup, v, extra):
    ctx = T.ctx()
    dt = base._ldt
    tup = [check_index(i, n) for i, n in zip(tup, base.shape)]
    g = ctx.guard()
    conds = []
    symk = [k for k, i in enumerate(tup) if isinstance(i, SInt)]
    r = base.view_raw()
    v = cast_for_add(v, dt)
    if not symk:
        q = tuple(int(i) for i in tup)
        c = extra
        if g is not None:
            c = sand(c, SBool(g))
        r[q] = cast_scalar(r[q] + scaled(c, v), dt)
    else:
        import itertools
        ranges = [range(base.shape[k]) for k in symk]
        for combo in itertools.product(*ranges):
            c = extra
            q = list(tup)
            for k, j in zip(symk, combo):
                c = sand(c, tup[k] == j)
                q[k] = j
            if c is False:
                continue
            if g is not None:
                c = sand(c, SBool(g))
            q = tuple(int(i) for i in q)
            r[q] = cast_scalar(r[q] + scaled(c, v), dt)
    written(base)


def cast_for_add(v, dt):
    if dt.kind == "c":
        return to_cplx(v)
    if dt.kind == "f":
        return to_real(v)
    return v


def _aug_lazy(row, tg, op, value, env, fr):
    idx = ev_index(tg.slice, env, fr)
    tup = idx if isinstance(idx, tuple) else (idx,)
    v = _mat(ev(value, env, fr))
    if type(op) is ast.Sub:
        v = -v
    for j in range(row.n):
        c = row.m == j
        if c is False:
            continue
        sub = row.at(j)
        if len(tup) != sub.ndim or not all(isinstance(i, (int, np.integer, SInt)) for i in tup):
            raise Unsupported("partial update of a symbolically selected row")
        _accum(sub, tup, v, c)
    return True


def ev_target_load(n, env, fr):
    t = type(n)
    if t is ast.Subscript:
        return ev_subscript(n, env, fr)
    if t is ast.Attribute:
        return getattr(ev(n.value, env, fr), n.attr)
    return ev(n, env, fr)


def assign(tg, v, env, fr):
    t = type(tg)
    if t is ast.Name:
        env[tg.id] = v
    elif t in (ast.Tuple, ast.List):
        vs = list(v)
        if len(vs) != len(tg.elts):
            raise ValueError("unpacking")
        for a, b in zip(tg.elts, vs):
            assign(a, b, env, fr)
    elif t is ast.Subscript:
        base = ev(tg.value, env, fr)
        idx = ev_index(tg.slice, env, fr)
        store(base, idx, _mat(v))
    elif t is ast.Attribute:
        setattr(ev(tg.value, env, fr), tg.attr, v)
    else:
        raise Unsupported("assignment target")


def store(base, idx, v):
    if isinstance(base, LazyRow):
        for j in range(base.n):
            c = base.m == j
            if c is False:
                continue
            if c is True:
                store(base.at(j), idx, v)
            else:
                T.ctx().guards.append(c.z)
                try:
                    store(base.at(j), idx, v)
                finally:
                    T.ctx().guards.pop()
        return
    if isinstance(base, SymArray):
        tup = idx if isinstance(idx, tuple) else (idx,)
        if all(isinstance(i, (int, np.integer, SInt)) and not isinstance(i, bool) for i in tup) and len(tup) <= base.ndim:
            tup = tuple(check_index(i, n) for i, n in zip(tup, base.shape))
            base[tup] = v
            return
        base[idx] = v
        return
    if isinstance(base, np.ndarray) and T.ctx().guards:
        raise Unsupported("guarded store into a concrete array")
    if isinstance(base, list) and T.ctx().guards:
        base[idx] = ite(mkbool(T.ctx().guard()), v, base[idx])
        return
    base[idx] = v


def ev_index(n, env, fr):
    if isinstance(n, ast.Tuple):
        return tuple(ev_index(e, env, fr) for e in n.elts)
    if isinstance(n, ast.Slice):
        f = lambda e: None if e is None else ev(e, env, fr)
        return slice(f(n.lower), f(n.upper), f(n.step))
    v = ev(n, env, fr)
    if isinstance(v, np.ndarray) and v.ndim == 0 and isinstance(v, SymArray):
        v = v[()]
    return v


def ev_subscript(n, env, fr):
    base = ev(n.value, env, fr)
    idx = ev_index(n.slice, env, fr)
    v = load(base, idx)
    if isinstance(base, np.ndarray) and isinstance(v, (int, np.integer, SInt)):
        return T.typed(v, base.dtype)
    return v


def load(base, idx):
    if isinstance(base, LazyRow):
        tup = idx if isinstance(idx, tuple) else (idx,)
        sub = base.at(0)
        if len(tup) == sub.ndim and all(isinstance(i, (int, np.integer, SInt)) for i in tup):
            r = None
            for j in range(base.n - 1, -1, -1):
                c = base.m == j
                if c is False:
                    continue
                v = load(base.at(j), idx)
                r = v if r is None else ite(c, v, r)
            return r
        return load(base.materialize(), idx)
    if isinstance(base, np.ndarray):
        tup = idx if isinstance(idx, tuple) else (idx,)
        if all(isinstance(i, (int, np.integer, SInt)) and not isinstance(i, (bool, np.bool_)) for i in tup):
            if len(tup) > base.ndim:
                raise IndexError("too many indices")
            tup = tuple(check_index(i, m) for i, m in zip(tup, base.shape))
            ks = [k for k, i in enumerate(tup) if isinstance(i, SInt)]
            if ks:
                if not isinstance(base, SymArray):
                    base = A.sym(base)
                if len(tup) < base.ndim:
                    if len(ks) == 1:
                        return LazyRow(base, tup, ks[0], ks[0], tup[ks[0]])
                    raise Unsupported("several symbolic indices selecting a sub-array")
                # scalar: nested ite
                import itertools
                r = None
                rawb = base.view_raw()
                for combo in itertools.product(*[range(base.shape[k]) for k in ks]):
                    q = list(tup)
                    c = True
                    for k, j in zip(ks, combo):
                        c = sand(c, tup[k] == j)
                        q[k] = j
                    if c is False:
                        continue
                    v = rawb[tuple(int(i) for i in q)]
                    r = v if r is None else ite(c, v, r)
                return unwrap_scalar(r, base._ldt)
            return base[tup if len(tup) > 1 else tup[0]]
        return base[idx]
    if isinstance(idx, SInt) and isinstance(base, (list, tuple)):
        m = check_index(idx, len(base), python=True)
        if isinstance(m, SInt):
            r = None
            for j, v in enumerate(base):
                r = v if r is None else ite(m == j, v, r)
            return r
        idx = m
    return base[idx]


def ev(n, env, fr):
    t = type(n)
    if t is ast.Constant:
        return n.value
    if t is ast.Name:
        return lookup(n.id, env, fr)
    if t is ast.BinOp:
        return binop(n.op, ev(n.left, env, fr), ev(n.right, env, fr))
    if t is ast.Attribute:
        b = ev(n.value, env, fr)
        if isinstance(b, LazyRow):
            if n.attr in ("shape", "ndim", "dtype"):
                return getattr(b, n.attr)
            b = b.materialize()
        if b is np:
            b = symnp
        elif b is math:
            b = symmath
        if isinstance(b, (int, float, complex)) and not isinstance(b, np.generic) and n.attr in ("real", "imag", "conjugate"):
            return getattr(b, n.attr)
        return getattr(b, n.attr)
    if t is ast.Subscript:
        return ev_subscript(n, env, fr)
    if t is ast.Call:
        return ev_call(n, env, fr)
    if t is ast.Compare:
        left = ev(n.left, env, fr)
        res = True
        for op, rn in zip(n.ops, n.comparators):
            right = ev(rn, env, fr)
            r = CMP[type(op)](_mat(left), _mat(right))
            if len(n.ops) == 1:
                return r
            res = sand(res, r)
            if res is False:
                return False
            left = right
        return res
    if t is ast.BoolOp:
        is_and = isinstance(n.op, ast.And)
        acc = None
        ctx = T.ctx()
        pushed = 0
        try:
            for v in n.values:
                x = ev(v, env, fr)
                if acc is None and not is_sym(x):
                    if is_and and not x or (not is_and and x):
                        return x
                    last = x
                    continue
                if acc is None and v is n.values[-1]:
                    return x
                b = x if isinstance(x, (bool, np.bool_, SBool)) else mkbool(zbool(x)) if is_sym(x) else bool(x)
                acc = b if acc is None else (sand(acc, b) if is_and else sor(acc, b))
                if acc is (not is_and):
                    return acc
                if isinstance(acc, SBool):
                    # short circuit: later operands are evaluated only under this guard
                    ctx.guards.append(acc.z if is_and else z3.Not(acc.z))
                    pushed += 1
                    if v is not n.values[-1] and not ctx.feasible():
                        break
            return acc if acc is not None else last
        finally:
            for _ in range(pushed):
                ctx.guards.pop()
    if t is ast.UnaryOp:
        v = _mat(ev(n.operand, env, fr))
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        if isinstance(n.op, ast.Not):
            c = truth(v)
            return (not c) if isinstance(c, bool) else mkbool(z3.Not(c))
        return ~v
    if t is ast.IfExp:
        c = truth(ev(n.test, env, fr))
        if isinstance(c, bool):
            return ev(n.body if c else n.orelse, env, fr)
        ctx = T.ctx()
        ctx.guards.append(c)
        try:
            a = ev(n.body, env, fr) if ctx.feasible() else None
        finally:
            ctx.guards.pop()
        ctx.guards.append(z3.Not(c))
        try:
            b = ev(n.orelse, env, fr) if ctx.feasible() else None
        finally:
            ctx.guards.pop()
        if a is None:
            return b
        if b is None:
            return a
        try:
            return ite(mkbool(c), a, b)
        except NoMerge:
            return a if ctx.decide(c) else b
    if t is ast.Tuple:
        return tuple(ev(e, env, fr) for e in n.elts)
    if t is ast.List:
        return [ev(e, env, fr) for e in n.elts]
    if t is ast.Dict:
        return {ev(k, env, fr): ev(v, env, fr) for k, v in zip(n.keys, n.values)}
    if t is ast.JoinedStr:
        return "<str>"
    if t in (ast.ListComp, ast.GeneratorExp):
        out = []

        def rec(gens, e):
            if not gens:
                out.append(ev(n.elt, e, fr))
                return
            g = gens[0]
            for v in iter_values(ev(g.iter, e, fr)):
                e2 = dict(e)
                assign(g.target, v, e2, fr)
                if all(bool(ev(i, e2, fr)) for i in g.ifs):
                    rec(gens[1:], e2)
        rec(n.generators, env)
        return out
    raise Unsupported("expression %s" % t.__name__)


def ev_call(n, env, fr):
    f = ev(n.func, env, fr)
    args = []
    for a in n.args:
        if isinstance(a, ast.Starred):
            args.extend(ev(a.value, env, fr))
        else:
            args.append(ev(a, env, fr))
    kw = {k.arg: ev(k.value, env, fr) for k in n.keywords}
    f = CALLMAP.get(f, f) if isinstance(f, (type, types.BuiltinFunctionType)) else f
    if isinstance(f, type) and issubclass(f, np.generic) and len(args) == 1 and is_sym(args[0]):
        from .arr import cast_scalar
        return cast_scalar(args[0], np.dtype(f))
    lazies = [i for i, a in enumerate(args) if isinstance(a, LazyRow)]
    if lazies and f is not builtins.len:
        # the callee may write through the row: run it once per possible row under its guard
        ctx = T.ctx()
        i = lazies[0]
        row = args[i]
        if len(lazies) > 1 and any(args[j].m is not row.m for j in lazies[1:]):
            pass
        res = None
        first = True
        for j in range(row.n):
            c = row.m == j
            if c is False:
                continue
            cz = zbool(c)
            if not ctx.feasible(cz):
                continue
            a2 = list(args)
            a2[i] = row.at(j)
            for q in lazies[1:]:
                if isinstance(args[q], LazyRow) and z3.eq(T.zint(args[q].m), T.zint(row.m)) and args[q].n == row.n:
                    a2[q] = args[q].at(j)
            ctx.guards.append(cz)
            try:
                r = _do_call_lazy(f, a2, kw)
            finally:
                ctx.guards.pop()
            if first:
                res, first = r, False
            elif r is not res:
                res = ite(c, r, res)
        return res
    return f(*args, **kw)


def _do_call_lazy(f, args, kw):
    for i, a in enumerate(args):
        if isinstance(a, LazyRow):
            ctx = T.ctx()
            res = None
            first = True
            for j in range(a.n):
                c = a.m == j
                if c is False:
                    continue
                cz = zbool(c)
                if not ctx.feasible(cz):
                    continue
                a2 = list(args)
                a2[i] = a.at(j)
                ctx.guards.append(cz)
                try:
                    r = _do_call_lazy(f, a2, kw)
                finally:
                    ctx.guards.pop()
                if first:
                    res, first = r, False
                elif r is not res:
                    res = ite(c, r, res)
            return res
    return f(*args, **kw)
