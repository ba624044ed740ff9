"""Mutation testing of the checks: small changes of the source, one at a time, in copies of /repo; lists the changes that
no given check reports (to be reviewed by hand: equivalent, outside every property, or a gap).

tools/mutate.py FILE CHECK,CHECK.. [--funcs a,b] [--max N] [--seed S] [--workers W] [--lines a-b]"""
import argparse, ast, copy, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ns(cp, cmd, timeout=1500):
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (cp, cmd)],
                       capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.Pow: [ast.Mult]}


def mutants(tree, funcs, lines):
    """[(description, function that makes the change in a deep copy given by node index)]"""
    out = []
    infn = []

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + "." if fn else "") + n.name
            for b in n.body:
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                    continue
                walk(b, fn)
            return
        if fn and (not funcs or any(fn == f or fn.startswith(f + ".") or fn.endswith("." + f) for f in funcs)):
            infn.append((n, fn))
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    walk(tree, "")
    for n, fn in infn:
        ln = getattr(n, "lineno", 0)
        if lines and not lines[0] <= ln <= lines[1]:
            continue

        def add(d, f, n=n):
            out.append(("%s:%d %s" % (fn, ln, d), n, f))
        if isinstance(n, ast.Compare):
            for o in CMP.get(type(n.ops[0]), []):
                add("%s: %s -> %s" % (ast.unparse(n), type(n.ops[0]).__name__, o.__name__), lambda n, o=o: n.ops.__setitem__(0, o()))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            if isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            for o in BIN.get(type(n.op), []):
                add("%s: %s -> %s" % (ast.unparse(n), type(n.op).__name__, o.__name__), lambda n, o=o: setattr(n, "op", o()))
        elif isinstance(n, ast.BoolOp):
            o = ast.Or if isinstance(n.op, ast.And) else ast.And
            add("%s: -> %s" % (ast.unparse(n), o.__name__), lambda n, o=o: setattr(n, "op", o()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            add("%s: drop -" % ast.unparse(n), lambda n: setattr(n, "op", ast.UAdd()))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add("constant %d -> %d" % (n.value, n.value + 1), lambda n: setattr(n, "value", n.value + 1))
            if n.value > 0:
                add("constant %d -> %d" % (n.value, n.value - 1), lambda n: setattr(n, "value", n.value - 1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add("constant %s" % n.value, lambda n: setattr(n, "value", not n.value))
        elif isinstance(n, ast.Constant) and type(n.value) is float:
            add("constant %s doubled" % n.value, lambda n: setattr(n, "value", n.value * 2 + (n.value == 0)))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add("if %s: negated" % ast.unparse(n.test), lambda n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test)))
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            add("%s: arguments swapped" % ast.unparse(n), lambda n: n.args.reverse())
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return)) and not (isinstance(n, ast.Return) and n.value is None):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and False:
                continue
            add("removed: %s" % ast.unparse(n)[:80], None)
    return out


class Repl(ast.NodeTransformer):
    def __init__(self, tgt, f):
        self.t, self.f = tgt, f

    def visit(self, n):
        if getattr(n, "_mid", None) == self.t:
            if self.f is None:
                return ast.copy_location(ast.Pass(), n)
            self.f(n)
            return n
        return self.generic_visit(n)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--funcs", default="")
    ap.add_argument("--lines", default="")
    ap.add_argument("--max", type=int, default=60)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--jobs", default="1")
    a = ap.parse_args()
    p = os.path.join("/repo/cddm", a.file)
    tree = ast.parse(open(p).read())
    for i, n in enumerate(ast.walk(tree)):
        n._mid = i
    ms = mutants(tree, [f for f in a.funcs.split(",") if f], [int(x) for x in a.lines.split("-")] if a.lines else None)
    random.Random(a.seed).shuffle(ms)
    ms = ms[:a.max]
    copies = []
    import queue
    free = queue.Queue()
    for w in range(a.workers):
        c = tempfile.mkdtemp(prefix="mutate_")
        subprocess.run(["cp", "-a", "/repo/.", c], check=True)
        subprocess.run(["cp", "-a", V, c + ".v"], check=True)
        copies.append(c)
        free.put(c)
    cnt = {"caught": 0, "survived": 0, "no verdict": 0, "broken": 0}

    def one(m):
        d, n, f = m
        t = Repl(n._mid, f).visit(copy.deepcopy(tree))
        ast.fix_missing_locations(t)
        c = free.get()
        t0 = time.time()
        try:
            try:
                src = ast.unparse(t)
                compile(src, p, "exec")
            except Exception as e:
                cnt["broken"] += 1
                return
            open(os.path.join(c, "cddm", a.file), "w").write(src)
            res = "survived"
            note = ""
            for ck in a.checks.split(","):
                try:
                    rc, o = ns(c, "cd %s.v && bash run.sh %s quick -q --no-replay --jobs %s" % (c, ck, a.jobs))
                except subprocess.TimeoutExpired:
                    rc, o = 2, "timeout"
                if rc and "COUNTEREXAMPLE" in o.replace("COUNTEREXAMPLE auto two rows", ""):
                    res = "caught"
                    note = ck
                    break
                if rc and not (ck == "C13" and "NO VERDICT" not in o):
                    res = "no verdict"
                    note = ck + " " + " ".join(o.split())[:160]
            cnt[res] += 1
            if res != "caught":
                print("%-10s %4.0f s %s %s" % (res, time.time() - t0, d.replace("\n", " ")[:200], note), flush=True)
        finally:
            free.put(c)
    try:
        with ThreadPoolExecutor(a.workers) as ex:
            list(ex.map(one, ms))
    finally:
        for c in copies:
            shutil.rmtree(c, ignore_errors=True)
            shutil.rmtree(c + ".v", ignore_errors=True)
    print(a.file, a.checks, cnt)


if __name__ == "__main__":
    main()
