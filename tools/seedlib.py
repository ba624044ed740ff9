"""helpers to write planted changes: seed(id, prop, edits, demo, needs, breaks)"""
import difflib, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''import sys, os
sys.path.insert(0, os.getcwd())
import warnings; warnings.simplefilter("ignore")
import numpy as np
import cddm, cddm.conf
assert os.path.realpath(cddm.__file__).startswith(os.path.realpath(os.getcwd())), cddm.__file__
def check(name, got, want, tol=1e-8):
    got, want = np.asarray(got), np.asarray(want)
    ok = got.shape == want.shape and np.allclose(got, want, rtol=tol, atol=tol, equal_nan=True)
    print("ok  " if ok else "FAIL", name)
    if not ok:
        print(got); print(want); sys.exit(1)
rng = np.random.RandomState(3)
def cdata(*shape):
    return rng.randn(*shape) + 1j*rng.randn(*shape)
'''


DEMO = """#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
s="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$s"' EXIT
mkdir "$s/home" "$s/mpl"
export HOME="$s/home" NUMBA_CACHE_DIR="$s/numba" MPLCONFIGDIR="$s/mpl" MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen PYTHONDONTWRITEBYTECODE=1
export DEMO_SCRATCH="$s"
timeout 280 /opt/venv/bin/python -W ignore "$d/demo.py"
"""


def seed(sid, prop, edits, demo, needs, breaks):
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    by = {}
    for f, old, new in edits:
        by.setdefault(f, []).append((old, new))
    out = ""
    for f, l in by.items():
        s = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
        t = s
        for old, new in l:
            k = 1
            if isinstance(new, tuple):
                new, k = new      # (text, which occurrence, from 1)
                parts = t.split(old)
                assert len(parts) > k, (sid, f, old, len(parts))
                t = old.join(parts[:k]) + new + old.join(parts[k:])
            else:
                assert t.count(old) == 1, (sid, f, old, t.count(old))
                t = t.replace(old, new)
        a, b = s.splitlines(True), t.splitlines(True)
        out += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a, b, "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(out)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
