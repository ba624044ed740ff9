"""property id -> harness module"""
import importlib, os, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ids():
    return sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(VERIF, "props", "c[0-9]*.py")))


def load(pid):
    return importlib.import_module("props." + pid.lower())


def cases(pid, tier):
    m = load(pid)
    cs = list(m.cases(tier))
    assert cs
    names = [c.name for c in cs]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    return cs


def find(pid, name):
    for tier in ("quick", "thorough"):
        for c in cases(pid, tier):
            if c.name == name:
                return c
    raise KeyError(name)
