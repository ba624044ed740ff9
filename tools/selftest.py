"""compares the symbolic execution with the real code:  selftest.py CXX [--n WITNESSES] [--tier T] [--case S]

An input of (up to n) paths of every case is run through the same harness on the real, compiled
code: every assertion that the solver decided has to hold there, and every assumption too."""
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import argparse, json, subprocess, tempfile, shutil, time
sys.set_int_max_str_digits(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--n", type=int, default=4)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    os.environ["CDDM_WITNESS"] = str(a.n)
    scratch = tempfile.mkdtemp(prefix="cddm_self_")
    try:
        from symex import loader, registry
        import check
        env = dict(os.environ)
        loader.env_setup(scratch)
        cs = registry.cases(a.pid, a.tier)
        if a.case:
            cs = [c for c in cs if a.case in c.name]
        if os.fork() == 0:
            cd = loader.load_symbolic()
            cd.scratch = scratch
            res = check.run_cases(cs, cd, a.jobs, 900, False)
            json.dump([dict(w, property=a.pid) for r in res for w in r.get("wit", [])], open(scratch + "/w.json", "w"))
            os._exit(0)
        os.wait()
        specs = json.load(open(scratch + "/w.json"))
        os.environ["NUMBA_BOUNDSCHECK"] = "1"
        cd = loader.load_real()
        from symex import harness
        import numpy as np
        bad = un = 0
        seen = {}
        for s in specs:
            case = next(c for c in cs if c.name == s["case"])
            ok = False
            for salt in range(3):
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        np.random.seed(salt + 1)
                        P = harness.run_concrete(case, cd, s["values"], s["draws"], salt=salt)
                        m = json.dumps(dict(a=P.assumed, f=[[str(x)[:300] for x in f] for f in P.fails[:3]]))
                    except BaseException as e:
                        m = json.dumps(dict(a=True, f=[["harness", repr(e)[:300]]]))
                    os.write(w, m.encode()[:60000])
                    os._exit(0)
                os.close(w)
                t0 = time.time()
                d = b""
                while True:
                    b = os.read(r, 65536)
                    if not b:
                        break
                    d += b
                os.close(r)
                os.waitpid(pid, 0)
                q = json.loads(d.decode()) if d else dict(a=True, f=[["died", ""]])
                if q["a"]:
                    ok = True
                    if q["f"]:
                        bad += 1
                        k = seen.setdefault(s["case"], 0)
                        seen[s["case"]] += 1
                        if k < 2:
                            print("MISMATCH", s["case"], q["f"][0], json.dumps(s["values"])[:300])
                    break
            un += not ok
        print("%s: %d witnesses, %d mismatches in %d cases, %d do not satisfy the assumptions in floating point" % (a.pid, len(specs), bad, len(seen), un))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


main()
