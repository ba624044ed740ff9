"""Replay counterexamples on the real, numba-compiled code.

usage: replay.py FILE.json [...]      exit 1 if at least one reproduces, 0 if none does"""
import json, os, sys, tempfile, shutil, signal, time, faulthandler

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def _child(spec, cd, w):
    from symex import harness, registry
    import numpy as np
    out = []
    try:
        case = registry.find(spec["property"], spec["case"])
        for salt in range(4):
            # recognisable contents in freed memory
            keep = [np.full(n, np.nan) for n in range(1, 140) for _ in range(8)]
            del keep
            np.random.seed(salt + 1)
            P = harness.run_concrete(case, cd, spec["values"], spec["draws"], salt=salt)
            if not P.assumed:
                continue
            out = [(l, m) for l, m in P.fails]
            if any(l == spec["label"] for l, m in out):
                break
            if out and salt >= 1:
                break
    except BaseException as e:
        import traceback
        traceback.print_exc()
        os.write(w, json.dumps(dict(error=repr(e))).encode())
        os._exit(3)
    os.write(w, json.dumps(dict(fails=out[:6], salt=salt)).encode()[:60000])
    os._exit(0)


def run(specs, cd, timeout=120):
    res = []
    for spec in specs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            _child(spec, cd, w)
        os.close(w)
        t0 = time.time()
        st = None
        while time.time() - t0 < timeout:
            p, st_ = os.waitpid(pid, os.WNOHANG)
            if p:
                st = st_
                break
            time.sleep(0.02)
        if st is None:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            res.append(dict(fails=[["hang", "the replay did not finish in %d s" % timeout]] if spec.get("label") == "hang" else [], note="timeout"))
            os.close(r)
            continue
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        if os.WIFSIGNALED(st):
            res.append(dict(fails=[["crash", "the real code died with signal %d" % os.WTERMSIG(st)]]))
        else:
            try:
                res.append(json.loads(data.decode()))
            except Exception:
                res.append(dict(error="no result", fails=[]))
    return res


def main(argv):
    outfile = None
    if argv and argv[0] == "--out":
        outfile, argv = argv[1], argv[2:]
    specs = [json.load(open(a)) for a in argv]
    scratch = tempfile.mkdtemp(prefix="cddm_replay_")
    os.environ["NUMBA_BOUNDSCHECK"] = "1"
    os.environ.setdefault("MALLOC_PERTURB_", "165")
    try:
        from symex import loader
        loader.env_setup(scratch)
        os.chdir(scratch)
        cd = loader.load_real()
        res = run(specs, cd)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    if outfile:
        json.dump(res, open(outfile, "w"))
    hit = False
    for s, r in zip(specs, res):
        f = r.get("fails") or []
        print("%s %s: %s" % (s["property"], s["case"], "; ".join("%s: %s" % tuple(x) for x in f) if f else "does not reproduce %s" % r.get("error", "")))
        hit = hit or bool(f)
    return 1 if hit else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
