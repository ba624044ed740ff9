"""plant.py ID... [--no-tests] [--check C01,C02] : validates planted changes in copies of /repo, bound over
/repo in a user namespace, and runs the check of the property."""
import argparse, json, os, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ns(copy, cmd, timeout=1500, env=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)], capture_output=True, text=True, timeout=timeout, env=e)
    return r.returncode, r.stdout + r.stderr


def one(sid, a):
    d = os.path.join(V, "seeded", sid)
    copy = tempfile.mkdtemp(prefix="plant_%s_" % sid)
    res = dict(id=sid)
    try:
        subprocess.run(["cp", "-a", "/repo/.", copy], check=True)
        meta = json.load(open(os.path.join(d, "meta.json")))
        if not a.no_demo:
            rc, o = ns(copy, "bash %s/demo.sh" % d, 600)
            res["clean_demo"] = rc
            if rc:
                res["clean_out"] = o[-800:]
        r = subprocess.run(["git", "-C", copy, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            res["apply"] = r.stderr[-300:]
            return res
        if not a.no_demo:
            rc, o = ns(copy, "bash %s/demo.sh" % d, 600)
            res["demo"] = rc
            if rc == 0 or "FAIL" not in o:
                res["demo_out"] = o[-500:]
        if not a.no_tests:
            rc, o = ns(copy, "bash <(sed 's/ 400 / 1500 /;s/timeout=300/timeout=1000/' /opt/vp/test.sh) %s/../t_%s.json" % (copy, os.path.basename(copy)), 2000)
            res["tests"] = o.strip().splitlines()[-1] if o.strip() else rc
            try:
                os.unlink("/tmp/t_%s.json" % os.path.basename(copy))
            except OSError:
                pass
        for pid in (a.check or meta["property"]).split(","):
            if pid == "none":
                continue
            t = time.time()
            rc, o = ns(copy, "cp -a %s %s.v && cd %s.v && bash run.sh %s %s -q; r=$?; rm -rf %s.v; exit $r" % (V, copy, copy, pid, a.tier, copy), 3600)
            res[pid] = rc
            res[pid + "_s"] = round(time.time() - t)
            res[pid + "_out"] = [l[:230] for l in o.splitlines() if "VIOLATION" in l or l.startswith("case ")][:2] or o.strip()[-700:]
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(copy + ".v", ignore_errors=True)
    return res


ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="+")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--no-demo", action="store_true")
ap.add_argument("--check")
ap.add_argument("--tier", default="quick")
ap.add_argument("-j", type=int, default=2)
a = ap.parse_args()
with ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(lambda s: one(s, a), a.ids):
        bad = r.get("clean_demo") or not r.get("demo", 1) or "126 passed, 0 failed" not in str(r.get("tests", "126 passed, 0 failed"))
        caught = any(r.get(k) == 1 for k in r if k[0] == "C" and len(k) == 3)
        if not a.no_tests and not a.no_demo and not bad:
            pf = os.path.join(V, "tools", "plant_results.json")
            pr = json.load(open(pf)) if os.path.exists(pf) else {}
            pr[r["id"]] = ", ".join("%s (%s s)" % (k, r[k + "_s"]) for k in sorted(r) if k[0] == "C" and len(k) == 3 and r[k] == 1) or "missed"
            json.dump(pr, open(pf, "w"), indent=1, sort_keys=True)
        print("%-28s %s %s" % (r["id"], "INVALID" if bad else "valid", "CAUGHT" if caught else "missed"), {k: v for k, v in r.items() if k != "id"} if bad or not caught else {k: v for k, v in r.items() if k.endswith("_s") or k == "tests"}, flush=True)
