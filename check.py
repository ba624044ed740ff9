"""Decide one property:  check.py ID [--tier quick|thorough] [--case NAME] [--jobs N]

exit 0: every query of every case came back unsat
exit 1: VIOLATION property=ID replay=FILE  (counterexample reproduced on the real code)
exit 2: no verdict (construct that cannot be encoded, solver unknown, time limit, counterexample
        that does not reproduce)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.set_int_max_str_digits(0)
import argparse, json, multiprocessing as mp, shutil, subprocess, tempfile, time, signal, resource

VERIF = os.path.dirname(os.path.abspath(__file__))
LIMITS = {"quick": 400, "thorough": 5400}
TOTAL = {"quick": 640, "thorough": 6 * 3600}


def worker(case, cd, conn, limit):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        from symex import harness
        sys.setrecursionlimit(20000)
        r = harness.explore(case, cd, limit, query_ms=getattr(case, "query_ms", 60000))
    except BaseException as e:
        import traceback
        r = dict(case=case.name, cex=[], paths=0, infeasible=0, restarts=0, status="error", reached=0, stats={}, fns=[], notes=[],
                 error="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]), wall_s=0)
    conn.send(r)
    conn.close()
    os._exit(0)


def run_cases(cs, cd, jobs, limit, verbose, total=1e9, kf=()):
    todo = list(cs)
    running = []
    out = []
    ctx = mp.get_context("fork")
    t00 = time.time()
    hits = 0
    while todo or running:
        el = time.time() - t00
        if el > total or (hits >= 6 and el > 60) or (hits and el > 240):
            # time budget is used up, or there is enough to report
            for c, p, a, t in running:
                p.kill()
            for c in [r[0] for r in running] + todo:
                out.append(dict(case=c.name, cex=[], paths=0, infeasible=0, restarts=0, status="skipped", reached=0, stats={}, fns=[], notes=[],
                                error="not finished: " + ("total time limit" if el > total else "violations found before"), wall_s=0))
            break
        while todo and len(running) < jobs:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(c, cd, b, limit))
            p.start()
            b.close()
            running.append((c, p, a, time.time()))
        mp.connection.wait([r[2] for r in running] + [r[1].sentinel for r in running], timeout=1)
        keep = []
        for c, p, a, t in running:
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(case=c.name, cex=[], paths=0, infeasible=0, restarts=0, status="error", reached=0, stats={}, fns=[], notes=[],
                             error="worker died", wall_s=time.time() - t)
            elif not p.is_alive():
                r = dict(case=c.name, cex=[], paths=0, infeasible=0, restarts=0, status="error", reached=0, stats={}, fns=[], notes=[],
                         error="worker died", wall_s=time.time() - t)
            elif time.time() - t > limit * 1.15 + 20:
                p.kill()
                r = dict(case=c.name, cex=[], paths=0, infeasible=0, restarts=0, status="error", reached=0, stats={}, fns=[], notes=[],
                         error="time limit", wall_s=time.time() - t)
            if r is None:
                keep.append((c, p, a, t))
                continue
            p.join(5)
            a.close()
            out.append(r)
            if any(not any(k["case"] == c.name and k["label"] == x["label"] for k in kf) for x in r["cex"]):
                hits += 1
            if verbose:
                print("  %-60s %-6s paths=%d cex=%d asserts=%d queries=%d solver=%.1fs wall=%.1fs %s" % (
                    r["case"], r["status"], r["paths"], len(r["cex"]), r["stats"].get("asserts", 0), r["stats"].get("queries", 0),
                    r["stats"].get("solver_s", 0), r["wall_s"], r.get("error", "")), flush=True)
                for x in r["cex"]:
                    print("      cex %s: %s" % (x["label"], x["msg"]))
        running = keep
    return out


def known(pid):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-q", action="store_true")
    ap.add_argument("--limit", type=int)
    ap.add_argument("--no-replay", action="store_true")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="cddm_check_")
    code = 2
    try:
        from symex import loader, registry
        loader.env_setup(scratch)
        cwd = os.getcwd()
        os.chdir(scratch)
        cs = registry.cases(pid, tier)
        if a.case:
            cs = [c for c in cs if a.case in c.name]
        cd = loader.load_symbolic()
        cd.scratch = scratch
        res = run_cases(cs, cd, a.jobs, a.limit or LIMITS[tier], not a.q, TOTAL[tier], known(pid))
        redo = lambda names: run_cases([c for c in cs if c.name in names], cd, a.jobs, a.limit or LIMITS[tier], not a.q, 280 if tier == "quick" else 7200, known(pid))
        code = finish(pid, tier, res, scratch, t0, a, redo)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def finish(pid, tier, res, scratch, t0, a, again=None):
    from symex import registry, loader
    mod = registry.load(pid)
    cex = [(r["case"], x) for r in res for x in r["cex"]]
    errors = [(r["case"], r.get("error", "")) for r in res if r["status"] != "ok"]
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    viol, kn, spurious = [], [], []
    if cex and not a.no_replay:
        # one per case and label first, at most 12 in all
        pick, seen = [], set()
        for c, x in cex:
            if (c, x["label"]) not in seen:
                seen.add((c, x["label"]))
                pick.append((c, x))
        pick = spread(pick, 12)
        files = []
        for i, (c, x) in enumerate(pick):
            f = os.path.join(rdir, "%s_%d.json" % (pid, i))
            json.dump(dict(property=pid, case=c, label=x["label"], msg=x["msg"], values=x["values"], draws=x["draws"]), open(f, "w"), indent=1)
            files.append(f)
        out = os.path.join(scratch, "replay.json")
        env = dict(os.environ)
        env["CDDM_REPO"] = loader.REPO
        try:
            subprocess.run([sys.executable, os.path.join(VERIF, "symex", "replay.py"), "--out", out] + files, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE if a.q else None, timeout=400)
            rr = json.load(open(out))
        except Exception as e:
            rr = [dict(error="replay failed: %r" % e, fails=[]) for _ in pick]
        kf = known(pid)
        for (c, x), f, r in zip(pick, files, rr):
            fails = r.get("fails") or []
            if not fails:
                spurious.append((c, x["label"], x["msg"], r.get("error", "")))
                continue
            k = [q for q in kf if q["case"] == c and q["label"] == x["label"]]
            if k:
                kn.append(k[0])
            else:
                viol.append((f, c, x, fails))
    if again and not viol and (spurious or errors) and len(set(e[0] for e in spurious + errors)) <= 4 and time.time() - t0 < 330:
        # decided once more from scratch: no verdict may be due to an unlucky solver state or a lost worker
        redo = set(e[0] for e in spurious + errors)
        new = again(redo)
        keep = [r for r in res if r["case"] not in redo] + new
        print("decided again: %s" % ", ".join("%s (%s)" % (r["case"], r["status"] if not r["cex"] else "counterexample") for r in new))
        return finish(pid, tier, keep, scratch, t0, a)
    agg = {}
    for r in res:
        for k, v in r["stats"].items():
            agg[k] = agg.get(k, 0) + v
    fns = sorted(set(f for r in res for f in r["fns"]))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=getattr(mod, "LEVEL", "model_checking"),
              wall_s=round(time.time() - t0, 2),
              coverage=dict(
                  cases=len(res), paths=sum(r["paths"] for r in res), infeasible_paths=sum(r["infeasible"] for r in res),
                  queries=agg.get("queries", 0), assertion_queries=agg.get("asserts", 0), assertions_reached=sum(r["reached"] for r in res),
                  index_bound_obligations=agg.get("bounds_checks", 0), solver_s=round(agg.get("solver_s", 0), 2), retried_queries=agg.get("retries", 0),
                  functions_encoded=fns, bounds=getattr(mod, "BOUNDS", ""), outside=getattr(mod, "OUTSIDE", ""), stubs=getattr(mod, "STUBS", ""),
                  per_case=[dict(case=r["case"], status=r["status"], paths=r["paths"], queries=r["stats"].get("queries", 0),
                                 reached=r["reached"], solver_s=round(r["stats"].get("solver_s", 0), 2), wall_s=round(r["wall_s"], 2)) for r in res]),
              violations=[dict(case=c, label=x["label"], msg=x["msg"], replay=f, reproduced=[list(q) for q in fl]) for f, c, x, fl in viol],
              known_findings=[k["what"] for k in kn],
              inconclusive=[dict(case=c, why=str(e)[:400]) for c, e in errors] + [dict(case=s[0], why="counterexample did not reproduce: %s %s %s" % s[1:]) for s in spurious])
    if not a.case:
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    done = set()
    for k in kn:
        if k["what"] not in done:
            done.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for f, c, x, fl in viol:
        print("case %s, %s: %s" % (c, x["label"], x["msg"]))
        print("  on the real code: %s" % "; ".join("%s: %s" % tuple(q) for q in fl))
        print("VIOLATION property=%s replay=%s" % (pid, f))
    for c, e in errors:
        print("NO VERDICT %s: %s" % (c, e))
    if a.no_replay:
        for c, x in cex[:20]:
            print("COUNTEREXAMPLE %s, %s: %s" % (c, x["label"], x["msg"]))
    for s in spurious:
        print("NO VERDICT %s: counterexample does not reproduce on the real code: %s %s %s" % s)
    c = ev["coverage"]
    print("%s %s: %d cases, %d paths, %d queries (%d assertions, %d index bounds), solver %.1f s, wall %.1f s" % (
        pid, tier, c["cases"], c["paths"], c["queries"], c["assertion_queries"], c["index_bound_obligations"], c["solver_s"], ev["wall_s"]))
    if viol:
        return 1
    if errors or spurious or (cex and a.no_replay):
        return 2
    return 0


def spread(pick, n):
    if len(pick) <= n:
        return pick
    # prefer different cases
    by = {}
    for c, x in pick:
        by.setdefault(c, []).append((c, x))
    out = []
    while len(out) < n and by:
        for c in list(by):
            out.append(by[c].pop(0))
            if not by[c]:
                del by[c]
            if len(out) >= n:
                break
    return out


if __name__ == "__main__":
    import multiprocessing.connection
    sys.exit(main())
