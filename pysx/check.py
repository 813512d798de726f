#!/usr/bin/env python3-vt
"""check.py PROP TIER SEED       decide C23/C24/C25 by symbolic execution of the repository's Python files
   check.py --replay FILE        run one counterexample concretely (real numpy) against the current source
   check.py --one FN CFGJSON     one job, verbose"""
import sys, os, json, re, time, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE); REPO = os.environ.get("VERIF_REPO", "/repo"); BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
import core, world, scen
from pysx_info import INFO

def jobs(prop, tier):
    q = tier == "quick"; J = lambda fn, need=("done",), **c: (fn, c, list(need)); out = []
    if prop == "C23":
        A, B, Cc = ["write", "write_retry", "read", "read_retry"], ["write_block", "write_block_retry", "read_block", "read_block_retry"], ["synch", "synch_retry", "synch_all", "to_zero"]
        G = ["from_gpu", "to_gpu", "to_zero", "synch_all", "read"]
        shapes = [("Float", "server", 2, 2), ("Float", "client", 2, 3), ("Double", "client", 3, 1), ("Int", "server", 1, 3), ("Bool", "client", 2, 2)] if q else [(d, s, r, c) for d in ("Float", "Double", "Int", "Bool") for s in ("server", "client") for r, c in ((2, 2), (1, 3), (3, 2), (1, 1))]
        for d, s, r, c in shapes:
            for ops in (A, B, Cc): out.append(J("c23", ("done", "refused", "busy") if ops is not Cc else ("done", "refused"), dt=d, side=s, R=r, C=c, ops=ops, locks=2 if q else 3, torch=1))
        for d, s in (("Float", "server"), ("Int", "client")): out.append(J("c23", dt=d, side=s, R=2, C=1, ops=G, torch=1, gpu=1, locks=1))
        for d, s in (("Float", "client"), ("Double", "server"), ("Int", "server"), ("Bool", "client")): out.append(J("c23", dt=d, side=s, R=2, C=1, ops=["read", "synch_all"], fill=1, locks=1))
        for d in ("Float", "Double", "Int"): out.append(J("c23", ("done", "refused"), dt=d, side="client", R=1, C=2, ops=["write_block", "read_block"], mixed=1, locks=0))
        for d, s, ops in (("Float", "server", ["write", "read", "synch_all"]), ("Int", "client", ["write", "synch"]), ("Double", "client", ["write_block", "read_block"])): out.append(J("c23", dt=d, side=s, R=1, C=2, steps=2, locks=0, ops=ops))
        for d in ("Float", "Int") if q else ("Float", "Double", "Int", "Bool"): out.append(J("c23_open", ("taken over", "kept"), dt=d, R=1, C=2))
        if not q:
            for d, s in (("Float", "server"), ("Int", "client"), ("Double", "client"), ("Bool", "server")): out.append(J("c23", dt=d, side=s, R=2, C=2, steps=2, locks=1, ops=["write", "read", "synch", "synch_all", "write_block", "read_block", "to_zero"], torch=1))
    elif prop == "C24":
        need = ("written", "read", "closed", "refused")
        out += [J("c24", need, K=2, maxdim=2, N=1), J("c24", need, K=2, maxdim=2, N=2, bad=1, locks=0), J("c24", need, K=1, maxdim=3, N=2, bad=1), J("c24", need, K=2, maxdim=2, N=1, writes=2, locks=0), J("c24", need, K=3, maxdim=2, N=1, locks=0)]
        out.append(J("c24_restart", ("kept", "taken over"), N=2))
        if not q: out += [J("c24", need, K=3, maxdim=3, N=2, bad=1, locks=1), J("c24", need, K=2, maxdim=2, N=2, writes=2, bad=1), J("c24", need, K=2, maxdim=2, N=1, writes=3, locks=0), J("c24", need, K=2, maxdim=3, N=3, locks=2)]
    elif prop == "C25":
        need = ("restored", "closed")
        for i, d in enumerate(("Float", "Double", "Int", "Bool")):
            for ros in (1, 2):
                sh = [((2, 2), (1, 3), (3, 1), (2, 3))[(i + ros) % 4]] if q else [(2, 2), (1, 3), (3, 1), (2, 3), (1, 1)]
                for r, c in sh: out.append(J("c25", need, dt=d, R=r, C=c, ros=ros, locks=4 if (d, ros) in (("Float", 1), ("Int", 2)) else 1 if q else 2, rounds=2 if q else 3))
        for ros in (1, 2): out.append(J("c25", need, strings=1, R=0, C=2, ros=ros)); out.append(J("c25", (), dt="Double", col=1, R=2, C=2, ros=ros))
        for i, d in enumerate(("Float", "Double", "Int", "Bool")):
            for ros in (1 + i % 2,) if q else (1, 2): out.append(J("c25_meta", ("late", "repeated", "contradicted"), dt=d, R=2, C=3, ros=ros))
        out += [J("c25_topics", ("compared",)), J("c25_strings", ("decoded",), n=3, len=2 if q else 3)]
    return out
ASSUME = ["the repository's Python files are executed by CPython 3.12 itself, on symbolic inputs; array structure (views, strides, broadcasting) is real numpy over object arrays, element values are z3 bit-vectors",
  "numpy's element conversions are exact for identity, bool<->int, int32->int64 and uninterpreted functions otherwise (widening followed by the inverse narrowing is the identity); a model is accepted only if it agrees with numpy's real conversions",
  "the compiled module behaves as properties C01, C02, C04, C14, C21, C28 state (pysx/world.py); torch, rospy, rclpy, std_msgs, perf_sleep are models",
  "z3 is trusted for unsat answers; every counterexample is re-run concretely with real numpy element types before it is reported"]

def run_one(a):
    fn, cfg, need, tlimit, seed, nwit, end = a; t0 = time.time(); tlimit = max(10, min(tlimit, end - t0)); r = dict(fn=fn, cfg=cfg, need=need, viol=[], unconf=[], wits=[], bad=[], error=None)
    try:
        sm = world.load(REPO, True); e = core.Engine(time_limit=tlimit); f = getattr(scen, fn); e.explore(lambda en: f(en, cfg, sm))
        r.update(stat=e.stat, labels=e.labels, reached=e.reached, functions=sorted(e.functions), error=e.error)
        cm = world.load(REPO, False)
        for v in e.viol:
            c = core.Engine(values=v["values"], step_limit=e.step_limit).replay(lambda en: f(en, cfg, cm)); (r["viol"] if v["label"] in c.fails else r["unconf"]).append(dict(v, concrete=c.fails, cnotes=c.notes))
        if not e.viol:
            for w in e.witness[:nwit]:
                c = core.Engine(values=w["values"], step_limit=e.step_limit).replay(lambda en: f(en, cfg, cm)); (r["wits"] if w["label"] in c.reached and not c.fails else r["bad"]).append(dict(w, concrete=c.fails))
    except BaseException as x:
        import traceback; r["error"] = "%s: %s" % (type(x).__name__, x) + " | " + " < ".join(traceback.format_exc().strip().splitlines()[-5:-1]).strip()
    r["wall"] = time.time() - t0; return r
def name(r): return r["fn"] + "".join(" %s=%s" % (k, "+".join(v) if isinstance(v, list) else v) for k, v in r["cfg"].items())
def match_known(fs, r, v):
    for f in fs:
        if re.fullmatch(f["entry"], r["fn"]) and re.fullmatch(f["label"], v["label"]) and all(r["cfg"].get(k) == x for k, x in f.get("cfg", {}).items()): return f

def main(prop, tier, seed):
    t0 = time.time(); js = jobs(prop, tier); tl = 500 if tier == "quick" else 5000
    try: known = [f for f in json.load(open(os.path.join(VERIF, "KNOWN_FINDINGS.json"))).get("known", []) if f["property"] == prop]
    except FileNotFoundError: known = []
    end = t0 + (720 if tier == "quick" else 36000); res, left, stop = [], 0, None
    with mp.get_context("fork").Pool(min(8, len(js)), maxtasksperchild=1) as p:
        it = p.imap_unordered(run_one, [(f, c, n, tl, seed, 2 if tier == "quick" else 6, end) for f, c, n in js], chunksize=1)
        while len(res) < len(js): # once a violation is confirmed the other jobs get 20 s more
            try: res.append(it.next(1 if stop is None or time.time() < stop else 0))
            except mp.TimeoutError:
                if stop is not None and time.time() > stop: break
                continue
            if stop is None and any(not match_known(known, res[-1], v) for v in res[-1]["viol"]): stop = time.time() + 20
        left = len(js) - len(res)
    res.sort(key=name)
    viol, kn, unc, errs, bad = [], [], [], [], []
    for r in res:
        for v in r["viol"]:
            f = match_known(known, r, v)
            os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
            path = os.path.join(BUILD, "replays", "%s_%s_%s.json" % (prop, re.sub(r"[^A-Za-z0-9]+", "_", name(r))[:70], re.sub(r"[^A-Za-z0-9]+", "_", v["label"])[:60]))
            json.dump(dict(fn=r["fn"], cfg=r["cfg"], label=v["label"], values=v["values"], notes=v["notes"], run="python3-vt %s --replay %s" % (os.path.join(HERE, "check.py"), path)), open(path, "w"), indent=1)
            (kn if f else viol).append((r, f, v, path))
        unc += [(r, v) for v in r["unconf"]]; bad += [(r, w) for w in r["bad"]]
        if r["error"]: errs.append((r, r["error"]))
        elif not r["viol"]:
            miss = [l for l in r["need"] if l not in r["reached"]]
            if miss: errs.append((r, "vacuous: not reached: " + ", ".join(miss)))
    g = lambda k: sum(r.get("stat", {}).get(k, 0) for r in res); labels = {}
    for r in res:
        for k, x in r.get("labels", {}).items(): labels[k] = labels.get(k, 0) + x
    funcs = sorted({f for r in res for f in r.get("functions", [])}); small = lambda d: {k: d[k] for k in list(d)[:40]}
    cov = {"states": g("paths"), "transitions": g("forks"), "traces_validated_against_impl": sum(len(r["wits"]) for r in res), "samples": [{"entry": name(r), "label": w["label"], "inputs": small(w["values"])} for r in res for w in r["wits"][:1]][:12] or [{"entry": name(r)} for r in res][:5],
      "complete_paths": g("paths"), "infeasible_or_assumed_away": g("infeasible") + g("cut"), "symbolic_forks": g("forks"), "assertion_checks": g("obligations"), "assertion_checks_constant_on_path": g("folded"), "assertion_checks_sent_to_solver": g("obligations") - g("folded"),
      "solver_queries": g("queries"), "solver_unsat": g("unsat"), "solver_sat": g("sat"), "solver_unknown": g("unknown"), "solver_seconds": round(g("seconds"), 3), "paths_cut_at_index_window": g("outside_window"), "counterexample_candidates_refuted_by_numpy_conversions": g("spurious_casts"), "assertions": labels, "functions_encoded": funcs,
      "jobs": [{"entry": name(r), "complete": not r["error"], "paths": r.get("stat", {}).get("paths"), "reached": r.get("reached"), "wall_s": round(r["wall"], 2)} for r in res], "jobs_not_finished_because_of_a_violation": left, "bounds": INFO[prop][0], "not_covered": INFO[prop][1]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("jobs %d, paths %d, assertion checks %d (%d by the solver, %d queries, %.1fs), functions %d, witnesses replayed concretely %d, %.1fs" % (len(res), cov["complete_paths"], cov["assertion_checks"], cov["assertion_checks_sent_to_solver"], cov["solver_queries"], cov["solver_seconds"], len(funcs), cov["traces_validated_against_impl"], time.time() - t0))
    seen = set()
    for r, f, v, p in kn:
        if f["id"] not in seen: seen.add(f["id"]); print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for r, f, v, p in viol[:20]:
        print("  violated: %s in %s %s" % (v["label"], name(r), "; ".join(v["notes"] + v.get("cnotes", []))[:300])); print("    inputs: " + ", ".join("%s=%s" % kv for kv in v["values"].items())[:600]); print("VIOLATION property=%s replay=%s" % (prop, p))
    if viol: return 1
    for r, v in unc: print("ERROR: counterexample not reproduced concretely: %s in %s: %s" % (v["label"], name(r), v["concrete"]))
    for r, e in errs: print("ERROR: %s: %s" % (name(r), e))
    for r, w in bad: print("ERROR: witness '%s' of %s does not happen concretely: %s" % (w["label"], name(r), w["concrete"]))
    if unc or errs or bad: return 2
    print("held on everything explored"); return 0

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--replay":
        d = json.load(open(a[1])); cm = world.load(REPO, False); c = core.Engine(values=d["values"]).replay(lambda en: getattr(scen, d["fn"])(en, d["cfg"], cm))
        print("notes:", c.notes); print("FAILS: " + "; ".join(c.fails) if c.fails else "no failure"); sys.exit(1 if c.fails else 0)
    if a[0] == "--one":
        r = run_one((a[1], json.loads(a[2]), [], 600, 1, 4, time.time() + 600)); [print(k, ":", x) for k, x in r.items()]; sys.exit(0)
    sys.exit(main(a[0], a[1], int(a[2])))
