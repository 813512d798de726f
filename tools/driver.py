"""Runs the check of one property: symbolic-execution jobs, native replay of counterexamples and witnesses, evidence."""
import json, os, re, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import vlib, registry

KNOWN = os.path.join(vlib.VERIF, "KNOWN_FINDINGS.json")
REPLAYS = os.path.join(vlib.BUILD, "replays")

def known_findings(prop):
    try: d = json.load(open(KNOWN))
    except FileNotFoundError: return []
    return [f for f in d.get("known", []) if f["property"] == prop]

def match_known(fs, job, v):
    for f in fs:
        if re.fullmatch(f["entry"], job.entry) and re.fullmatch(f["label"], v["label"]) and all(job.cfg.get(k) == x for k, x in f.get("cfg", {}).items()):
            # the failing history itself, by the values of its choices
            ok = True
            for name, want in f.get("where", {}).items():
                got = [h for n, h in v["syms"] if n.split(":", 1)[-1] == name]
                if want not in got: ok = False
            if ok: return f
    return None

def value(h):
    return int.from_bytes(bytes.fromhex(h), "little") if h and len(h) <= 16 else "0x" + h[:48] + ("..." if len(h) > 48 else "")

def sample(job, w):
    return {"entry": job.name, "label": w["label"], "inputs": {n: value(h) for n, h in w["syms"] if not n.endswith("storage")}, "schedule": w["sched"][:200]}

def ops_text(v):
    return ", ".join("%s=%s" % (n, value(h)) for n, h in v["syms"] if not n.endswith("storage"))[:400]

def process(job, prop, seed, workdir, nreplay):
    """one job: engine run, replay of its counterexamples and some of its witnesses"""
    t0 = time.time(); r = {"job": job, "viol": [], "known": [], "unconfirmed": [], "validated": 0, "val_bad": [], "error": None, "engine": None}
    try:
        fs = known_findings(prop)
        d = vlib.run_job(job, workdir, None if any(re.fullmatch(f["entry"], job.entry) for f in fs) else 20)
    except vlib.BuildError as e:
        r["error"] = "build: " + str(e); return r
    if d.get("stopped"): r["stopped"] = True; return r
    r["engine"] = d
    for v in d["violations"]:
        f = match_known(fs, job, v)
        os.makedirs(REPLAYS, exist_ok=True)
        name = "%s_%s_%s.txt" % (prop, re.sub(r"[^A-Za-z0-9]+", "_", job.name)[:60], re.sub(r"[^A-Za-z0-9]+", "_", v["label"])[:60])
        path = os.path.join(REPLAYS, name); vlib.write_replay(path, v, job.cfg, job.crashes, job.entry)
        n = None
        try: exe = vlib.build_native(job.nat, job.entry); n = vlib.run_native(exe, path)
        except vlib.BuildError as e: r["error"] = "native build: " + str(e); continue
        with open(path, "a") as o: o.write("# harness %s; replayed against the real code: %s; run: %s %s\n" % (job.harness, n["fails"] or "no failure", exe, path))
        if f: r["known"].append((f, v, path)); continue
        if vlib.reproduced(v, n):
            r["viol"].append((v, path, n))
            if vlib.stop_at is None: vlib.stop_at = time.time() + 20
        else: r["unconfirmed"].append((v, path, n))
    if d.get("error") and not r["viol"]: r["error"] = d["error"]
    missing = [l for l in job.need if l not in (d.get("reached") or {})]
    if missing and not r["viol"] and not r["known"] and not d.get("error"): r["error"] = "vacuous: not reached: " + ", ".join(missing)
    # witnesses: paths the engine says are possible must happen in the machine-code build as well
    if not d["violations"] and not d.get("error") and d["witnesses"] and nreplay:
        try:
            exe = vlib.build_native(job.nat, job.entry); ws = d["witnesses"]; k = seed % len(ws); ws = ws[k:] + ws[:k]
            for i, w in enumerate(ws[:nreplay]):
                p = os.path.join(workdir, "w_%s_%d.txt" % (re.sub(r"[^A-Za-z0-9]+", "_", job.name)[:80], i)); vlib.write_replay(p, w, job.cfg, job.crashes, job.entry); n = vlib.run_native(exe, p)
                if w["label"] in n["reach"] and not n["diverged"] and not n["fails"]: r["validated"] += 1
                else: r["val_bad"].append((w, n))
        except vlib.BuildError as e: r["error"] = "native build: " + str(e)
    r["wall"] = time.time() - t0
    return r

def run_check(prop, tier, seed):
    t0 = time.time(); spec = registry.PROPS[prop]
    print("property %s (%s): %s" % (prop, tier, spec["title"])); sys.stdout.flush()
    if "python" in spec: return spec["python"](prop, tier, seed)
    vlib.ensure_engine()
    if tier == "quick": vlib.deadline = t0 + 780
    jobs = spec["jobs"](tier)
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        try: # build each harness once before the jobs fan out
            seen = {}
            for j in jobs: seen.setdefault((j.harness, tuple(j.tus), tuple(j.flags)), j)
            for j in seen.values(): vlib.link_of(j)
        except vlib.BuildError as e:
            print("ERROR: " + str(e)); return 2
        nrep = 2 if tier == "quick" else 6
        order = sorted(jobs, key=lambda j: -j.weight)
        with ThreadPoolExecutor(vlib.JOBS) as ex: res = list(ex.map(lambda j: process(j, prop, seed, work, nrep), order))
    finally: shutil.rmtree(work, ignore_errors=True)
    return finish(prop, tier, seed, spec, res, t0)

def finish(prop, tier, seed, spec, res, t0):
    viol = [(r["job"], v, p, n) for r in res for v, p, n in r["viol"]]; unc = [(r["job"], v, p, n) for r in res for v, p, n in r["unconfirmed"]]
    errs = [(r["job"], r["error"]) for r in res if r["error"]]; kn = [(r["job"], f, v, p) for r in res for f, v, p in r["known"]]
    g = lambda k: sum((r["engine"] or {}).get(k) or 0 for r in res); gs = lambda k: sum(((r["engine"] or {}).get("solver") or {}).get(k) or 0 for r in res)
    funcs = sorted({f for r in res for f in (r["engine"] or {}).get("functions", [])})
    samples = [sample(r["job"], w) for r in res for w in (r["engine"] or {}).get("witnesses", [])[:2]][:12] or [{"entry": r["job"].name} for r in res][:5]
    labels = {}
    for r in res:
        for k, x in ((r["engine"] or {}).get("asserts") or {}).items(): labels[k] = labels.get(k, 0) + x
    cov = {"states": g("paths") + g("redundant"), "transitions": g("forks") + g("visible_ops"), "traces_validated_against_impl": sum(r["validated"] for r in res), "samples": samples,
           "complete_paths": g("paths"), "paths_cut_as_equivalent_interleavings": g("redundant"), "infeasible_or_assumed_away": g("infeasible"), "symbolic_forks": g("forks"), "interleaving_points": g("visible_ops"), "instructions": g("insts"),
           "assertion_checks": g("obligations"), "assertion_checks_constant_on_path": g("oblig_folded"), "assertion_checks_sent_to_solver": g("oblig_solver"),
           "solver_queries": gs("queries"), "solver_unsat": gs("unsat"), "solver_sat": gs("sat"), "solver_unknown": gs("unknown"), "solver_cache_hits": gs("cache_hits"), "solver_seconds": round(gs("seconds"), 3),
           "uninitialised_reads_made_symbolic": g("uninit_reads"), "assertions": labels, "functions_encoded": funcs,
           "jobs_not_finished_because_of_a_violation": sum(1 for r in res if r.get("stopped")),
           "jobs": [{"entry": r["job"].name, "bounds": r["job"].bounds, "preemption_bound": r["job"].preempt, "crashes": r["job"].crashes, "complete": bool(r["engine"]) and not (r["engine"] or {}).get("error"), "paths": (r["engine"] or {}).get("paths"), "reached": (r["engine"] or {}).get("reached"), "wall_s": round(r.get("wall", 0), 2)} for r in res],
           "bounds": spec["bounds"], "not_covered": spec.get("outside", "")}
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"), "coverage": cov, "assumptions": spec.get("assumptions", []) + registry.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("jobs %d, paths %d, assertion checks %d (%d by the solver, %d queries, %.1fs), functions %d, witnesses replayed on the real build %d, %.1fs" % (len(res), cov["complete_paths"], cov["assertion_checks"], cov["assertion_checks_sent_to_solver"], cov["solver_queries"], cov["solver_seconds"], len(funcs), cov["traces_validated_against_impl"], ev["wall_s"]))
    seen = set()
    for j, f, v, p in kn:
        if f["id"] not in seen: seen.add(f["id"]); print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for j, v, p, n in viol[:20]:
        print("  violated: %s [%s] in %s: %s" % (v["label"], v["kind"], j.name, v["detail"][:200]))
        print("    inputs: %s" % ops_text(v)); 
        for l in v["stack"][:6]: print("    at " + l)
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if viol: return 1
    for j, v, p, n in unc: print("ERROR: counterexample not reproduced on the real build: %s in %s (%s); native: %s" % (v["label"], j.name, p, n["fails"] or n.get("div") or n["rc"]))
    for j, e in errs: print("ERROR: %s: %s" % (j.name, e))
    for r in res:
        for w, n in r["val_bad"]: print("ERROR: witness '%s' of %s does not happen on the real build: %s %s %s" % (w["label"], r["job"].name, n["fails"], n.get("div"), n["notes"]))
    if unc or errs or any(r["val_bad"] for r in res): return 2
    print("held on everything explored"); return 0
