#!/opt/venv/bin/python
"""run.py <property id> [--job NAME] [-v]: decide one property from the sources in /repo."""
import sys, os, json, time, importlib, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "sa"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import chk

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--job"); ap.add_argument("-v", action="store_true"); ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("c" + a.prop[1:])
    jobs = mod.jobs(tier)
    if a.replay:
        a.job = json.load(open(a.replay))["job"]
    if a.job: jobs = [j for j in jobs if a.job in j[0]]
    if a.list:
        for j in jobs: print(j[0])
        return 0
    budget = 840 if tier == "quick" else 6 * 3600
    res = chk.run_jobs(jobs, nproc=int(os.environ.get("VERIF_JOBS", "8")), timeout=budget if tier != "quick" else 500, deadline=t0 + budget)
    known = [l for l in open(os.path.join(HERE, "KNOWN_FINDINGS.md")).read().splitlines() if l.startswith("finding: property=%s " % a.prop)] if os.path.exists(os.path.join(HERE, "KNOWN_FINDINGS.md")) else []
    viol = []; und = []; missing = []; rules = {}
    for r in res:
        viol += r["viol"]; und += r["und"]; missing += r["missing"]
        for k, v in r["rules"].items(): rules[k] = rules.get(k, 0) + v
    seen = set(); new = []; kf = []
    for v in viol:
        k = (v["rule"], v["what"], v["loc"])
        if k in seen: continue
        seen.add(k)
        hit = [l for l in known if l.split(" key=", 1)[-1].strip() == "%s|%s" % (v["rule"], v["what"])]
        (kf if hit else new).append(v)
    if a.v:
        for r in res: print("%-60s ok=%d viol=%d und=%d %.1fs%s" % (r["job"], r["ok"], len(r["viol"]), len(r["und"]), r.get("wall", 0), " loss=%s" % r["loss"][:3] if r["loss"] else ""))
    for v in kf: print("KNOWN-FINDING: property=%s %s: %s at %s" % (a.prop, v["rule"], v["what"], v["loc"]))
    rep = os.path.join(HERE, "evidence", "replay"); os.makedirs(rep, exist_ok=True)
    for n, v in enumerate(new[:20]):
        p = os.path.join(rep, "%s-%d.json" % (a.prop, n))
        json.dump(dict(property=a.prop, **v), open(p, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (a.prop, p))
        print("  rule: %s\n  obligation: %s\n  construct: %s" % (v["rule"], v["what"], v["loc"]))
        if v.get("detail"): print("  detail: %s" % (json.dumps(v["detail"], default=str)[:1500]))
    for u in und[:40 if a.v else 8]: print("UNDECIDED %s: %s: %s" % (u["rule"], u["what"], u["why"]))
    nobl = sum(r["ok"] + len(r["viol"]) + len(r["und"]) for r in res)
    fns = set(tuple(f) for r in res for f in r["functions"])
    ev = dict(property=a.prop, tier=tier, seed=chk.SEED, level="other",
        coverage=dict(explanation=mod.EXPLANATION, obligations=nobl, discharged=sum(r["ok"] for r in res), undecided=len(und),
            by_normal_form=sum(r["nf"] for r in res), by_random_interpretation=sum(r["ri"] for r in res), rules=rules,
            configurations=len(jobs), call_sites_analysed=sum(r["callsites"] for r in res), statements_interpreted=sum(r["stmts"] for r in res),
            functions_analysed=sorted("%s:%s" % (os.path.relpath(f, chk.REPO) if f.startswith("/") else f, n) for f, n in fns),
            undecided_list=[("%s: %s: %s" % (u["rule"], u["what"], u["why"]))[:300] for u in und[:30]],
            precision_losses=sorted(set(l for r in res for l in r["loss"]))[:20],
            samples=[s for r in res[:6] for s in r["samples"]][:8]),
        assumptions=mod.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(new))
    if not a.job: json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%d known), %d functions, %.1f s" % (
        a.prop, nobl, ev["coverage"]["discharged"], len(und), len(new), len(kf), len(fns), time.time() - t0))
    if new: return 1
    if missing:
        print("ANALYSIS BROKEN: public anchors missing: %s" % ", ".join(sorted(set(missing)))); return 2
    return 0
if __name__ == "__main__":
    rc = main()
    sys.stdout.flush(); os._exit(rc)
