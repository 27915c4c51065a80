"""check.py <property> [--tier quick|thorough]: decides one property for the current /repo tree.

Exit 0: no violation found; exit 1: VIOLATION line printed.  Evidence goes to /verif/evidence/<property>.json.
"""
import argparse, collections, json, os, re, shutil, sys, time, traceback
import multiprocessing as mp

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import absint, build, gen, batteries
from build import VERIF

RULES = batteries.RULES
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def known():
    """known findings: (property, key) pairs; `fixed:` lines suppress nothing"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def slug(s):
    return re.sub(r"[^A-Za-z0-9]+", "-", s).strip("-")[:120]


_ctx = None


def work(i):
    job = _ctx["jobs"][i]
    t0 = time.time()
    try:
        rs = batteries.run_job(_ctx, job)
    except Exception:
        rs = [dict(task=job.name, error=traceback.format_exc(limit=6), alarms=[], stats={}, fns=[])]
    return i, rs, time.time() - t0


def main():
    global _ctx
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None, help="substring of the job name (debugging)")
    ap.add_argument("--any", action="store_true", help="list alarms of every property, write no evidence (development)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    drv = build.driver()
    try:
        ext, dirs = build.deps()
    except build.BuildError as e:
        print("the repository does not build; nothing to analyse:\n%s" % e)
        return 2
    out = os.path.join(build.BUILD, "probes-%s%s" % (a.prop, build.TAG))
    os.makedirs(out, exist_ok=True)
    jobs = batteries.jobs_for(a.prop, tier)
    if a.only:
        jobs = [j for j in jobs if a.only in j.name]
    _ctx = dict(drv=drv, ext=ext, dirs=dirs, out=out, jobs=jobs, tier=tier, prop=a.prop,
                policy=os.path.join(VERIF, "engine", "policy.txt"),
                prelude=open(os.path.join(VERIF, "engine", "prelude.rs")).read())
    results = []
    # dearest first
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].cost)
    limit = 3000 if tier == "thorough" else 600
    kf = known()
    absint.Engine.TIME_LIMIT = 120 if tier == "thorough" else 40
    stopped = None
    left = set(order)
    with mp.get_context("fork").Pool(min(JOBS, max(1, len(jobs)))) as pool:
        it = pool.imap_unordered(work, order)
        while left:
            try:
                i, rs, dt = it.next(timeout=max(1, t0 + limit - time.time()))
            except mp.TimeoutError:
                stopped = "time limit of the check"
                break
            left.discard(i)
            for r in rs:
                r.setdefault("job", jobs[i].name)
                r["wall"] = dt
            results += rs
            if time.time() - t0 > 45 and any(a.prop in al["props"] and (a.prop, slug(r["job"] + " " + al["msg"])) not in kf
                                             for r in results for al in r["alarms"]):
                stopped = "a violation was found"
                break
        pool.terminate()
    for i in left:
        results.append(dict(task="all", job=jobs[i].name, wall=0, budget="not analysed: " + stopped, alarms=[], stats={}, fns=[]))
    shutil.rmtree(out, ignore_errors=True)      # a stopped compiler may leave a directory behind, or still be writing
    results.sort(key=lambda r: (r["job"], r["task"]))
    if a.any:
        seen = collections.OrderedDict()
        for r in results:
            for al in r["alarms"]:
                seen.setdefault((tuple(al["props"]), al["msg"]), []).append((r, al))
        for (ps, msg), hits in seen.items():
            print("alarm %s: %s [%s %s; %d]" % (",".join(ps), msg, hits[0][0]["job"], hits[0][0]["task"], len(hits)))
            if a.v:
                for l in hits[0][1].get("trace", []):
                    print("      " + l)
        for k in ("error", "budget", "nocompile"):
            bad = [r for r in results if r.get(k)]
            if bad:
                print("%s: %d, e.g. %s %s %s" % (k, len(bad), bad[0]["job"], bad[0]["task"], str(bad[0][k])[-700:]))
        unm = sorted({u for r in results for u in r.get("unmodelled", ())})
        print("unmodelled:", unm)
        print("%d alarms, %d obligations, %.0fs" % (len(seen), len(results), time.time() - t0))
        return 1 if seen else 0
    return report(a.prop, tier, results, time.time() - t0, a.v)


def report(prop, tier, results, wall, verbose):
    kf = known()
    mine, other = collections.OrderedDict(), 0
    for r in results:
        for al in r["alarms"]:
            if prop in al["props"]:
                mine.setdefault(al["msg"], []).append((r, al))
            else:
                other += 1
    viol, seen_known = [], collections.OrderedDict()
    for msg, hits in mine.items():
        rest = []
        for r, al in hits:
            k = slug(r["job"] + " " + msg)
            if (prop, k) in kf:
                seen_known[k] = kf[(prop, k)]
            else:
                rest.append((r, al))
        if rest:
            viol.append((msg, rest))
    errors = [r for r in results if r.get("error")]
    undecided = [r for r in results if r.get("budget")]
    nocompile = [r for r in results if r.get("nocompile")]
    for k, d in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    for n, (msg, hits) in enumerate(viol):
        path = os.path.join(rdir, "%s-%d.txt" % (prop, n))
        with open(path, "w") as f:
            f.write("property %s: %s\n" % (prop, msg))
            f.write("reported for %d of the analysed declarations; the first:\n" % len(hits))
            for r, al in hits[:3]:
                f.write("\n== declaration / root: %s\n   task: %s\n   in: %s\n" % (r["job"], r["task"], al.get("fn", "")))
                if r.get("source"):
                    f.write(r["source"] + "\n")
                f.write("   abstract path (reads, writes, branch facts):\n")
                for l in al.get("trace", []):
                    f.write("     %s\n" % l)
        if n >= 20:
            continue
        print("violation: %s  [%s; %d declaration(s)]" % (msg, hits[0][0]["job"], len(hits)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if len(viol) > 20:
        print("... and %d more" % (len(viol) - 20))
    tot = collections.Counter()
    fns = set()
    for r in results:
        for k, v in r["stats"].items():
            tot[k] += v
        fns |= set(r["fns"])
    unm = sorted({u for r in results for u in r.get("unmodelled", ())})
    obligations = len(results)
    cov = {
        "explanation": RULES[prop],
        "obligations": obligations,
        "discharged": obligations - len(errors) - len(undecided) - len(nocompile) - len({id(r) for _, h in viol for r, _ in h}),
        "declarations_analysed": len({r["job"] for r in results}),
        "functions_analysed": len(fns),
        "abstract_steps": tot.pop("steps", 0),
        "abstract_states": tot.pop("nodes", 0),
        "exits_checked": tot.pop("exits", 0),
        "undecided": [dict(job=r["job"], task=r["task"], why=r["budget"]) for r in undecided][:20],
        "not_compiling": [r["job"] for r in nocompile][:20],
        "analysis_errors": [dict(job=r["job"], task=r["task"], error=r["error"][-600:]) for r in errors][:10],
        "unmodelled_callees": unm,
        "alarms_of_other_properties": other,
        "detail": dict(tot),
        "functions": sorted(f for f in fns if "yaserde" in f or "Foo" in f)[:60],
        "samples": sorted({r["job"] for r in results})[:: max(1, len(results) // 8)][:8],
    }
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other", coverage=cov, wall_s=round(wall, 2),
              violations=len(viol), assumptions=batteries.ASSUMPTIONS)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, sort_keys=True)
    print("%s: %d obligations over %d declarations, %d undecided, %d errors, %d functions, %.1fs" % (
        prop, obligations, cov["declarations_analysed"], len(undecided), len(errors), len(fns), wall))
    if verbose:
        for r in undecided:
            print("  undecided:", r["job"], r["task"], r["budget"])
        for r in errors:
            print("  error:", r["job"], r["task"], r["error"])
        for r in nocompile:
            print("  does not compile:", r["job"], r["nocompile"][:400])
        if unm:
            print("  unmodelled:", unm)
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
