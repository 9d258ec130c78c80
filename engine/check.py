"""Runs the static check of one property: python3 engine/check.py <ID> [quick|thorough]"""
import json, multiprocessing, os, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "engine"))
sys.dont_write_bytecode = True
import build

T0 = time.time()


def load_known():
    try:
        return json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
    except (OSError, ValueError, KeyError):
        return []


def kept():
    """What a job that was cut short has found so far."""
    import spec
    r = spec.Result()
    for x in spec.LIVE[:-1]:
        r.merge(x)
    return r


def run_job(i):
    name, fn, args = JOBS[i]
    import spec
    t = time.time()
    del spec.LIVE[:]
    try:
        r = fn(D, *args)
    except spec.Missing as e:
        r = kept()
        r.count("anchor", 2)
        r.open.append({"rule": "anchor", "entry": name, "why": "not found in the code: %s" % e})
    except Exception as e:
        r = kept()
        r.count("analysis", 2)
        r.open.append({"rule": "analysis", "entry": name, "why": "%s: %s | %s" % (type(e).__name__, e, traceback.format_exc()[-500:])})
    return i, r, time.time() - t


def phase(P, dump, pid, tier, end, res, times, names):
    """Runs the jobs of the check on one dump; returns the time at which to stop."""
    global D, JOBS
    import spec
    from dump import Dump
    spec.DEADLINE = end
    D = Dump(dump)
    JOBS = P.jobs(D, tier)
    if os.environ.get("VERIF_ONLY"):
        JOBS = [j for j in JOBS if os.environ["VERIF_ONLY"] in j[0]]
    n = int(os.environ.get("VERIF_JOBS", "0")) or min(len(JOBS), os.cpu_count() or 1)

    def merge(r):
        for f, c in r.fns.items():
            if f in D.F:
                k = D.F[f].name
                names[k] = (D.F[f].local, (names[k][1] if k in names else 0) + c)
        res.merge(r)
    if n <= 1:
        for i, r, t in map(run_job, range(len(JOBS))):
            merge(r)
            times.append((t, JOBS[i][0]))
        return end
    with multiprocessing.get_context("fork").Pool(n, maxtasksperchild=None) as pool:
        it = pool.imap_unordered(run_job, range(len(JOBS)), 1)
        left = set(range(len(JOBS)))
        while left:
            try:
                i, r, t = it.next(max(1, end + 30 - time.time()))
            except multiprocessing.TimeoutError:
                for i in left:
                    res.count("analysis", 2)
                    res.open.append({"rule": "analysis", "entry": JOBS[i][0], "why": "not finished in time"})
                pool.terminate()
                break
            left.discard(i)
            merge(r)
            if any((v["rule"], v["function"]) not in spec.KNOWN for v in r.viol):
                end = min(end, time.time() + (30 if tier == "quick" else 600))
            times.append((t, JOBS[i][0]))
    return end


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = 600 if tier == "quick" else 6 * 3600
    build.fast()
    try:
        dumps = build.dumps()
    except build.BuildError as e:
        print("cannot analyse: /repo does not build:", str(e)[-2000:])
        return 2
    import spec
    import props
    end = T0 + budget
    known = [k for k in load_known() if k.get("property") == pid and k.get("status", "open") == "open"]
    spec.KNOWN |= {(k["rule"], k["function"]) for k in known}
    P = props.get(pid)
    res = spec.Result()
    times = []
    names = {}
    for dump in dumps:
        end = phase(P, dump, pid, tier, end, res, times, names)
    viol, seen, hit = [], set(), {}
    for v in res.viol:
        k = (v["rule"], v["function"], v["entry"])
        kf = next((x for x in known if x["rule"] == v["rule"] and x["function"] == v["function"]), None)
        if kf:
            hit.setdefault(kf["id"], kf)
            continue
        if k in seen:
            continue
        seen.add(k)
        viol.append(v)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    prov, refu, opn = res.totals()
    unknown = sum(1 for o in res.open)
    cov = {"obligations": prov + refu + opn, "discharged": prov, "refuted": refu, "left_open": opn,
           "checker_cmd": "python3 engine/check.py %s %s" % (pid, tier),
           "trusted_base": P.trusted,
           "rule": P.rule, "explanation": P.rule,
           "jobs": len(times), "abstract_paths": res.paths,
           "builds": ["debug assertions on", "debug assertions off"][:len(dumps)],
           "functions_analysed": len(names),
           "functions": sorted(((n, c) for n, (l, c) in names.items() if l), key=lambda x: -x[1])[:60],
           "by_rule": {k: {"proved": v[0], "refuted": v[1], "open": v[2]} for k, v in sorted(res.obl.items())},
           "open_obligations": dedup(res.open)[:25], "notes": sorted(set(res.notes))[:30],
           "samples": res.samples[:6],
           "slowest_jobs": [[round(t, 1), n] for t, n in sorted(times, reverse=True)[:5]]}
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": P.level, "coverage": cov,
          "assumptions": P.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if os.environ.get("VERIF_TIMES"):
        for t, nm in sorted(times, reverse=True)[:int(os.environ["VERIF_TIMES"])]:
            print("  %6.1f s  %s" % (t, nm))
        print("  cpu %.1f s" % sum(t for t, _ in times))
    print("%s %s: %d obligations, %d proved, %d refuted, %d open; %d abstract paths; %.1f s"
          % (pid, tier, prov + refu + opn, prov, refu, opn, res.paths, time.time() - T0))
    for o in dedup(res.open)[:int(os.environ.get("VERIF_SHOW", "5"))]:
        print("  open: %s / %s: %s (x%d)" % (o["rule"], o["entry"], o["why"], o["times"]))
    if viol:
        rp = os.path.join(ROOT, "evidence", pid + ".violation.json")
        with open(rp, "w") as f:
            json.dump(viol[:20], f, indent=1)
        for v in viol[:5]:
            print("  %s (%s) reached from %s: %s" % (v["function"], v["file"], v["entry"], v["message"]))
            print("    for %s" % json.dumps(v["abstract_state"]))
            print("    via %s" % " > ".join(v["call_chain"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def dedup(os_):
    d = {}
    for o in os_:
        k = (o["rule"], o["entry"], o["why"])
        if k in d:
            d[k]["times"] += 1
        else:
            d[k] = dict(o, times=1)
    return sorted(d.values(), key=lambda x: -x["times"])


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
