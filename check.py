#!/usr/bin/env python3
"""check.py <property id> : decides one property against /repo's working tree (see DESIGN.md).

exit 0  every obligation that could be decided holds (and the bounded stand-ins found nothing)
exit 1  VIOLATION line printed
exit 2  the machinery itself failed (e.g. /repo does not compile)"""
import sys, os, json, time, re, shutil, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
import vfe
from concurrent.futures import ThreadPoolExecutor, as_completed


def log(*a):
    print(*a, flush=True)


def known_findings(pid):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3).strip()))
    return res


def main():
    pid = sys.argv[1]
    tier = vfe.TIER if vfe.TIER in ("quick", "thorough") else "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    spec = importlib.import_module("specs." + pid)
    obs = [o for o in spec.OBS if tier == "thorough" or o.tier == "quick"]
    apis = [a for a in getattr(spec, "API", []) if tier == "thorough" or a.tier == "quick"]
    only = os.environ.get("VF_ONLY")
    if only:
        obs = [o for o in obs if re.search(only, o.name)]
        apis = [a for a in apis if re.search(only, a.name)]
    if tier == "thorough":
        for o in obs:
            o.timeout *= 6
        for a in apis:
            a.runs *= 20
            a.secs *= 20
    rdir = os.path.join(HERE, "evidence", "replay-" + pid)
    shutil.rmtree(rdir, ignore_errors=True)
    w = vfe.Work(pid)
    viol = []
    try:
        rc = decide(pid, tier, spec, obs, apis, w, rdir, viol, t0)
    finally:
        w.close()
    sys.stdout.flush()
    os._exit(rc)


def decide(pid, tier, spec, obs, apis, w, rdir, viol, t0):
    harn = {}
    for o in list(obs) + list(apis):
        harn.setdefault(o.file, vfe.Harness(w, o.file))
    results, api_results = [], []
    ir_err = None
    napi = ThreadPoolExecutor(3)
    natfuts = []
    # native build of the real code runs beside the translation
    def nat(san):
        try:
            return w.build_native(san)
        except vfe.EngineError as e:
            return str(e)
    sans = sorted({a.san for a in apis})
    natb = {s: napi.submit(nat, s) for s in sans}
    try:
        if obs:
            w.build_ir()
    except vfe.EngineError as e:
        ir_err = str(e)
    for s, f in natb.items():
        r = f.result()
        if isinstance(r, str):
            log("ERROR: the current tree does not build:", r[-600:])
            return 2
    if ir_err:
        log("ERROR: cannot translate the current tree:", ir_err[-600:])
        return 2
    apipool = ThreadPoolExecutor(vfe.JOBS)
    afuts = []
    # one native build per stand-in, then parallel seeded runs
    def api_run(a, k):
        try:
            h = harn[a.file]
            rc, out = vfe.search_native(w, harn, a, a.secs, vfe.SEED * 1000 + k, max(1, a.runs // a.par), a.san, k)
        except vfe.EngineError as e:
            return a, k, -1, str(e)
        return a, k, rc, out
    obpool = ThreadPoolExecutor(vfe.JOBS)
    ofuts = [obpool.submit(vfe.run_ob, w, harn, o) for o in sorted(obs, key=lambda o: -o.weight)]
    for a in apis:
        for k in range(a.par):
            afuts.append(apipool.submit(api_run, a, k))
    nruns, ncompleted, api_samples, api_undecided = 0, 0, [], []
    seen = set()
    for f in as_completed(afuts):
        a, k, rc, out = f.result()
        if rc == 0:
            m = re.search(r"SEARCH runs=(\d+) completed=(\d+)", out)
            if m:
                nruns += int(m.group(1))
                ncompleted += int(m.group(2))
                api_results.append((a.name, int(m.group(1)), int(m.group(2))))
            continue
        if rc == -1 and "CONTRACT" not in out:
            api_undecided.append("%s: %s" % (a.name, out[-500:]))
            continue
        m = re.search(r"CONTRACT-VIOLATED (.*)", out)
        name = m.group(1) if m else ("crash or hang rc=%d" % rc)
        if (a.name, name) in seen:
            continue
        seen.add((a.name, name))
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s-%d.txt" % (a.name, k))
        m2 = re.search(r"inputs:(.*)", out)
        with open(p, "w") as fo:
            fo.write("bounded stand-in %s (%s:%s) params=%s\nfailed clause: %s\nrc=%d\ninputs:%s\n--- output\n%s\n" % (
                a.name, a.file, a.entry, a.params, name, rc, m2.group(1) if m2 else " (see output)", out[-6000:]))
        viol.append((a.name, name, p, True))
        log("stand-in %s: %s" % (a.name, name))
    for f in ofuts:
        r = f.result()
        results.append(r)
        log("obligation %-34s %-9s %3d/%-3d %6.1fs %s" % (r["name"], r["status"], r["discharged"], r["obligations"], r["time"], r["reason"][:160].replace("\n", " ")))
    # failed obligations: replay the counterexample on the real code, else search, else report without input
    failed = [r for r in results if r["status"] == "failed"]
    def handle(r):
        ob = r["ob"]
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, re.sub(r"\W", "_", r["name"]) + ".txt")
        names = sorted({d for _, d in r["failed"]})
        txt = ["failed obligation(s) of %s (%s:%s params=%s):" % (r["name"], ob.file, ob.entry, ob.params)] + ["  " + n for n in names]
        confirmed = False
        for fpid, desc in r["failed"][:3]:
            try:
                vals, out = vfe.trace_inputs(w, r, fpid)
                rf = os.path.join(w.dir, "replay_%s_%d" % (re.sub(r"\W", "_", r["name"]), len(txt)))
                rc, o2 = vfe.replay_native(w, harn, ob, vals, rf)
                txt += ["counterexample for '%s', inputs in order of use:" % desc, " ".join(map(str, vals)), "replay on the real code: rc=%d %s" % (rc, o2[-1500:])]
                if "CONTRACT-VIOLATED" in o2 or (rc not in (0, 77, -9) and rc != -1):
                    confirmed = True
                    break
                txt += ["verifier trace (tail):", out[-3000:]]
            except vfe.EngineError as e:
                txt += ["replay not possible: " + str(e)[-600:]]
        if not confirmed:
            try:
                rc, o2 = vfe.search_native(w, harn, ob, ob.search, vfe.SEED, 10**9, False, 0)
                if rc != 0:
                    confirmed = True
                    txt += ["found by bounded search of the same contract on the real code: rc=%d" % rc, o2[-3000:]]
            except vfe.EngineError as e:
                txt += ["search not possible: " + str(e)[-600:]]
        open(p, "w").write("\n".join(txt) + "\n")
        if confirmed and not ob.reach:
            open(p, "a").write("The contract fails on the real function from an internal state that its invariant allows; no failing sequence of API calls was found.\n")
        return (r["name"], "; ".join(names), p, confirmed and ob.reach)
    if failed:
        with ThreadPoolExecutor(4) as ex:
            viol += list(ex.map(handle, failed[:6]))
    # undecided obligations: bounded search of the same contract on the real code stands in
    stood = []
    und = [r for r in results if r["status"] == "undecided"]
    def stand(r):
        ob = r["ob"] if "ob" in r else None
        if ob is None:
            return None
        try:
            rc, o2 = vfe.search_native(w, harn, ob, ob.search, vfe.SEED, 10**9, False, 0)
        except vfe.EngineError as e:
            return (r, None, str(e))
        return (r, rc, o2)
    if und:
        with ThreadPoolExecutor(vfe.JOBS) as ex:
            for x in ex.map(stand, und):
                if x is None:
                    continue
                r, rc, o2 = x
                if rc is None:
                    stood.append(r["name"] + ": no stand-in possible: " + o2[-200:])
                elif rc == 0:
                    stood.append(r["name"] + ": " + o2.strip()[-80:])
                elif "CONTRACT-VIOLATED" in o2:
                    os.makedirs(rdir, exist_ok=True)
                    p = os.path.join(rdir, re.sub(r"\W", "_", r["name"]) + "-search.txt")
                    open(p, "w").write("obligation undecided (%s); bounded search of the same contract on the real code:\n%s\n" % (r["reason"], o2[-4000:]))
                    m = re.search(r"CONTRACT-VIOLATED (.*)", o2)
                    viol.append((r["name"], m.group(1), p, r["ob"].reach))
                else:
                    stood.append(r["name"] + ": search rc=%d" % rc)
    kf = known_findings(pid)
    for key, text in kf:
        log("KNOWN-FINDING: property=%s %s" % (pid, text))
    def isb(r): return bool("ob" in r and r["ob"].bounded)
    nob = sum(r["obligations"] for r in results if not isb(r))
    ndis = sum(r["discharged"] for r in results if r["status"] != "undecided" and not isb(r))
    proved = [r for r in results if r["status"] == "proved" and not isb(r)]
    unb = [r for r in results if not isb(r)]
    funcs = sorted({f for r in results for f in r["funcs"]})
    assumed = sorted({f for r in results for f in r["assumed"]})
    ev = dict(property=pid, tier=tier, seed=vfe.SEED, level=spec.LEVEL, wall_s=round(time.time() - t0, 1), violations=len(viol),
              assumptions=list(getattr(spec, "ASSUME", [])),
              coverage=dict(
                  obligations=nob, discharged=ndis,
                  checker_cmd="python3 check.py %s  (per group: %s)" % (pid, results[0].get("cmd", "cbmc") if results else "-"),
                  trusted_base=TRUSTED + assumed,
                  backend="CBMC 6.11 (bit-precise symbolic execution; SAT back end per group in checker_cmd: CaDiCaL or MiniSat2), over LLVM IR of the real sources translated by engine/ll2c.cpp",
                  groups=[dict(name=r["name"], status="held within its bound" if isb(r) and r["status"] == "proved" else r["status"], obligations=r["obligations"], discharged=r["discharged"], vacuity_points_reached=r.get("covers", 0),
                               seconds=r.get("solver_s", r["time"]), note=r["reason"][:200], bounded=(r["ob"].bounded or "") if "ob" in r else "") for r in results],
                  groups_proved=len(proved), groups_total=len(unb),
                  functions_under_contract=funcs, solver_seconds=round(sum(r.get("solver_s", 0) for r in results), 1),
                  undecided_groups_searched=stood,
                  bounded_standins=[dict(name=a.name, bound=a.bounded, runs=sum(x[1] for x in api_results if x[0] == a.name), completed=sum(x[2] for x in api_results if x[0] == a.name)) for a in apis],
                  bounded_undecided=api_undecided,
                  evaluations=nruns, distinct_nontrivial=ncompleted,
                  rule="bounded stand-ins only: seeded random histories of real API calls; non-trivial = ran to the end without meeting an unmet precondition"))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    log("groups proved %d/%d, obligations %d discharged %d, stand-in runs %d, %.1fs" % (len(proved), len(unb), nob, ndis, nruns, time.time() - t0))
    for u in api_undecided:
        log("stand-in undecided:", u[:300])
    # a confirmed violation first
    viol.sort(key=lambda v: not v[3])
    kkeys = {k for k, _ in kf}
    viol = [v for v in viol if not (v[0] in kkeys or ("%s/%s" % (v[0], v[1])).replace(" ", "_") in kkeys)]
    if viol:
        for n, d, p, c in viol[:5]:
            log("violated: %s: %s" % (n, d[:300]))
        any_conf = [v for v in viol if v[3]]
        v = viol[0]
        log("VIOLATION property=%s replay=%s%s" % (pid, v[2], "" if any_conf else " no-failing-input-found"))
        return 1
    return 0


TRUSTED = ["clang 18 front end (C++ to LLVM IR, -O1 code generation, no optimisation passes except always-inline, sroa, early-cse, simplifycfg, dce)",
           "engine/ll2c.cpp (LLVM IR to C; exception edges become 'unreachable' obligations)", "CBMC 6.11 with CaDiCaL / MiniSat2",
           "x86-64 little-endian data layout, two's complement wrap-around where clang emits no nsw obligation"]

if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.exit(2)
