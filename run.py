#!/usr/bin/env python3
"""check <id> [--tier quick|thorough] | replay <file> | one <id> <index> [--tier t] | setup"""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
NW = int(os.environ.get("DST_WORKERS", "8"))
REPLAYS = os.path.join(HERE, "evidence", "replays")


def env_for(hashseed):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
             CUDA_VISIBLE_DEVICES="", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONHASHSEED=str(hashseed), PYTHONPATH=HERE,
             LANG="C.UTF-8", LOKY_MAX_CPU_COUNT="1")
    for k in ("PYTHONWARNINGS", "PYTHONSTARTUP"):
        e.pop(k, None)
    return e


def hashseed_for(seed, w):
    return 0 if w == 0 else int(hashlib.sha256(f"{seed}:{w}".encode()).hexdigest()[:7], 16)


def load_findings():
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a[0] == "check":
        return check(a[1], tier, seed)
    if a[0] == "setup":
        return setup()
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "one":
        return one(a[1], int(a[2]), tier, seed)
    print(__doc__)
    return 2


def setup():
    """nothing is built: the code under test is imported from /repo by every check; see that it can be"""
    p = subprocess.run([PY, "-c", "from dst import kernel; kernel.install(); from dst import core; core.preload(); print('ready')"],
                       env=env_for(0), cwd=HERE, text=True, capture_output=True)
    print(p.stdout.strip() or p.stderr[-2000:])
    return p.returncode


def load_plan(cid):
    sys.path.insert(0, HERE)
    from dst.plan import PLAN
    return PLAN[cid]


def check(cid, tier, seed):
    t0 = time.monotonic()
    plan = load_plan(cid)
    n = int(os.environ.get("DST_RUNS", plan["runs"][tier]))
    cap = float(os.environ.get("DST_CAP", plan["cap"][tier]))
    cross = bool(plan.get("cross"))
    procs, recs, notes = [], [], []
    lock = threading.Lock()
    stop = threading.Event()
    found = {}
    ready = {}

    def reader(w, p):
        for line in p.stdout:
            try:
                o = json.loads(line)
            except ValueError:
                continue
            with lock:
                if "res" in o:
                    recs.append(o)
                    if o["res"]["status"] == "violation":
                        stop.set()
                elif "found" in o:
                    found[w] = o["found"]
                elif "ready" in o:
                    ready[w] = o["wall"]
                elif "capped" in o:
                    notes.append(f"worker {w} reached its time cap at scenario {o['capped']}")

    base = tempfile.mkdtemp(prefix="dst-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    args = [cid, tier, str(seed), None, str(NW), str(n), str(cap)] + (["cross"] if cross else [])
    errs = []
    for w in range(NW):
        args[3] = str(w)
        err = open(os.path.join(base, f"{w}.err"), "w+")
        errs.append(err)
        p = subprocess.Popen([PY, "-m", "dst.worker"] + args, stdout=subprocess.PIPE, stderr=err, cwd=HERE,
                             env=dict(env_for(hashseed_for(seed, w)), DST_SCRATCH=base), text=True, start_new_session=True)
        t = threading.Thread(target=reader, args=(w, p), daemon=True)
        t.start()
        procs.append((p, t))
    # a worker that found something minimises it; the others may go on until one has reported
    deadline = t0 + cap + 240
    while any(p.poll() is None for p, _ in procs):
        if stop.is_set() or time.monotonic() > deadline:
            break
        time.sleep(0.05)
    for p, _ in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
    for p, t in procs:
        p.wait()
        t.join(5)
    werr = []
    for e in errs:
        e.seek(0)
        s = e.read().strip()
        if s:
            werr.append(s[-600:])
        e.close()
    shutil.rmtree(base, ignore_errors=True)
    return conclude(cid, tier, seed, n, plan, recs, notes, werr, time.monotonic() - t0, procs, cross, stop.is_set(), ready)


def conclude(cid, tier, seed, n, plan, recs, notes, werr, wall, procs, cross, stopped, ready):
    recs.sort(key=lambda r: (r["i"], r["w"]))
    vio = [r for r in recs if r["res"]["status"] == "violation"]
    if cross:
        vio += cross_compare(cid, recs, seed)
    known = [k for k in load_findings() if k.get("property") == cid and k.get("status") == "known"]
    unknown, knowns = [], []
    for r in vio:
        k = next((k for k in known if k["match"] in (r["res"]["msg"] or "")), None)
        (knowns if k else unknown).append((r, k))
    ok = [r for r in recs if r["res"]["status"] == "ok"]
    inc = [r for r in recs if r["res"]["status"] in ("inconclusive",)]
    bad = [r for r in recs if r["res"]["status"] in ("error", "timeout", "died")]
    cover, faults, stats, simtime = set(), {}, {}, 0.0
    for r in recs:
        x = r["res"]
        cover.update(x["cover"])
        simtime += x["simtime"]
        for k, v in x["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in x["stats"].items():
            stats[k] = stats.get(k, 0) + v
    nontriv = sum(1 for r in recs if r["res"]["nontrivial"])
    distinct = len({r["res"]["hash"] for r in recs if r["res"]["nontrivial"] and r["res"]["hash"]})
    reps = [r["repeat_same"] for r in recs if "repeat_same" in r]
    samples = []
    for r in recs:
        if "scenario" in r and len(samples) < 3:
            samples.append(r["scenario"])
    ev = dict(property=cid, tier=tier, seed=seed, level=plan["level"], wall_s=round(wall, 2), violations=len(unknown),
              coverage=dict(
                  evaluations=len(recs), distinct_nontrivial=distinct, rule=plan["rule"], samples=samples,
                  simulated_runs=len(recs), seeds=len({r["i"] for r in recs}), nontrivial_runs=nontriv,
                  runs_per_hour=int(len(recs) / max(wall, 1e-9) * 3600),
                  seeds_per_hour=int(len({r["i"] for r in recs}) / max(wall, 1e-9) * 3600),
                  simulated_seconds=round(simtime, 6), faults_injected=faults,
                  distinct_by_measure=len(cover), measure=plan["measure"], totals=stats,
                  real_components=plan["real"], stubbed_components=plan["stub"],
                  determinism_reruns=len(reps), determinism_identical=sum(reps),
                  inconclusive=len(inc), harness_errors=len(bad), planned_runs=n, notes=notes),
              assumptions=plan["assumptions"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{cid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{cid} tier={tier} seed={seed}: {len(recs)} runs, {nontriv} non-trivial, {len(cover)} distinct ({plan['measure'][:60]}...), "
          f"faults={sum(faults.values())}, {wall:.1f}s")
    for k in known:
        print(f"KNOWN-FINDING: property={cid} {k['what']}")
    if unknown:
        os.makedirs(REPLAYS, exist_ok=True)
        r = unknown[0][0]
        sc = r.get("min") or r["scenario"]
        res = r.get("min_res") or r["res"]
        path = os.path.join(REPLAYS, f"{cid}-seed{seed}-{r['i']}.json")
        with open(path, "w") as f:
            json.dump(dict(property=cid, seed=seed, index=r["i"], tier=tier, violation=dict(kind=res["kind"], msg=res["msg"], detail=res["detail"]),
                           hash=res["hash"], hashseeds=r.get("hashseeds", [sc.get("_hashseed", 0)]), scenario=sc,
                           events=res.get("events", []), minimiser_runs=r.get("tries", 0)), f, indent=1)
        print(f"  {res['kind']}: {res['msg'][:600]}")
        if res["detail"].get("tb"):
            print("  " + " <- ".join(reversed(res["detail"]["tb"][-6:])))
        if "confirmed" in r and not r["confirmed"]:
            print("HARNESS: the violation did not repeat; treated as an error of the check")
            return 3
        print(f"VIOLATION property={cid} replay={path}")
        return 1
    if reps and not all(reps):
        print(f"HARNESS: {reps.count(False)} reruns were not identical")
        return 3
    if bad or (not recs):
        for r in bad[:3]:
            print("HARNESS:", r["i"], r["res"]["status"], r["res"]["msg"][-1500:])
        for w in werr[:2]:
            print("HARNESS stderr:", w)
        return 3
    if not stopped and len(recs) < 0.5 * n * (NW if cross else 1) and not notes:
        print(f"HARNESS: only {len(recs)} of {n} scenarios ran")
        for w in werr[:2]:
            print("HARNESS stderr:", w)
        return 3
    if len(inc) > 0.2 * len(recs):
        print(f"HARNESS: {len(inc)} inconclusive runs: {inc[0]['res']['msg']}")
        return 3
    return 0


def cross_compare(cid, recs, seed):
    """same scenario, different processes and hash seeds: outcomes must agree"""
    from dst.core import outcome_diff
    by, last, tried = {}, [], 0
    for r in recs:
        if r["res"]["status"] == "ok":
            by.setdefault(r["i"], []).append(r)
    for i, rs in sorted(by.items()):
        a = rs[0]
        sc = next((r["scenario"] for r in rs if r.get("scenario")), None)
        for b in rs[1:]:
            d = outcome_diff(a["res"]["outcome"], b["res"]["outcome"])
            if d and sc is not None:
                hs = [hashseed_for(seed, a["w"]), hashseed_for(seed, b["w"])]
                v = dict(i=i, w=b["w"], res=dict(a["res"], status="violation", kind="process-dependent",
                                                 msg=f"two processes (hash seeds {hs}) disagree: {d}", detail={}),
                         scenario=sc, hashseeds=hs)
                v.update(cross_minimise(cid, sc, hs))
                if v["confirmed"] or tried >= 3:
                    return [v]
                last, tried = [v], tried + 1
                break
    return last


def cross_minimise(cid, sc, hs):
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(sc, f)
    base = tempfile.mkdtemp(prefix="dst-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        p = subprocess.run([PY, "-m", "dst.worker", "xmin", cid, f.name, str(hs[1]), os.environ.get("DST_MIN_S", "45")],
                           env=dict(env_for(hs[0]), DST_SCRATCH=base), cwd=HERE, capture_output=True, text=True, timeout=400)
        for line in p.stdout.splitlines():
            if line.startswith("XMIN "):
                return json.loads(line[5:])
        print("HARNESS stderr (confirming):", p.returncode, p.stderr[-1500:])
    except subprocess.TimeoutExpired:
        print("HARNESS: confirming took too long")
    finally:
        os.unlink(f.name)
        shutil.rmtree(base, ignore_errors=True)
    return {"confirmed": False}


_ONE = """
import sys, json
from dst import kernel
kernel.install()
from dst import core
core.preload()
cid = sys.argv[1]
sc = json.load(open(sys.argv[2]))
r = core.run_forked(cid, sc, 600)
print("RESULT " + json.dumps(r))
"""


def run_one(cid, sc, hashseed):
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(sc, f)
    try:
        p = subprocess.run([PY, "-c", _ONE, cid, f.name], env=env_for(hashseed), cwd=HERE, capture_output=True, text=True)
    finally:
        os.unlink(f.name)
    for line in p.stdout.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    raise SystemExit("no result\n" + p.stdout[-2000:] + p.stderr[-3000:])


def replay(path):
    d = json.load(open(path))
    cid = d["property"]
    rs = [run_one(cid, d["scenario"], h) for h in d["hashseeds"]]
    if len(rs) > 1:
        from dst.core import outcome_diff
        diff = outcome_diff(rs[0]["outcome"], rs[1]["outcome"])
        print("outcomes differ: " + diff if diff else "outcomes agree")
        rep = bool(diff)
    else:
        r = rs[0]
        print(json.dumps({k: r[k] for k in ("status", "kind", "msg", "hash")}, indent=1))
        rep = r["status"] == "violation"
        print("identical to the recorded execution" if r["hash"] == d["hash"] else "differs from the recorded execution")
    if rep:
        print(f"VIOLATION property={cid} replay={path}")
        return 1
    return 0


def one(cid, i, tier, seed):
    code = ("import sys,json\nfrom dst import kernel\nkernel.install()\nfrom dst import core\ncore.preload()\n"
            "cid,i,tier,seed=sys.argv[1],int(sys.argv[2]),sys.argv[3],int(sys.argv[4])\n"
            "sc=core.gen_scenario(cid,seed,i,tier)\nprint(json.dumps(sc))\nr=core.run_forked(cid,sc,600)\nr.pop('trace',None)\nprint(json.dumps(r,indent=1))\n")
    e = env_for(hashseed_for(seed, i % NW))
    e["DST_STDERR"] = "1"
    return subprocess.run([PY, "-c", code, cid, str(i), tier, str(seed)], env=e, cwd=HERE).returncode


if __name__ == "__main__":
    sys.exit(main())
