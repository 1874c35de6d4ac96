"""Worker: runs its share of the scenarios of one check, writes one JSON line per scenario."""
import json
import os
import sys


def main():
    cid, tier, seed, w, nw, n, cap = sys.argv[1:8]
    seed, w, nw, n, cap = int(seed), int(w), int(nw), int(n), float(cap)
    cross = len(sys.argv) > 8 and sys.argv[8] == "cross"
    from . import core
    core.preload()
    out = sys.stdout
    t0 = core._now()

    def emit(o):
        out.write(json.dumps(o) + "\n")
        out.flush()

    emit({"ready": True, "wall": round(core._now() - t0, 2)})
    mod = core.load_check(cid)
    hs = int(os.environ.get("PYTHONHASHSEED", "0"))
    for i in (range(n) if cross else range(w, n, nw)):
        if core._now() - t0 > cap:
            emit({"capped": i})
            break
        sc = core.gen_scenario(cid, seed, i, tier)
        sc["_hashseed"] = hs
        r = core.run_forked(cid, sc, getattr(mod, "TIMEOUT", 120.0))
        if r["status"] in ("timeout", "died"):
            r2 = core.run_forked(cid, sc, 2 * getattr(mod, "TIMEOUT", 120.0))
            r2["retried"] = r["status"]
            r = r2
        rec = dict(i=i, w=w, res=r)
        if i < 3 * nw and not cross and r["status"] == "ok" and i // nw == (seed % 3):
            again = core.run_forked(cid, sc, getattr(mod, "TIMEOUT", 120.0))
            rec["repeat_same"] = again["status"] == "ok" and again["hash"] == r["hash"]
        if i < nw or cross and w == 0:
            rec["scenario"] = sc
        r.pop("trace", None) if r["status"] == "ok" else None
        if r["status"] == "violation":
            a = core.run_forked(cid, sc, 240.0)
            rec["confirmed"] = core.same(a, r)
            rec["exact"] = a["hash"] == r["hash"] and a["msg"] == r["msg"]
            if rec["confirmed"]:
                emit({"found": i, "msg": r["msg"], "kind": r["kind"]})
                best, bres, tries = core.minimise(cid, sc, r, float(os.environ.get("DST_MIN_S", "45")))
                rec["min"] = best
                rec["min_res"] = bres
                rec["tries"] = tries
            rec["scenario"] = sc
            emit(rec)
            break
        emit(rec)
    emit({"done": True})


def serve():
    """one scenario per input line, one result per output line"""
    from . import core
    core.preload()
    for line in sys.stdin:
        o = json.loads(line)
        r = core.run_forked(o["cid"], o["sc"], o.get("timeout", 60.0))
        r.pop("trace", None)
        sys.stdout.write(json.dumps(r) + "\n")
        sys.stdout.flush()


def xmin():
    """minimise a scenario on which two processes with different hash seeds disagree"""
    import subprocess
    from . import core
    core.preload()
    cid, path, other, budget = sys.argv[2:6]
    sc = json.load(open(path))
    p = subprocess.Popen([sys.executable, "-m", "dst.worker", "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                         env=dict(os.environ, PYTHONHASHSEED=other))

    def both(cid, sc, timeout):
        a = core.run_forked(cid, sc, timeout)
        p.stdin.write(json.dumps({"cid": cid, "sc": sc, "timeout": timeout}) + "\n")
        p.stdin.flush()
        b = json.loads(p.stdout.readline())
        d = None
        if a["status"] == "ok" and b["status"] == "ok":
            d = core.outcome_diff(a["outcome"], b["outcome"])
        if d:
            a = dict(a, status="violation", kind="process-dependent", msg=f"two processes (hash seeds {os.environ['PYTHONHASHSEED']} and {other}) disagree: {d}", detail={})
        return a
    res = both(cid, sc, 120.0)
    out = {"confirmed": res["status"] == "violation"}
    if out["confirmed"]:
        best, bres, tries = core.minimise(cid, sc, res, float(budget), runner=both)
        bres.pop("trace", None)
        out.update(min=best, min_res=bres, tries=tries)
    sys.stdout.write("XMIN " + json.dumps(out) + "\n")
    p.stdin.close()
    p.kill()


if __name__ == "__main__":
    from . import kernel
    kernel.install()
    {"serve": serve, "xmin": xmin}.get(sys.argv[1], main)()
