"""C02: learner records stay aligned with learned models, also across failed and interrupted runs."""
import time

from .. import lib, learn as LN
from ..kernel import LOW
from ..core import Violation, Inconclusive

SHRINK = [["ops"], ["L", "rows"]]
TIMEOUT = 100.0


def gen(rng, i, tier):
    kind = rng.choice(["agg_em", "agg_em", "agg_gd", "gdcc"])
    gd = kind != "agg_em"
    par = rng.random() < 0.55
    L = LN.gen_learn(rng, gd=gd, small=rng.random() < 0.7, max_rows=10, obs_exo=False)
    if kind == "gdcc":
        L["trainable"] = None
    ops = []
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        if r < 0.4:
            ops.append({"op": "run", "n": rng.randint(1, 4), "fault": None})
        elif r < 0.85:
            ops.append({"op": "run", "n": rng.randint(1, 4), "fault": gen_fault(rng, par)})
        elif r < 0.95:
            ops.append({"op": "bad", "n": rng.choice([0, -1, -5])})
        else:
            ops.append({"op": "reset"})
    return {"kind": kind, "L": L, "start": LN.gen_start(rng, L), "ops": ops, "max_iter": rng.choice([1, 2, 3]), "tol": 1e-3, "seed": rng.randrange(10 ** 6),
            "parallel": par, "workers": rng.choice([2, 3, 4]), "sched": lib.gen_sched(rng, est=100000) if par else {"mode": "none"}}


def gen_fault(rng, par):
    r = rng.random()
    if par and r < 0.55:
        return {"who": "worker", "w": rng.randint(0, 2), "call": lib.gen_call(rng, [100, 2000, 8000]), "exc": "MemoryError"}
    if par and r < 0.75:
        return {"who": "sleep", "sleep": rng.randint(1, 6), "exc": "KeyboardInterrupt"}
    return {"who": "main", "call": lib.gen_call(rng, [100, 2000, 8000, 20000]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}


def execute(sc, ctx):
    import bcause as bc
    from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM, SimpleModelAggregatorGD
    from bcause.inference.causal.multi import GDCC
    L = sc["L"]
    LN.set_workers(sc["workers"])
    prior = LN.start_model(L, sc["start"])
    data = LN.data_frame(L)
    tr = list(L["trainable"]) if L["trainable"] else None
    bc.randomUtil.seed(sc["seed"])
    k = sc["kind"]
    if k == "agg_em":
        a = SimpleModelAggregatorEM(prior, data, trainable_vars=tr, max_iter=sc["max_iter"], parallel=sc["parallel"])
    elif k == "agg_gd":
        a = SimpleModelAggregatorGD(prior, data, sc["tol"], sc["max_iter"] + 3, trainable_vars=tr, parallel=sc["parallel"])
    else:
        a = GDCC(prior, data, num_runs=next((o["n"] for o in sc["ops"] if o["op"] == "run"), 2), tol=sc["tol"], max_iter=sc["max_iter"] + 3, parallel=sc["parallel"])
    engine = k == "gdcc"
    past = []                # tables of the models so far
    nf = 0
    with ctx.kernel(sc["sched"], budget=80_000_000, scope=LOW) as kn:
        for j, op in enumerate(sc["ops"]):
            what = f"op {j} {op['op']}"
            if op["op"] == "reset":
                if not engine:
                    ctx.must(what, a.reset)
                    past = []
                    align(ctx, a, L, past, what)
                continue
            if op["op"] == "bad":
                if engine:
                    continue
                try:
                    a.run(op["n"])
                    ctx.violate("accepted", f"{what}: {op['n']} models accepted")
                except Violation:
                    raise
                except Exception:
                    ctx.fault("rejected call")
                align(ctx, a, L, past, what)
                continue
            f = op["fault"]
            n0 = len(kn.fired)
            if f:
                if f["who"] == "worker":
                    kn.arm({"kind": "raise", "exc": f["exc"], "thread": len(kn.threads) + f["w"], "call": f["call"]})
                elif f["who"] == "sleep":
                    kn.sleep_armed.clear()
                    kn.arm({"kind": "sleep-raise", "exc": f["exc"], "thread": 0, "sleep": kn.threads[0].sleeps + f["sleep"]})
                else:
                    kn.arm_here(f["exc"], f["call"])
            failed = None
            try:
                if engine:
                    a.compile()
                else:
                    a.run(op["n"])
            except (Violation, Inconclusive):
                raise
            except (Exception, KeyboardInterrupt) as e:
                failed = e
            kn.disarm_all()
            kn.sleep_armed.clear()
            inj = len(kn.fired) > n0
            if failed is not None and not inj:
                raise Violation("exception", f"{what} raised {type(failed).__name__}: {failed}")
            if failed is not None:
                ctx.log(j, "failed", type(failed).__name__)
                ctx.nontrivial = True
                ctx.stat("failed runs")
            else:
                ctx.check(not inj or f["who"] != "main", "swallowed", f"{what}: the injected {f and f['exc']} disappeared and the run reported success")
                ms = a.models
                m0 = [] if engine else past
                want = len(m0) + (a._num_runs if engine and hasattr(a, "_num_runs") else op["n"])
                ctx.check(len(ms) == want, "count", f"{what}: {len(ms)} models, expected {want}")
                past = m0 + [LN.read_tables(ctx, m, L, what) for m in ms[len(m0):]]
                ctx.log(j, [LN.fp(t, 6) for t in past])
            (align_engine if engine else align)(ctx, a, L, past, what)
            if sc["parallel"] and failed is not None:
                time.sleep(1e5)           # whatever still runs in the background comes to an end
                (align_engine if engine else align)(ctx, a, L, past, what + ", later")
    if engine and len(past) == 0:
        return
    ctx.nontrivial = ctx.nontrivial or len(past) > 1
    for op in sc["ops"]:
        ctx.cov(k, op["op"], op.get("n"), str((op.get("fault") or {}).get("who")), sc["parallel"], sc["workers"])


def align(ctx, a, L, past, what):
    ms, lo = list(a.models), list(a.learn_objects)
    ctx.check(len(ms) == len(past), "models", f"{what}: {len(ms)} models, expected {len(past)}")
    ctx.check(len(lo) == len(ms), "records", f"{what}: {len(lo)} learner records for {len(ms)} models")
    starts = []
    for i, (m, o, p) in enumerate(zip(ms, lo, past)):
        ev = list(o.model_evolution)
        t = LN.read_tables(ctx, m, L, f"{what}: model {i}")
        ctx.check(LN.table_diff(t, p) <= 1e-12, "models", f"{what}: model {i} changed")
        check_record(ctx, ev, t, L, f"{what}: record {i}")
        ctx.check(LN.table_diff(LN.read_tables(ctx, o.model, L, what), t) <= 1e-12, "records", f"{what}: record {i} belongs to another model")
        starts.append(LN.read_tables(ctx, ev[0], L, what))
    distinct_starts(ctx, starts, what)


def check_record(ctx, ev, t, L, what):
    ctx.check(len(ev) >= 2, "records", f"{what}: evolution of {len(ev)} models")
    last = LN.read_tables(ctx, ev[-1], L, what)
    ctx.check(LN.table_diff(last, t) <= 1e-12, "records", f"{what}: its evolution ends with another model")


def distinct_starts(ctx, starts, what):
    for i in range(len(starts)):
        for j in range(i):
            ctx.check(LN.table_diff(starts[i], starts[j]) > 1e-12, "starts", f"{what}: runs {j} and {i} have the same start")


def align_engine(ctx, a, L, past, what):
    ms = list(a.models)
    ctx.check(len(ms) == len(past), "models", f"{what}: {len(ms)} models, expected {len(past)}")
    if not ms:
        return
    starts = []
    for i, (m, p) in enumerate(zip(ms, past)):
        t = LN.read_tables(ctx, m, L, f"{what}: model {i}")
        ctx.check(LN.table_diff(t, p) <= 1e-12, "models", f"{what}: model {i} changed")
        ev = list(ctx.must(what + ": evolution", a.get_model_evolution, i))
        check_record(ctx, ev, t, L, f"{what}: evolution {i}")
        starts.append(LN.read_tables(ctx, ev[0], L, what))
    distinct_starts(ctx, starts, what)
