"""C10: learning engines: compile once, retry, incremental compile."""
import time

from .. import lib, learn as LN, causal as C, ref as R
from ..kernel import LOW
from ..core import Violation, Inconclusive

SHRINK = [["ops"], ["L", "rows"]]
TIMEOUT = 100.0


def gen(rng, i, tier):
    kind = rng.choice(["emcc", "emcc", "emcc", "gdcc"])
    L = LN.gen_learn(rng, gd=kind == "gdcc", small=rng.random() < 0.8, max_rows=10, obs_exo=False)
    L["trainable"] = None
    par = rng.random() < 0.4
    ref = R.Ref(L["spec"])
    ops = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        f = gen_fault(rng, par) if rng.random() < 0.45 else None
        if r < 0.42:
            q = C.gen_causal(rng, L["spec"], ref, kinds=("causal", "causal", "cf", "pn", "ps", "pns"), worlds=2, exo_ok=False)
            if q:
                ops.append({"op": "query", "q": q, "fault": f})
        elif r < 0.55:
            ops.append({"op": "compile", "fault": f})
        elif r < 0.92 and kind == "emcc":
            ops.append({"op": "inc", "step": rng.randint(1, 3), "steps": rng.randint(1, 3), "fault": f})
        else:
            ops.append({"op": "bad", "how": rng.choice(["t", "do"])})
    q = C.gen_causal(rng, L["spec"], ref, kinds=("causal", "cf", "pns"), worlds=2, exo_ok=False)
    if kind == "emcc" and rng.random() < 0.5:
        ops.append({"op": "inc", "step": rng.randint(1, 3), "steps": 99, "fault": None})
    if q:
        ops.append({"op": "query", "q": q, "fault": None})
    return {"kind": kind, "L": L, "start": LN.gen_start(rng, L), "runs": rng.randint(1, 4), "max_iter": rng.choice([1, 2, 3]), "tol": 1e-3, "ops": ops,
            "seed": rng.randrange(10 ** 6), "parallel": par, "workers": rng.choice([2, 3]), "sched": lib.gen_sched(rng, est=100000) if par else {"mode": "none"}}


def gen_fault(rng, par):
    r = rng.random()
    if par and r < 0.4:
        return {"who": "worker", "w": rng.randint(0, 1), "call": lib.gen_call(rng, [100, 2000, 6000]), "exc": "MemoryError"}
    if par and r < 0.6:
        return {"who": "sleep", "sleep": rng.randint(1, 4), "exc": "KeyboardInterrupt"}
    return {"who": "main", "call": lib.gen_call(rng, [100, 2000, 8000, 20000]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}


def arm(kn, f):
    if f["who"] == "worker":
        kn.arm({"kind": "raise", "exc": f["exc"], "thread": len(kn.threads) + f["w"], "call": f["call"]})
    elif f["who"] == "sleep":
        kn.arm({"kind": "sleep-raise", "exc": f["exc"], "thread": 0, "sleep": kn.threads[0].sleeps + f["sleep"]})
    else:
        kn.arm_here(f["exc"], f["call"])


class State:
    """what the engine is known to hold"""
    def __init__(self):
        self.tabs = []          # tables of its models
        self.ready = False      # compiled: queries must not learn


def read(ctx, inf, L, what):
    return [LN.read_tables(ctx, m, L, what) for m in inf.models]


def prefix(a, b, tol=1e-12):
    return len(a) <= len(b) and all(LN.table_diff(x, y) <= tol for x, y in zip(a, b))


def execute(sc, ctx):
    import bcause as bc
    from bcause.inference.causal.multi import EMCC, GDCC
    L = sc["L"]
    LN.set_workers(sc["workers"])
    prior = LN.start_model(L, sc["start"])
    data = LN.data_frame(L)
    bc.randomUtil.seed(sc["seed"])
    if sc["kind"] == "emcc":
        inf = EMCC(prior, data, max_iter=sc["max_iter"], num_runs=sc["runs"], parallel=sc["parallel"])
    else:
        inf = GDCC(prior, data, num_runs=sc["runs"], tol=sc["tol"], max_iter=sc["max_iter"] + 3, parallel=sc["parallel"])
    st = State()
    base = LN.tables(L["spec"], sc["start"])
    with ctx.kernel(sc["sched"], budget=100_000_000, scope=LOW) as kn:
        for k, op in enumerate(sc["ops"]):
            what = f"op {k} {op['op']}"
            if op["op"] == "bad":
                if not st.ready:
                    continue
                e0 = L["spec"]["endo"][0]
                try:
                    inf.causal_query("Nope", do={e0: L["spec"]["dom"][e0][0]}) if op["how"] == "t" else inf.causal_query(e0, do={"Nope": 1})
                except Exception:
                    ctx.fault("rejected call")
                now = read(ctx, inf, L, what)
                ctx.check(len(now) == len(st.tabs) and prefix(st.tabs, now), "models", f"{what}: the models changed")
                continue
            f, n0 = op["fault"], len(kn.fired)
            if f:
                arm(kn, f)
            fn = {"query": do_query, "compile": do_compile, "inc": do_inc}[op["op"]]
            failed = None
            try:
                fn(sc, ctx, inf, op, st, L, base, what, kn)
            except (Violation, Inconclusive):
                raise
            except (Exception, KeyboardInterrupt) as e:
                failed = e
            kn.disarm_all()
            kn.sleep_armed.clear()
            if failed is not None:
                if len(kn.fired) == n0:
                    raise Violation("exception", f"{what} raised {type(failed).__name__}: {failed}")
                ctx.log(k, "failed", type(failed).__name__)
                ctx.nontrivial = True
                ctx.stat("failed calls")
                after_failure(ctx, inf, st, L, sc, op, what)
                if sc["parallel"]:
                    now = read(ctx, inf, L, what)
                    time.sleep(1e5)
                    later = read(ctx, inf, L, what)
                    ctx.check(len(now) == len(later) and prefix(now, later), "models", f"{what}: the models changed after the call had failed")
            evolution(ctx, inf, sc, L, what)
    ctx.nontrivial = ctx.nontrivial or len(st.tabs) > 0
    for op in sc["ops"]:
        ctx.cov(sc["kind"], op["op"], op.get("step"), str((op.get("fault") or {}).get("who")), sc["runs"], sc["parallel"])


def evolution(ctx, inf, sc, L, what):
    if sc["kind"] != "gdcc" or not inf.models:
        return
    for i, m in enumerate(inf.models):
        ev = list(ctx.must(what + ": evolution", inf.get_model_evolution, i))
        a, b = LN.read_tables(ctx, ev[-1], L, what), LN.read_tables(ctx, m, L, what)
        ctx.check(LN.table_diff(a, b) <= 1e-12, "evolution", f"{what}: evolution {i} does not end with model {i}")


def valid(ctx, tabs, base, L, what, gd):
    for i, t in enumerate(tabs):
        LN.check_valid(ctx, t, base, L, f"{what}: model {i}", tol=1e-6 if gd else 1e-9)


def distinct(ctx, tabs, what, L):
    pass


def do_compile(sc, ctx, inf, op, st, L, base, what, kn):
    r = inf.compile()
    now = read(ctx, inf, L, what)
    ctx.check(len(now) == sc["runs"], "count", f"{what}: {len(now)} models, {sc['runs']} were asked for")
    valid(ctx, now, base, L, what, sc["kind"] == "gdcc")
    st.tabs, st.ready = now, True
    ctx.log(what, [LN.fp(t, 6) for t in now])


def do_query(sc, ctx, inf, op, st, L, base, what, kn):
    q = op["q"]
    rng0 = lib.rng_fp()
    ok = [C.expected(R.Ref(L["spec"], t), q) for t in st.tabs]
    if st.ready and (any(e is None for e in ok) or min_ev(L, st.tabs, q) < 1e-9):
        return
    if not st.ready and C.pn_evidence(q) or q.get("ev"):
        # the models are not known yet: evidence could be impossible in them
        if not st.ready:
            return
    ans = C.call(inf, q)
    now = read(ctx, inf, L, what)
    if st.ready:
        ctx.check(len(now) == len(st.tabs) and prefix(st.tabs, now), "relearned", f"{what}: the models changed during a query")
        ctx.check(lib.rng_fp() == rng0, "relearned", f"{what}: the query drew random numbers")
    else:
        ctx.check(len(now) == sc["runs"] or (len(st.tabs) and prefix(st.tabs, now)), "count", f"{what}: {len(now)} models, {sc['runs']} were asked for")
        valid(ctx, now, base, L, what, sc["kind"] == "gdcc")
        st.tabs, st.ready = now, True
    exps = [C.expected(R.Ref(L["spec"], t), q) for t in st.tabs]
    C.judge_interval(ctx, ans, q, exps, L["spec"]["dom"], f"{what} {q}", tol=1e-7)
    ctx.stat("answers")
    ctx.log(what, len(now))


def min_ev(L, tabs, q):
    if q["k"] == "causal":
        return min(R.Ref(L["spec"], t).prob_evidence(q["ev"], q["do"]) for t in tabs)
    ev = q["ev"] if q["k"] == "cf" else C.pn_evidence(q)
    return min(R.Ref(L["spec"], t).prob_evidence(ev) for t in tabs)


def do_inc(sc, ctx, inf, op, st, L, base, what, kn):
    g = inf.compile_incremental(step_runs=op["step"])
    n = 0
    while n < op["steps"]:
        before = list(st.tabs)
        need = len(before) < sc["runs"]
        try:
            r = next(g)
        except StopIteration:
            ctx.check(len(st.tabs) >= sc["runs"], "stopped", f"{what}: ended with {len(st.tabs)} models, {sc['runs']} were asked for")
            break
        n += 1
        ctx.check(need, "too-many", f"{what}: another step although {len(before)} of {sc['runs']} models were there")
        now = read(ctx, inf, L, what)
        ctx.check(len(now) == len(before) + op["step"], "count", f"{what}: step {n} took {len(before)} models to {len(now)}, step size {op['step']}")
        ctx.check(prefix(before, now), "dropped", f"{what}: step {n} changed earlier models")
        valid(ctx, now, base, L, what, False)
        st.tabs, st.ready = now, True
        # the engine answers from all of them
        e0 = L["spec"]["endo"][0]
        t0 = L["spec"]["endo"][-1]
        q = {"k": "causal", "t": [t0], "do": {e0: L["spec"]["dom"][e0][0]}, "ev": {}}
        if e0 != t0:
            ans = C.call(inf, q)
            C.judge_interval(ctx, ans, q, [C.expected(R.Ref(L["spec"], t), q) for t in now], L["spec"]["dom"], f"{what} step {n}", tol=1e-7)
            again = read(ctx, inf, L, what)
            ctx.check(len(again) == len(now) and prefix(now, again), "relearned", f"{what}: the models changed during a query")
        ctx.log(what, n, len(now))
        ctx.check(n <= sc["runs"] + 1, "endless", f"{what}: {n} steps for {sc['runs']} models")


def after_failure(ctx, inf, st, L, sc, op, what):
    """earlier models in force, or a complete new set; nothing in between"""
    now = read(ctx, inf, L, what + " (after the failure)")
    if len(now) == len(st.tabs) and prefix(st.tabs, now):
        if op["op"] == "compile":
            st.ready = False if not st.tabs else st.ready
        pass
    elif op["op"] == "inc":
        ctx.check(prefix(st.tabs, now) and len(now) == len(st.tabs) + op["step"], "torn", f"{what}: after the failure {len(now)} models, {len(st.tabs)} before")
        st.tabs, st.ready = now, False
    else:
        ctx.check(not st.ready or op["op"] == "compile", "relearned", f"{what}: the models changed during a query")
        ctx.check(len(now) == sc["runs"], "torn", f"{what}: after the failure {len(now)} models, {len(st.tabs)} before, {sc['runs']} asked for")
        st.tabs, st.ready = now, False
    if not st.ready:
        return
    # still ready: a query answers from the earlier models without learning; the engine may also recompile itself
    q = None
