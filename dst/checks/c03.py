"""C03: valid models in every iteration, EM never loses likelihood, iteration limits."""
import math

from .. import lib, learn as LN, ref as R, spec as S
from ..kernel import LOW
from ..core import Violation

SHRINK = [["rows_"], ["L", "rows"]]
TIMEOUT = 100.0


def gen(rng, i, tier):
    kind = rng.choice(["em", "em", "em", "gd", "agg_em", "agg_gd"])
    gd = kind in ("gd", "agg_gd")
    L = LN.gen_learn(rng, gd=gd, obs_exo=kind == "em")
    return {"kind": kind, "L": L, "start": LN.gen_start(rng, L, 0.3 if kind == "em" else 0.0), "max_iter": rng.choice([0, 1, 2, 3, 5, 9, 25]),
            "via": rng.choice(["run", "run", "steps"]), "tol": rng.choice([1e-3, 1e-6, 1e-8]), "runs": rng.randint(1, 3),
            "seed": rng.randrange(10 ** 6), "parallel": rng.random() < 0.4, "workers": rng.randint(2, 4), "sched": lib.gen_sched(rng)}


def execute(sc, ctx):
    L = sc["L"]
    prior = LN.start_model(L, sc["start"])
    base = LN.tables(L["spec"], sc["start"])
    data = LN.data_frame(L)
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.learning.parameter.gradient import GradientLikelihood
    from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM, SimpleModelAggregatorGD
    import bcause as bc
    k = sc["kind"]
    tr = list(L["trainable"]) if L["trainable"] else None
    LN.set_workers(sc["workers"])
    with ctx.kernel(sc["sched"] if k.startswith("agg") else None, budget=80_000_000):
        if k == "em":
            em = ExpectationMaximization(prior, trainable_vars=tr)
            if sc["via"] == "run":
                ctx.must("run", em.run, data, max_iter=sc["max_iter"])
            else:
                ctx.must("initialize", em.initialize, data)
                for _ in range(min(sc["max_iter"], 6)):
                    ctx.must("step", em.step)
            judge_em(ctx, em, base, L, sc["max_iter"], "em")
            if sc["max_iter"] and sc["via"] == "run":
                # a learner given enough iterations stops by itself or at the limit
                ctx.stat("iterations", len(em.model_evolution) - 1)
        elif k == "gd":
            gl = GradientLikelihood(prior, trainable_vars=tr, tol=sc["tol"])
            mi = sc["max_iter"] or float("inf")
            ctx.must("run", gl.run, data, max_iter=mi)
            judge_gd(ctx, gl, base, L, mi, "gd")
        else:
            bc.randomUtil.seed(sc["seed"])
            if k == "agg_em":
                agg = SimpleModelAggregatorEM(prior, data, trainable_vars=tr, max_iter=sc["max_iter"], parallel=sc["parallel"])
            else:
                mi = sc["max_iter"] or float("inf")
                agg = SimpleModelAggregatorGD(prior, data, sc["tol"], mi, trainable_vars=tr, parallel=sc["parallel"])
            ctx.must("run", agg.run, sc["runs"])
            for i, (m, lo) in enumerate(zip(agg.models, agg.learn_objects)):
                b = LN.read_tables(ctx, lo.prior_model, L, f"start {i}")
                LN.check_valid(ctx, b, base, L, f"start {i}")
                L2 = L
                (judge_em if k == "agg_em" else judge_gd)(ctx, lo, b, L2, sc["max_iter"] if k == "agg_em" else mi, f"run {i}")
    ctx.nontrivial = sc["max_iter"] > 0
    sp = L["spec"]
    ctx.cov(k, len(sp["endo"]), len(sp["nodes"]), tuple(sorted(len(p) for p in sp["pa"].values())), sc["max_iter"], len(L["rows"]), bool(tr), sc["parallel"])


def judge_em(ctx, em, base, L, max_iter, what):
    ev = em.model_evolution
    ctx.check(len(ev) - 1 <= max_iter, "limit", f"{what}: {len(ev) - 1} iterations, limit {max_iter}")
    prev, ll_prev, frozen = None, None, set()
    for j, m in enumerate(ev):
        t = LN.read_tables(ctx, m, L, f"{what} iteration {j}")
        LN.check_valid(ctx, t, base, L, f"{what} iteration {j}")
        ll = LN.loglik(t, L)
        if prev is not None:
            ctx.check(ll >= ll_prev - 1e-7 * max(1.0, abs(ll_prev)), "likelihood", f"{what} iteration {j}: log-likelihood {ll_prev} -> {ll}")
            if math.isfinite(ll_prev):
                e = LN.em_step(prev, L)
                for u in LN.trainable_of(L):
                    d = float(abs(t[u] - e[u]).max())
                    move = float(abs(t[u] - prev[u]).max())
                    if u not in frozen:
                        ctx.check(d <= 1e-7, "not-an-em-step", f"{what} iteration {j}: {u} is {t[u].tolist()}, the expected frequencies are {e[u].tolist()}")
                    if move < 1e-6:
                        frozen.add(u)
        else:
            ctx.check(LN.table_diff(t, base) <= 1e-12, "start", f"{what}: the evolution does not begin with the start")
        prev, ll_prev = t, ll
    t = LN.read_tables(ctx, em.model, L, f"{what} result")
    ctx.check(LN.table_diff(t, prev) <= 1e-12, "result", f"{what}: the model is not the last one of the evolution")
    ctx.log(what, len(ev), LN.fp(t))


def judge_gd(ctx, gl, base, L, max_iter, what):
    t = LN.read_tables(ctx, gl.model, L, f"{what} result")
    LN.check_valid(ctx, t, base, L, f"{what} result", tol=1e-6)
    for u in LN.trainable_of(L):
        tr = getattr(gl.model.factors[u], "trajectory", None)
        if tr is not None and max_iter < float("inf"):
            ctx.check(len(tr) <= max_iter, "limit", f"{what}: {len(tr)} optimiser iterations, limit {max_iter}")
    l0, l1 = LN.loglik(base, L), LN.loglik(t, L)
    ctx.stat("gd likelihood " + ("gained" if l1 > l0 else "not gained"))
    ctx.check(l1 >= l0 - 1e-4 * max(1.0, abs(l0)), "likelihood", f"{what}: log-likelihood of the start {l0}, of the result {l1}")
    ctx.log(what, LN.fp(t, 6))
