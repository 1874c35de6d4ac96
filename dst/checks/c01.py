"""C01: parallel learning equals sequential learning under every schedule."""
from .. import lib, learn as LN, causal as C, ref as R
from ..core import Violation

SHRINK = [["runs"], ["L", "rows"]]
TIMEOUT = 100.0


def gen(rng, i, tier):
    kind = rng.choice(["agg_em", "agg_em", "agg_gd", "emcc", "emcc_inc", "gdcc"])
    gd = kind in ("agg_gd", "gdcc")
    L = LN.gen_learn(rng, gd=gd, small=rng.random() < 0.7, max_rows=12, obs_exo=False)
    if kind not in ("agg_em", "agg_gd"):
        L["trainable"] = None
    n = [rng.randint(2, 5) for _ in range(rng.choice([1, 1, 2]))]
    if kind in ("emcc", "emcc_inc", "gdcc"):
        n = [rng.randint(2, 5)]
    return {"kind": kind, "L": L, "start": LN.gen_start(rng, L), "runs": n, "step": rng.randint(2, 3), "max_iter": rng.choice([1, 2, 3, 5]),
            "tol": rng.choice([1e-3, 1e-6]), "seed": rng.randrange(10 ** 6), "workers": rng.choice([2, 2, 3, 4, 6]), "sched": lib.gen_sched(rng, est=200000)}


def learn(sc, parallel, ctx):
    import bcause as bc
    from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM, SimpleModelAggregatorGD
    from bcause.inference.causal.multi import EMCC, GDCC
    L = sc["L"]
    prior = LN.start_model(L, sc["start"])
    data = LN.data_frame(L)
    tr = list(L["trainable"]) if L["trainable"] else None
    bc.randomUtil.seed(sc["seed"])
    k = sc["kind"]
    what = f"{k} {'in parallel' if parallel else 'sequentially'}"
    if k == "agg_em":
        a = SimpleModelAggregatorEM(prior, data, trainable_vars=tr, max_iter=sc["max_iter"], parallel=parallel)
    elif k == "agg_gd":
        a = SimpleModelAggregatorGD(prior, data, sc["tol"], sc["max_iter"] + 3, trainable_vars=tr, parallel=parallel)
    elif k in ("emcc", "emcc_inc"):
        a = EMCC(prior, data, max_iter=sc["max_iter"], num_runs=sc["runs"][0], parallel=parallel)
    else:
        a = GDCC(prior, data, num_runs=sc["runs"][0], tol=sc["tol"], max_iter=sc["max_iter"] + 3, parallel=parallel)
    if k.startswith("agg"):
        for n in sc["runs"]:
            ctx.must(what, a.run, n)
        recs = [[LN.read_tables(ctx, m, L, what) for m in o.model_evolution] for o in a.learn_objects]
    elif k == "emcc_inc":
        def drain():
            for _ in a.compile_incremental(step_runs=sc["step"]):
                pass
        ctx.must(what, drain)
        recs = None
    else:
        ctx.must(what, a.compile)
        recs = None
    return [LN.read_tables(ctx, m, L, what) for m in a.models], recs


def execute(sc, ctx):
    LN.set_workers(sc["workers"])
    seq, srec = learn(sc, False, ctx)
    with ctx.kernel(sc["sched"], budget=60_000_000) as kn:
        par, prec = learn(sc, True, ctx)
    tol = 1e-9 if sc["kind"] not in ("agg_gd", "gdcc") else 1e-7
    ctx.check(len(seq) == len(par), "count", f"{len(par)} models in parallel, {len(seq)} sequentially")
    for i, (a, b) in enumerate(zip(seq, par)):
        if LN.table_diff(a, b) > tol:
            where = [j for j, c in enumerate(seq) if LN.table_diff(c, b) <= tol]
            ctx.violate("differs", f"model {i} of {len(seq)} learned in parallel is " + (f"the sequential model {where[0]}" if where else "none of the sequential models")
                        + f": {LN.fp(b, 6)} instead of {LN.fp(a, 6)}")
    if srec is not None:
        ctx.check([len(x) for x in srec] == [len(x) for x in prec], "records", f"evolutions of {[len(x) for x in prec]} models, sequentially {[len(x) for x in srec]}")
        for i, (x, y) in enumerate(zip(srec, prec)):
            for j, (a, b) in enumerate(zip(x, y)):
                ctx.check(LN.table_diff(a, b) <= tol, "records", f"record {i}, iteration {j} differs from the sequential one")
    ctx.nontrivial = len(kn.threads) > 1 and kn.switches + kn.forced > 0
    ctx.log([LN.fp(t, 8) for t in par])
    ctx.cov(sc["kind"], sc["workers"], len(seq))
