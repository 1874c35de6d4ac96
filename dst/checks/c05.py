"""C05: inputs and process-wide state are left as found, for completed, failed, interrupted and concurrent calls."""
import threading

from .. import lib, learn as LN, ops as O, ref as R, spec as S
from ..core import Violation, Inconclusive

SHRINK = [["ops"]]
TIMEOUT = 100.0
SCRATCH = True

OWN = ("frame", "factor", "query_args", "read_args", "stores", "utils")
ALL = O.FIXED + O.RANDOM + OWN


def gen(rng, i, tier):
    W = O.gen_world(rng, gd=rng.random() < 0.6)
    mode = rng.choice(["seq", "seq", "par"])
    ops = []
    for _ in range(rng.randint(2, 6) if mode == "seq" else rng.randint(2, 4)):
        r = rng.random()
        k = rng.choice(("frame", "factor", "query_args", "query_args", "read_args", "badcall", "badcall", "stores", "utils")) if r < 0.4 else None
        op = {"k": k, "v": rng.randrange(1 << 20)} if k else O.gen_op(rng, W, O.FIXED + O.RANDOM)
        f = None
        if rng.random() < 0.4:
            f = {"call": lib.gen_call(rng, [30, 300, 2000, 9000]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"]) if mode == "seq" else "MemoryError"}
        ops.append({"op": op, "fault": f})
    return {"W": W, "mode": mode, "ops": ops, "workers": rng.choice([2, 3]), "filters": rng.choice(["none", "error", "custom"]), "err": rng.choice(["warn", "warn", "ignore"]),
            "sched": lib.gen_sched(rng, est=60000), "chdir": rng.random() < 0.5}


def run(w, op, tag, own):
    k = op["k"]
    if k == "frame":
        import pandas as pd
        from bcause.factors import DeterministicFactor
        v = w.spec["endo"][op["v"] % len(w.spec["endo"])]
        if not w.spec["pa"][v]:
            return None
        f = DeterministicFactor.from_data_frame(own["frame"], own["fdomains"], own["fleft"])
        return O.canon_factor(f)
    if k == "factor":
        from bcause.factors import MultinomialFactor
        f = MultinomialFactor(own["dom"], own["values"], left_vars=own["left"])
        g = f.marginalize(list(own["dom"])[0])
        h = f.divide(g)
        f.restrict(**own["obs"])
        f * g, f + f, f - f
        return O.canon_nan(h)
    if k == "query_args":
        from bcause.inference.probabilistic.elimination import VariableElimination
        from bcause.inference.causal.elimination import CausalVariableElimination
        from bcause.inference.causal.multi import CausalMultiInference
        from bcause.inference.probabilistic.datainference import LaplaceInference
        VariableElimination(w.model).query(own["targets"], evidence=own["evidence"])
        VariableElimination(w.bn).query(own["targets"], conditioning=own["cond"], evidence=own["noev"])
        LaplaceInference(w.full, own["domains"]).query(own["targets"], evidence=own["noev"])
        # one engine asked again and again
        for e in (VariableElimination(w.model), LaplaceInference(w.full, own["domains"])):
            for ev in (own["evidence"], own["ev2"], own["noev"], own["evidence"]):
                try:
                    e.query(own["targets"], evidence=ev)
                except ZeroDivisionError:
                    pass                 # no such record in the data
            e.query(own["targets"], conditioning=own["cond"], evidence=own["noev"])
        one = CausalVariableElimination(w.model)
        one.causal_query(own["targets"], do=own["do"], evidence=own["noev"])
        for e in (one, CausalMultiInference(own["pool"], interval_result=op["v"] % 2 == 0), CausalMultiInference(own["pool"], interval_result=op["v"] % 2 == 1)):
            e.counterfactual_query(own["targets"], do=own["dos"], targets_subgraphs=own["subs"], evidence=own["evidence"])
            e.counterfactual_query(own["targets"], do=own["do"], evidence=own["evidence"])
            if own["do2"]:
                e.causal_query(own["targets"], do=own["do2"], evidence=own["evidence"])
        return None
    if k == "read_args":
        import os
        from bcause.readwrite import bnread
        d = os.path.join(w.scratch, tag)
        os.makedirs(d, exist_ok=True)
        for j, fmt in enumerate(("bif", "xmlbif")):
            p = os.path.join(d, "m." + fmt)
            w.bn.save(p)
            vt = lib.VTYPES[(op["v"] + j) % len(lib.VTYPES)]
            r = getattr(bnread, "from_" + fmt)(p, vtype=vt)
            w.model.save(os.path.join(d, "m.uai"), **own["save"])
            type(w.model).read(os.path.join(d, "m.uai"))
            f = r.factors[own["targets"][0]]
            got = getattr(f, "vtype", vt)
            if got != vt:
                raise Violation("wrong-storage", f"a {fmt} file read as {vt} has factors stored as {got}")
        return None
    if k == "stores":
        # models held in another storage than the default one
        import os
        from bcause.inference.probabilistic.elimination import VariableElimination
        from bcause.inference.causal.elimination import CausalVariableElimination
        from bcause.factors.mulitnomial import uniform_multinomial, canonical_multinomial
        from bcause.factors.values.store import DataStore
        vt = [x for x in lib.VTYPES if x != DataStore.DEFAULT_STORE][op["v"] % (len(lib.VTYPES) - 1)]
        m = S.build(dict(w.spec, vtype=vt, det=bool(op["v"] & 64)))
        d = os.path.join(w.scratch, tag)
        os.makedirs(d, exist_ok=True)
        b = m.to_bnet()
        m.copy(), m.to_multinomial(), b.copy(), m.intervention(**own["do"])
        VariableElimination(b).query(own["targets"], evidence=own["evidence"])
        CausalVariableElimination(m).counterfactual_query(own["targets"], do=own["do"])
        for x, n in ((m, "m.uai"), (b, "b.uai"), (b, "b.bif"), (m, "m.xmlbif")):
            x.save(os.path.join(d, n))
            type(x).read(os.path.join(d, n))
        uniform_multinomial(own["dom"], right_vars=["B"], vtype=vt)
        return None
    if k == "utils":
        # helpers called with the caller's own frames and domains
        from bcause.util.datautils import to_counts, filter_data
        from bcause.util.datadeps import DataDepAnalysis
        from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
        sdom = {v: [str(x) for x in d] for v, d in own["domains"].items()}
        cols = list(own["holes"].columns)
        b = repr(sdom)
        to_counts({v: sdom[v] for v in cols}, own["holes"], normalize=bool(op["v"] & 1))
        cdom = {v: sdom[v] for v in cols}
        c = repr(cdom)
        to_counts(cdom, own["holes"])
        if repr(sdom) != b or repr(cdom) != c:
            raise Violation("inputs-changed", f"to_counts changed the caller's domains {c[:150]} to {repr(own['cdom'])[:150]}")
        filter_data(own["holes"], {cols[0]: sdom[cols[0]][0]})
        for u in w.trainable:
            DataDepAnalysis(w.model.graph, own["unsorted"]).get_minimal_obs_blanket(u)
        em = ExpectationMaximization(w.prior, trainable_vars=w.trainable)
        em.run(own["unsorted"], max_iter=1)
        em.step(own["unsorted"])
        return None
    if k == "badcall":
        from bcause.inference.probabilistic.elimination import VariableElimination
        import os
        from bcause.readwrite import bnread
        from bcause.factors import MultinomialFactor
        from bcause.inference.causal.elimination import CausalVariableElimination
        from bcause.inference.causal.multi import CausalMultiInference
        j = op["v"] % 16
        d = os.path.join(w.scratch, tag)
        os.makedirs(d, exist_ok=True)
        try:
            if j == 0:
                VariableElimination(w.model).query(["Nope"], evidence=own["evidence"])
            elif j == 1:
                w.model.intervention(Nope=1)
            elif j == 2:
                w.model.save(w.scratch + "/nodir/x.uai")
            elif j == 3:
                w.bn.save(w.scratch + "/x.unknown")
            elif j == 4:
                type(w.bn).read(w.scratch + "/missing.bif")
            elif j == 5:
                from bcause.learning.parameter.gradient import GradientLikelihood
                GradientLikelihood(w.prior, trainable_vars=list(w.spec["endo"])).run(w.data, max_iter=1)
            elif j in (6, 7, 8, 9):
                fmt = ("bif", "xmlbif", "uai", "bif")[j - 6]
                p = os.path.join(d, "m." + fmt)
                w.bn.save(p)
                with open(p) as f:
                    text = f.read()
                with open(p, "w") as f:
                    f.write("" if j == 9 else text[: len(text) * (1 + (op["v"] >> 4) % 9) // 10])
                if fmt == "uai":
                    type(w.bn).read(p)
                else:
                    getattr(bnread, "from_" + fmt)(p, vtype=lib.VTYPES[(op["v"] >> 4) % len(lib.VTYPES)])
            elif j == 10:
                MultinomialFactor(own["dom"], [0.1, 0.2], left_vars=own["left"], vtype=lib.VTYPES[(op["v"] >> 4) % len(lib.VTYPES)])
            elif j == 11:
                CausalVariableElimination(w.model).counterfactual_query(own["targets"], do=own["dos"], targets_subgraphs=[5], evidence=own["evidence"])
            elif j == 14:
                VariableElimination(w.model).query(own["targets"], evidence=own["none"])
            elif j == 15:
                CausalVariableElimination(w.model).causal_query(own["targets"], do=own["do"], evidence=own["none"])
            elif j == 12:
                CausalMultiInference(own["pool"]).counterfactual_query(["Nope"], do=own["do"], evidence=own["evidence"])
            else:
                w.model.set_factor(own["targets"][0], MultinomialFactor(own["dom"], own["values"], left_vars=own["left"]))
        except Exception:
            pass
        return None
    return O.run_op(w, op, tag)


def own_args(w, sc):
    """arguments the caller builds and keeps"""
    import numpy as np
    spec = w.spec
    v = next((x for x in spec["endo"] if spec["pa"][x]), None)
    cols = list(spec["pa"][v]) + [v]
    import itertools
    rows = []
    doms = [spec["dom"][p] for p in spec["pa"][v]]
    for n, c in enumerate(itertools.product(*doms)):
        rows.append(list(c) + [spec["dom"][v][spec["tab"][v][n]]])
    rows.reverse()
    e0, e1 = spec["endo"][0], spec["endo"][-1]
    dom = {"A": ["a", "b"], "B": [0, 1, 2]}
    ref = R.Ref(spec)
    pool = [R.Ref(x) for x in sc["W"]["pool"]]
    ev = {}
    for s in spec["dom"][e0]:
        if all(r.prob_evidence({e0: s}) > 1e-6 for r in [ref] + pool):
            ev = {e0: s}
    # a third variable to intervene on together with the evidence on the first one
    do2 = {}
    for y in spec["endo"]:
        if y not in (e0, e1) and not do2:
            for x in spec["dom"][y]:
                if ev and all(r.prob_evidence(ev, {y: x}) > 1e-6 for r in [ref] + pool):
                    do2 = {y: x}
    ev2 = dict(ev)
    t = e1 if e1 != e0 else (spec["nodes"][0] if spec["nodes"][0] != e0 else spec["nodes"][1])
    for y in spec["nodes"]:
        if y not in (t, e0) and len(ev2) < 2 and ev:
            for x in spec["dom"][y]:
                if len(ev2) < 2 and ref.prob_evidence(dict(ev, **{y: x})) > 1e-6:
                    ev2[y] = x
    return {"frame": lib.frame(cols, rows), "fdomains": {x: list(spec["dom"][x]) for x in cols}, "fleft": v,
            "dom": dom, "values": np.array([[0.5, 0.0, 0.2], [0.3, 0.0, 0.0]]), "left": ["A"], "obs": {"B": 1},
            "targets": [e1] if e1 != e0 else [spec["nodes"][0] if spec["nodes"][0] != e0 else spec["nodes"][1]],
            "evidence": ev, "cond": [e0] if e1 != e0 else [], "domains": {v: list(d) for v, d in spec["dom"].items()},
            "pool": list(w.pool), "none": {e0: None}, "holes": holes(w), "unsorted": w.data.iloc[::-1], "do2": do2, "ev2": ev2, "save": {"var_order": list(w.model.endogenous) + list(w.model.exogenous)},
            "do": {e0: spec["dom"][e0][0]}, "dos": [{e0: spec["dom"][e0][0]}], "subs": [1], "noev": {}}


def holes(w):
    """a data frame with missing values over variables with states that are strings"""
    d = w.full.astype(str).astype(object)
    for j in range(len(d)):
        d.iloc[j, j % len(d.columns)] = None if j % 2 else d.iloc[j, j % len(d.columns)]
    return d


def own_fp(own):
    return {k: (lib.df_fp(v) if k in ("frame", "holes", "unsorted") else (v.tolist() if k == "values" else [id(x) for x in v] if k == "pool" else repr(v))) for k, v in own.items()}


def execute(sc, ctx):
    import os
    import warnings
    import numpy as np
    LN.set_workers(sc["workers"])
    w = O.World(sc["W"], ctx.scratch)
    own = own_args(w, sc)
    lib.KEPT = []
    if sc["chdir"]:
        os.chdir(ctx.scratch)
    if sc["filters"] == "custom":
        warnings.filterwarnings("ignore", message="some message of the caller")
        warnings.filterwarnings("default", category=DeprecationWarning, module="mine")
    elif sc["filters"] == "error":
        warnings.filterwarnings("ignore")
    np.seterr(all=sc["err"])
    if sc["mode"] == "seq":
        sequential(sc, ctx, w, own)
    else:
        concurrent(sc, ctx, w, own)
    for x in sc["ops"]:
        ctx.cov(sc["mode"], x["op"]["k"], x["op"].get("parallel"), x["op"].get("fmt"), bool(x["fault"]), sc["filters"], sc["err"])


def compare(ctx, what, b, a):
    d = lib.fp_diff(b[0], a[0])
    ctx.check(not d, "inputs-changed", f"{what} changed the caller's {d}")
    d = lib.fp_diff(b[1], a[1])
    ctx.check(not d, "inputs-changed", f"{what} changed the caller's arguments {d}")
    d = lib.kept_changes()
    ctx.check(not d, "inputs-changed", f"{what} changed the caller's arguments: {'; '.join(d)[:300]}")
    d = lib.fp_diff(b[2], a[2])
    ctx.check(not d, "process-state", f"{what} changed process-wide state: " + "; ".join(f"{k}: {str(b[2].get(k))[:150]} -> {str(a[2].get(k))[:150]}" for k in d))


def sequential(sc, ctx, w, own):
    with ctx.kernel(sc["sched"], budget=100_000_000) as kn:
        for j, x in enumerate(sc["ops"]):
            op, f = x["op"], x["fault"]
            what = f"call {j} {op['k']}"
            b = (w.inputs_fp(), own_fp(own), lib.process_fp(), lib.rng_fp())
            n0 = len(kn.fired)
            if f:
                kn.arm_here(f["exc"], f["call"])
            try:
                run(w, op, f"s{j}", own)
            except (Violation, Inconclusive):
                raise
            except (Exception, KeyboardInterrupt) as e:
                if len(kn.fired) == n0:
                    raise Violation("exception", f"{what} raised {type(e).__name__}: {e}")
                what += f" (cut short by {type(e).__name__})"
                ctx.nontrivial = True
            finally:
                kn.disarm()
            a = (w.inputs_fp(), own_fp(own), lib.process_fp(), lib.rng_fp())
            compare(ctx, what, b, a)
            if op["k"] in O.FIXED or op["k"] in OWN:
                ctx.check(a[3] == b[3], "randomness", f"{what} consumed random numbers")
            ctx.stat("calls examined")
            ctx.log(j, what)
    ctx.nontrivial = True


def concurrent(sc, ctx, w, own):
    b = (w.inputs_fp(), own_fp(own), lib.process_fp(), lib.rng_fp())
    errs = [None] * len(sc["ops"])

    def body(j):
        try:
            run(w, sc["ops"][j]["op"], f"p{j}", own)
        except BaseException as e:
            errs[j] = e
    with ctx.kernel(sc["sched"], budget=100_000_000) as kn:
        ths = [threading.Thread(target=body, args=(j,)) for j in range(len(sc["ops"]))]
        for j, x in enumerate(sc["ops"]):
            if x["fault"]:
                kn.arm({"kind": "raise", "exc": x["fault"]["exc"], "thread": 1 + j, "call": x["fault"]["call"]})
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    for j, e in enumerate(errs):
        if e is not None and "injected" not in str(e) and not (kn.fired and isinstance(e, Exception)):
            raise Violation("exception", f"thread {j} {sc['ops'][j]['op']['k']} raised {type(e).__name__}: {e}")
    a = (w.inputs_fp(), own_fp(own), lib.process_fp(), lib.rng_fp())
    what = "concurrent calls " + ", ".join(x["op"]["k"] for x in sc["ops"])
    compare(ctx, what, b, a)
    if all(x["op"]["k"] in O.FIXED or x["op"]["k"] in OWN for x in sc["ops"]):
        ctx.check(a[3] == b[3], "randomness", f"{what} consumed random numbers")
    ctx.nontrivial = kn.switches > 0
    ctx.log(what, kn.path)
