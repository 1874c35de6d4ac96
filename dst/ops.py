"""A catalogue of library operations over one shared world (model, data, starts), with canonical results.
Used by the checks on concurrency (C08), side effects (C05) and reproducibility (C15)."""
import os

import numpy as np

from . import causal as C, lib, learn as LN, ref as R, spec as S
from .checks import c06, c09

QUERY = ("ve", "ve", "laplace", "causal", "multi", "factors")
DERIVE = ("intervention", "rename", "copy", "to_bnet", "to_multinomial", "from_model", "pgmpy", "minimalize", "conversion", "fusion")
LEARN = ("em", "gd")
RANDOM = ("sample", "randomize", "agg_em", "agg_gd", "emcc", "fill", "bnfill", "fsample", "endosample")
IO = ("save", "saveread")
INFO = ("loglik", "qfact", "info", "counts")
FIXED = QUERY + DERIVE + LEARN + IO + INFO          # use no randomness


def gen_world(rng, gd=True):
    L = LN.gen_learn(rng, gd=gd, small=rng.random() < 0.5, max_rows=14, obs_exo=False)
    L["trainable"] = None
    spec = L["spec"]
    return {"L": L, "start": LN.gen_start(rng, L), "pool": [c09.variant(rng, spec, False) for _ in range(rng.randint(2, 3))],
            "full": lib.sample_rows(rng, spec, rng.choice([3, 10, 20])), "gd": gd, "vtype": rng.choice(lib.VTYPES)}


def gen_op(rng, W, kinds):
    L, spec = W["L"], W["L"]["spec"]
    ref = R.Ref(spec)
    for _ in range(30):
        k = rng.choice(kinds)
        if k == "ve":
            return {"k": k, "q": c06.gen_query(rng, spec, ref), "heur": rng.choice(lib.HEUR), "on": rng.choice(["model", "bn", "alt"])}
        if k == "laplace":
            return {"k": k, "q": c06.gen_query(rng, spec, ref, list(spec["nodes"]), W["full"]), "pre": rng.random() < 0.6}
        if k == "causal":
            q = C.gen_causal(rng, spec, ref, worlds=2)
            if q:
                return {"k": k, "q": q, "alt": rng.random() < 0.3}
            continue
        if k in ("factors", "fsample", "counts", "endosample"):
            return {"k": k, "v": rng.randrange(1 << 20), "n": rng.choice([1, 3, 8])}
        if k == "multi":
            q = C.gen_causal(rng, spec, ref, worlds=2, ref_list=[R.Ref(s) for s in W["pool"]], kinds=("causal", "cf", "pn", "pns"))
            if q:
                return {"k": k, "q": q, "interval": rng.random() < 0.7, "add": rng.random() < 0.4}
            continue
        if k == "gd" and not W["gd"] or k == "agg_gd" and not W["gd"]:
            continue
        if k in ("em", "gd", "agg_em", "agg_gd", "emcc"):
            return {"k": k, "max_iter": rng.choice([1, 2, 3]), "n": rng.randint(1, 3), "parallel": rng.random() < 0.5,
                    "tv": rng.random() < 0.5}
        if k in ("intervention", "minimalize"):
            v = rng.choice(spec["endo"])
            t = rng.choice(spec["nodes"])
            return {"k": k, "do": {v: rng.choice(spec["dom"][v])}, "t": t}
        if k == "rename":
            return {"k": k, "suffix": rng.choice(["_a", "x"])}
        if k == "sample":
            return {"k": k, "n": rng.choice([1, 4, 9]), "on": rng.choice(["model", "bn"]), "pandas": rng.random() < 0.7}
        if k == "randomize":
            return {"k": k, "vars": lib.pick_subset(rng, [v for v in spec["nodes"] if v not in spec["endo"]], 1, 2), "zero": rng.random() < 0.5}
        if k in ("save", "saveread"):
            return {"k": k, "fmt": rng.choice(["uai", "uai", "bif", "xmlbif"]), "on": rng.choice(["model", "bn"])}
        return {"k": k}
    return {"k": "copy"}


class World:
    def __init__(self, W, scratch=None):
        self.W = W
        L = W["L"]
        self.L, self.spec = L, L["spec"]
        self.model = S.build(self.spec)
        self.bn = self.model.to_bnet()
        self.prior = LN.start_model(L, W["start"])
        self.alt = S.build(self.spec, W.get("vtype"))            # the same model in another storage
        self.pool = [S.build(s) for s in W["pool"]]
        self.data = LN.data_frame(L)
        self.full = lib.frame(self.spec["nodes"], W["full"])
        self.domains = {v: list(d) for v, d in self.spec["dom"].items()}
        self.scratch = scratch
        self.trainable = [v for v in self.spec["nodes"] if v not in self.spec["endo"]]

    def inputs_fp(self):
        """content of everything the caller handed over or keeps"""
        return {"model": lib.model_fp(self.model), "bn": lib.model_fp(self.bn), "alt": lib.model_fp(self.alt), "prior": lib.model_fp(self.prior),
                "models": tuple(lib.model_fp(m) for m in self.pool), "data": lib.df_fp(self.data), "full data": lib.df_fp(self.full),
                "domains": repr(self.domains), "trainable": tuple(self.trainable)}


def canon_factor(f, nd=8):
    if type(f).__name__ == "DeterministicFactor":
        f = f.to_multinomial()
    vs = sorted(f.variables)
    dom = {v: list(f.domain[v]) for v in vs}
    return [vs, sorted(f.left_vars), {v: [str(x) for x in dom[v]] for v in vs}, np.round(R.factor_array(f, vs, dom), nd).ravel().tolist()]


def canon_model(m, nd=8):
    return {"nodes": sorted(map(str, m.graph.nodes)), "edges": sorted([str(a), str(b)] for a, b in m.graph.edges), "type": type(m).__name__,
            "endo": sorted(getattr(m, "endogenous", [])), "factors": {str(v): canon_factor(m.factors[v], nd) for v in sorted(m.variables)}}


def canon_answer(ans, q, nd=8):
    if isinstance(ans, (list, tuple)):
        return [canon_answer(a, q, nd) for a in ans]
    if np.isscalar(ans):
        return round(float(ans), nd)
    if hasattr(ans, "store_low"):
        vs = sorted(ans.variables)
        dom = {v: list(ans.domain[v]) for v in vs}
        import itertools
        out = []
        for pos in itertools.product(*[range(len(dom[v])) for v in vs]):
            obs = {v: dom[v][i] for v, i in zip(vs, pos)}
            out.append([round(float(ans.store_low.get_value(**obs)), nd), round(float(ans.store_up.get_value(**obs)), nd)])
        return [vs, out]
    return canon_factor(ans, nd)


def run_op(w, op, tag, own=None):
    """perform the operation with engines of its own over the shared objects; canonical result (or validity data for random ones)"""
    k, spec, L = op["k"], w.spec, w.L
    if k == "ve":
        from bcause.inference.probabilistic.elimination import VariableElimination
        h = lib.heuristic(op["heur"])
        m = {"model": w.model, "alt": w.alt}.get(op["on"], w.bn)
        e = VariableElimination(m, h) if h is not None else VariableElimination(m)
        return canon_nan(c06.call(e, op["q"]))
    if k == "laplace":
        from bcause.inference.probabilistic.datainference import LaplaceInference
        return canon_nan(c06.call(LaplaceInference(w.full, w.domains, preprocess_flag=op["pre"]), op["q"]))
    if k == "causal":
        from bcause.inference.causal.elimination import CausalVariableElimination
        return canon_answer(C.call(CausalVariableElimination(w.alt if op.get("alt") else w.model), op["q"]), op["q"])
    if k == "multi":
        from bcause.inference.causal.multi import CausalMultiInference
        if op["add"]:
            inf = CausalMultiInference([], interval_result=op["interval"])
            inf.set_models(w.pool)
            inf.add_models(w.pool)
        else:
            inf = CausalMultiInference(w.pool, interval_result=op["interval"])
        return canon_answer(C.call(inf, op["q"]), op["q"])
    tv = w.trainable if op.get("tv") else None
    if k == "em":
        from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
        em = ExpectationMaximization(w.prior, trainable_vars=tv)
        em.run(w.data, max_iter=op["max_iter"])
        return [canon_model(m, 7) for m in em.model_evolution]
    if k == "gd":
        from bcause.learning.parameter.gradient import GradientLikelihood
        g = GradientLikelihood(w.prior, trainable_vars=tv, tol=1e-3)
        g.run(w.data, max_iter=op["max_iter"] + 2)
        return canon_model(g.model, 5)
    if k == "agg_em" or k == "agg_gd":
        from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM, SimpleModelAggregatorGD
        if k == "agg_em":
            a = SimpleModelAggregatorEM(w.model, w.data, trainable_vars=tv, max_iter=op["max_iter"], parallel=op["parallel"])
        else:
            a = SimpleModelAggregatorGD(w.model, w.data, 1e-3, op["max_iter"] + 2, trainable_vars=tv, parallel=op["parallel"])
        a.run(op["n"])
        return [canon_model(m, 5) for m in a.models]
    if k == "emcc":
        from bcause.inference.causal.multi import EMCC
        e = EMCC(w.model, w.data, max_iter=op["max_iter"], num_runs=op["n"], parallel=op["parallel"])
        e.compile()
        t, d = spec["endo"][-1], spec["endo"][0]
        return [canon_model(m, 5) for m in e.models] + [canon_answer(e.causal_query(t, do=lib.keep({d: spec["dom"][d][0]})), None, 5) if t != d else None]
    if k == "intervention":
        return canon_model(w.model.intervention(**op["do"]))
    if k == "rename":
        return canon_model(w.model.rename_vars(lib.keep({v: v + op["suffix"] for v in spec["nodes"]})))
    if k == "copy":
        return [canon_model(w.model.copy()), canon_model(w.bn.copy())]
    if k == "to_bnet":
        return canon_model(w.model.to_bnet())
    if k == "to_multinomial":
        return canon_model(w.model.to_multinomial())
    if k == "from_model":
        from bcause.models.cmodel import StructuralCausalModel
        return canon_model(StructuralCausalModel.from_model(w.model))
    if k == "pgmpy":
        from bcause.conversion.pgmpy import toPgmpyBNet, toBCauseBNet
        return canon_model(toBCauseBNet(toPgmpyBNet(w.bn)))
    if k == "conversion":
        from bcause.models.transform.conversion import causal_to_bnet
        return canon_model(causal_to_bnet(w.model))
    if k == "fusion":
        from bcause.models.transform.combination import fusion_roots
        m2 = w.model.rename_vars({v: (v + "_9" if v in spec["endo"] else v) for v in spec["nodes"]})
        return canon_model(fusion_roots([w.model, m2], on=w.model.exogenous, endogenous=w.model.endogenous + m2.endogenous))
    if k == "minimalize":
        from bcause.models.transform.simplification import minimalize
        if op["t"] in op["do"]:
            return None
        m = minimalize(w.bn, op["t"], lib.keep(dict(op["do"])))
        return {v: canon_factor(m.factors[v]) for v in sorted(m.variables)}
    if k == "sample":
        m = w.model if op["on"] == "model" else w.bn
        d = m.sample(op["n"], as_pandas=op["pandas"])
        recs = d.to_dict("records") if op["pandas"] else d
        return [{v: r[v] for v in spec["nodes"]} for r in recs]
    if k == "randomize":
        m = w.model.randomize_factors(lib.keep(list(op["vars"])), allow_zero=op["zero"])
        return canon_model(m, 12)
    if k == "factors":
        import random
        r = random.Random(op["v"])
        out = []
        for v in r.sample(list(spec["nodes"]), min(3, len(spec["nodes"]))):
            f = w.alt.factors[v]
            if type(f).__name__ == "DeterministicFactor":
                f = f.to_multinomial()
            vs = list(f.variables)
            ob = {x: r.choice(spec["dom"][x]) for x in spec["nodes"] if x in vs and r.random() < 0.5}      # any order of the variables
            if len(ob) == len(vs):
                ob.pop(v)
            out.append(canon_factor(f.restrict(**ob)))
            out.append(canon_factor(f.marginalize(v)) if len(vs) > 1 else None)
            try:
                out.append(canon_factor(f.maxmarginalize(v)) if len(vs) > 1 else None)
            except NotImplementedError:      # not for every storage
                out.append("none")
            g = w.alt.factors[r.choice(list(spec["nodes"]))]
            if type(g).__name__ == "DeterministicFactor":
                g = g.to_multinomial()
            out.append(canon_factor(f.multiply(g)))
        return out
    if k == "counts":
        from bcause.util.datautils import to_counts, filter_data
        import random
        r = random.Random(op["v"])
        vs = r.sample(list(spec["nodes"]), r.randint(1, len(spec["nodes"])))
        d = filter_data(w.full, {v: w.full[v].iloc[0] for v in vs[:1]})
        return [canon_factor(to_counts({v: w.domains[v] for v in vs}, w.full, normalize=bool(op["v"] & 1))), len(d), sorted(map(str, d.index))]
    if k == "fsample":
        kids = [v for v in spec["nodes"] if spec["pa"][v]]
        v = (kids or list(spec["nodes"]))[op["v"] % len(kids or spec["nodes"])]
        m = w.bn if op["v"] & 256 else w.model
        if not spec["pa"][v]:
            return [v, [[{}, x] for x in m.factors[v].sample(op["n"])]]
        obs = obs_of(spec, v, op["v"], op["n"])
        f = m.factors[v]
        if type(f).__name__ == "DeterministicFactor":
            f = f.to_multinomial()
        return [v, [[o, x] for o, x in zip(obs, f.sample_conditional([dict(o) for o in obs]))]]
    if k == "endosample":
        return [dict(x) for x in w.model.sampleEndogenous(op["n"]).to_dict("records")]
    if k == "fill":
        from bcause.models.cmodel import StructuralCausalModel
        m = StructuralCausalModel(S.graph_of(spec))
        m.fill_random_factors(w.domains)
        return canon_model(m, 12)
    if k == "bnfill":
        from bcause.models import BayesianNetwork
        m = BayesianNetwork(S.graph_of(spec))
        m.randomize_factors(w.domains)
        return canon_model(m, 12)
    if k in ("save", "saveread"):
        d = os.path.join(w.scratch, tag)
        os.makedirs(d, exist_ok=True)
        m = w.model if op["on"] == "model" and op["fmt"] == "uai" else w.bn
        p = os.path.join(d, "m." + op["fmt"])
        m.save(p)
        with open(p) as f:
            text = f.read()
        if k == "save":
            return text
        r = type(m).read(p)
        return [text, canon_model(r, 7)]
    if k == "loglik":
        return [round(float(w.model.log_likelihood(w.data[spec["endo"]])), 6) if positive(w) else None]
    if k == "qfact":
        return {v: canon_nan(f) for v, f in sorted(w.model.get_qfactorisation().items())}
    if k == "info":
        return [sorted(map(sorted, map(lambda s: list(map(str, s)), w.model.ccomponents))), sorted(map(list, w.model.qgraph.edges)), repr(w.model),
                {v: sorted(w.model.markov_blanket(v)) for v in spec["nodes"]}, w.model.get_dag_str()]
    raise ValueError(k)


def obs_of(spec, v, k, n):
    import random
    r = random.Random(k)
    pa = list(spec["pa"][v])
    return [{p: r.choice(spec["dom"][p]) for p in pa} for _ in range(n)]


def positive(w):
    ref = R.Ref(w.spec)
    return all(ref.endo_prob(dict(zip(w.L["cols"], r))) > 1e-12 for r in w.L["rows"])


def canon_nan(f, nd=8):
    c = canon_factor(f, nd)
    c[3] = [None if x != x else x for x in c[3]]
    return c


def same_result(a, b, tol=1e-6):
    """compare canonical results"""
    if isinstance(a, float) or isinstance(b, float):
        if a is None or b is None:
            return a is b
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= tol
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same_result(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same_result(x, y, tol) for x, y in zip(a, b))
    return a == b


def judge_random(ctx, w, op, res, what):
    """validity of the results of operations that use randomness (shared between threads)"""
    spec, k = w.spec, op["k"]
    ref = R.Ref(spec)
    if k == "sample":
        ctx.check(len(res) == op["n"], "sample", f"{what}: {len(res)} records instead of {op['n']}")
        for r in res:
            p = 1.0
            for v in spec["nodes"]:
                t = ref.tables[v]
                for x in spec["pa"][v]:
                    t = t[ref.idx(x, r[x])]
                p *= float(t[ref.idx(v, r[v])])
            ctx.check(p > 0, "sample", f"{what}: impossible record {r}")
        return
    if k == "endosample":
        ctx.check(len(res) == op["n"], "sample", f"{what}: {len(res)} records instead of {op['n']}")
        for r in res:
            ctx.check(set(r) == set(spec["endo"]) and ref.endo_prob(r) > 0, "sample", f"{what}: impossible record {r}")
        return
    if k == "fsample":
        v, recs = res
        ctx.check(len(recs) == op["n"], "sample", f"{what}: {len(recs)} records instead of {op['n']}")
        for o, x in recs:
            t = ref.tables[v]
            for p in spec["pa"][v]:
                t = t[ref.idx(p, o[p])]
            ctx.check(set(x) == {v} and float(t[ref.idx(v, x[v])]) > 0, "sample", f"{what}: impossible state {x} given {o}")
        return
    ms = {"randomize": [res], "fill": [res], "bnfill": [res]}.get(k) or [m for m in res if isinstance(m, dict)]
    if k in ("agg_em", "agg_gd", "emcc"):
        ctx.check(len(ms) == op["n"], "count", f"{what}: {len(ms)} models instead of {op['n']}")
    base = canon_model(w.model, 12)
    vs = set(op.get("vars", w.trainable))
    for m in ms:
        ctx.check(m["edges"] == base["edges"] and m["nodes"] == base["nodes"], "structure", f"{what}: structure changed")
        for v in spec["nodes"]:
            x = np.array(m["factors"][v][3])
            if v in vs and k not in ("fill", "bnfill"):
                ctx.check(np.isfinite(x).all() and (x >= 0).all() and abs(x.sum() - 1) < 1e-3, "improper", f"{what}: {v}: {x.tolist()}")
            elif k not in ("fill", "bnfill"):
                ctx.check(np.abs(x - np.array(base["factors"][v][3])).max() < 1e-6, "touched", f"{what}: {v} changed")
            else:
                ctx.check(np.isfinite(x).all() and (x >= 0).all(), "improper", f"{what}: {v}: {x.tolist()}")
