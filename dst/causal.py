"""Generating, running and judging causal queries (shared by several checks)."""
import numpy as np

from . import lib, ref as R


def mutilate(spec, do):
    """the spec of the intervened model (same endogenous set)"""
    s = dict(spec)
    s["pa"] = {v: ([] if v in do else list(p)) for v, p in spec["pa"].items()}
    s["edge_order"] = [[p, c] for p, c in spec["edge_order"] if c not in do]
    tab = dict(spec["tab"])
    axes = dict(spec["axes"])
    for v, st in do.items():
        i = spec["dom"][v].index(st)
        tab[v] = [i] if v in spec["endo"] else [1.0 if k == i else 0.0 for k in range(len(spec["dom"][v]))]
        axes[v] = [v]
    s["tab"], s["axes"] = tab, axes
    return s


def gen_causal(rng, spec, ref, kinds=("causal", "causal", "cf", "cf", "cf", "pn", "ps", "pns"), exo_ok=True, worlds=3, ref_list=None):
    """a query with evidence of positive probability (in every model of ref_list), or None"""
    refs = ref_list or [ref]
    endo, exo, dom = list(spec["endo"]), [v for v in spec["nodes"] if v not in spec["endo"]], spec["dom"]
    for _ in range(60):
        k = rng.choice(kinds)
        if k == "causal":
            pool = endo + (exo if exo_ok and rng.random() < 0.1 else [])
            dov = lib.pick_subset(rng, pool, 1, rng.choice([2, 2, 3, 4]))
            rest = [v for v in endo + (exo if exo_ok and rng.random() < 0.2 else []) if v not in dov]
            if not rest:
                continue
            t = lib.pick_subset(rng, rest, 1, rng.choice([1, 1, 2]))
            rest = [v for v in rest if v not in t]
            ev = lib.pick_subset(rng, rest, 0, rng.choice([2, 2, 3])) if rng.random() < 0.5 else []
            q = {"k": "causal", "t": t, "do": {v: rng.choice(dom[v]) for v in dov}, "ev": {v: rng.choice(dom[v]) for v in ev}}
            if any(r.prob_evidence(q["ev"], q["do"]) < 1e-9 for r in refs):
                continue
        elif k == "cf":
            nw = rng.choice([1, 1, 2, worlds] if rng.random() < 0.9 else [worlds + 1])
            dos, ts, ws = [], [], []
            for w in range(1, nw + 1):
                dov = lib.pick_subset(rng, endo, 1, rng.choice([2, 2, 3]))
                dos.append({v: rng.choice(dom[v]) for v in dov})
                cand = [v for v in endo if v not in dov]
                if cand and (w == 1 or rng.random() < 0.8):
                    for v in lib.pick_subset(rng, cand, 1, rng.choice([1, 1, 2])):
                        ts.append(v)
                        ws.append(w)
            if not ts or len(ts) > 3:
                continue
            ev = lib.pick_subset(rng, endo, 0, rng.choice([0, 1, 2, 3]))
            if exo_ok and rng.random() < 0.1:
                ev = ev + [rng.choice(exo)]
            q = {"k": "cf", "t": ts, "w": ws, "do": dos, "ev": {v: rng.choice(dom[v]) for v in ev},
                 "single": nw == 1 and rng.random() < 0.6, "nots": all(w == 1 for w in ws) and rng.random() < 0.5}
            if any(r.prob_evidence(q["ev"]) < 1e-9 for r in refs):
                continue
        else:
            if len(endo) < 2:
                continue
            c, e = rng.sample(endo, 2)
            tfc = rng.sample(dom[c], 2)
            tfe = rng.sample(dom[e], 2)
            q = {"k": k, "c": c, "e": e, "tfc": tfc, "tfe": tfe, "ident": []}
            # states of true and false left to the library where it can tell them
            if identifiable(c, dom[c]) and rng.random() < 0.5:
                q["ident"].append("c")
                q["tfc"] = list(identifiable(c, dom[c]))
            if identifiable(e, dom[e]) and rng.random() < 0.5:
                q["ident"].append("e")
                q["tfe"] = list(identifiable(e, dom[e]))
            ev = pn_evidence(q)
            if any(r.prob_evidence(ev) < 1e-9 for r in refs):
                continue
        return q
    return None


def identifiable(v, d):
    if len(d) != 2:
        return None
    if all(type(x) is int for x in d) and set(d) == {0, 1}:
        return (1, 0)
    if all(isinstance(x, str) for x in d):
        if set(d) == {v.lower() + "0", v.lower() + "1"}:
            return (v.lower() + "1", v.lower() + "0")
        if set(d) == {v.lower() + "1", v.lower() + "2"}:
            return (v.lower() + "1", v.lower() + "2")
    return None


def pn_evidence(q):
    if q["k"] == "pn":
        return {q["c"]: q["tfc"][0], q["e"]: q["tfe"][0]}
    if q["k"] == "ps":
        return {q["c"]: q["tfc"][1], q["e"]: q["tfe"][1]}
    return {}


def expected(ref, q):
    """array over answer_vars(q), or a float for pn/ps/pns; None if the evidence is impossible"""
    if q["k"] == "causal":
        return ref.query(q["t"], q["ev"], q["do"])
    if q["k"] == "cf":
        return ref.counterfactual(list(zip(q["t"], q["w"])), q["do"], q["ev"])
    (Tc, Fc), (Te, Fe) = q["tfc"], q["tfe"]
    if q["k"] == "pn":
        a = ref.counterfactual([(q["e"], 1)], [{q["c"]: Fc}], {q["c"]: Tc, q["e"]: Te})
        return None if a is None else float(a[ref.idx(q["e"], Fe)])
    if q["k"] == "ps":
        a = ref.counterfactual([(q["e"], 1)], [{q["c"]: Tc}], {q["c"]: Fc, q["e"]: Fe})
        return None if a is None else float(a[ref.idx(q["e"], Te)])
    a = ref.counterfactual([(q["e"], 1), (q["e"], 2)], [{q["c"]: Fc}, {q["c"]: Tc}], {})
    return float(a[ref.idx(q["e"], Fe), ref.idx(q["e"], Te)])


def call(engine, q):
    if q["k"] == "causal":
        t = q["t"][0] if len(q["t"]) == 1 else lib.keep(list(q["t"]))
        if q["ev"]:
            return engine.causal_query(t, do=lib.keep(dict(q["do"])), evidence=lib.keep(dict(q["ev"])))
        return engine.causal_query(t, do=lib.keep(dict(q["do"])))
    if q["k"] == "cf":
        dos = lib.keep([lib.keep(dict(d)) for d in q["do"]])
        kw = {"evidence": lib.keep(dict(q["ev"]))} if q["ev"] else {}
        if q["single"]:
            if len(q["t"]) == 1:
                return engine.counterfactual_query(q["t"][0], do=dos[0], **kw)
            return engine.counterfactual_query(lib.keep(list(q["t"])), do=dos[0], **kw)
        if not q.get("nots"):     # left out: all targets are of the first world
            kw["targets_subgraphs"] = lib.keep(list(q["w"]))
        return engine.counterfactual_query(lib.keep(list(q["t"])), do=dos, **kw)
    fn = {"pn": engine.prob_necessity, "ps": engine.prob_sufficiency, "pns": engine.prob_necessity_sufficiency}[q["k"]]
    kw = {}
    if "c" not in q["ident"]:
        kw["true_false_cause"] = tuple(q["tfc"])
    if "e" not in q["ident"]:
        kw["true_false_effect"] = tuple(q["tfe"])
    return fn(q["c"], q["e"], **kw)


def answer_vars(q):
    if q["k"] == "causal":
        return list(q["t"])
    return [f"{v}_{w}" for v, w in zip(q["t"], q["w"])]


def answer_dom(q, dom):
    if q["k"] == "causal":
        return {v: dom[v] for v in q["t"]}
    return {f"{v}_{w}": dom[v] for v, w in zip(q["t"], q["w"])}


def judge(ctx, ans, q, exp, dom, what):
    """a precise answer"""
    if q["k"] in ("pn", "ps", "pns"):
        a = float(ans)
        ctx.check(abs(a - exp) <= R.TOL, "wrong-answer", f"{what}: got {a} expected {exp}")
        return a
    a = lib.compare_factor(ctx, ans, answer_vars(q), answer_dom(q, dom), exp, what)
    return lib.rnd_arr(a, 9)


def judge_interval(ctx, ans, q, exps, dom, what, tol=R.TOL):
    """an interval answer against the list of precise expected answers"""
    if q["k"] in ("pn", "ps", "pns"):
        lo, up = [float(x) for x in np.ravel(np.array(list(ans), dtype=float))]
        ctx.check(abs(lo - min(exps)) <= tol and abs(up - max(exps)) <= tol, "wrong-interval",
                  f"{what}: got [{lo}, {up}] expected [{min(exps)}, {max(exps)}]")
        return [lo, up]
    vs, d = answer_vars(q), answer_dom(q, dom)
    E = np.array(exps)
    ctx.check(set(ans.variables) == set(vs), "wrong-variables", f"{what}: interval over {ans.variables}, expected {vs}")
    import itertools
    out = []
    shape = [len(d[v]) for v in vs]
    for pos in itertools.product(*[range(s) for s in shape]):
        obs = {v: d[v][i] for v, i in zip(vs, pos)}
        lo = float(ans.store_low.get_value(**obs))
        up = float(ans.store_up.get_value(**obs))
        cell = E[(slice(None),) + pos]
        ctx.check(abs(lo - cell.min()) <= tol and abs(up - cell.max()) <= tol, "wrong-interval",
                  f"{what}: cell {obs}: got [{lo}, {up}] expected [{cell.min()}, {cell.max()}]")
        out.append([lo, up])
    return out
