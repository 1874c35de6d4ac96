"""Learning scenarios shared by several checks: a structural causal model, data drawn from it, random starts."""
import itertools
import math

import numpy as np

from . import lib, ref as R, spec as S


def gen_learn(rng, gd=False, small=False, max_rows=30, obs_exo=True, max_exo=2):
    """spec of the true model, data rows over cols, names of the learned variables (None: those missing in the data)"""
    for _ in range(200):
        spec = S.gen_scm(rng, max_endo=2 if small else 4 if gd and rng.random() < 0.2 else 3, max_exo=max_exo, max_exo_card=4 if small else 5, vtypes=("numpy",),
                         allow_zero=rng.random() < 0.3, single_exo_parent=gd, det_ok=False, binary=small, canonical_axes=gd,
                         max_worlds=16)
        if not small or len(spec["nodes"]) <= 4:
            break
    endo, exo = list(spec["endo"]), [v for v in spec["nodes"] if v not in spec["endo"]]
    cols = list(endo)
    if rng.random() < 0.5:
        rng.shuffle(cols)
    observed_exo = []
    if obs_exo and not gd and len(exo) > 1 and rng.random() < 0.15:
        observed_exo = [rng.choice(exo)]
        cols.insert(rng.randrange(len(cols) + 1), observed_exo[0])
    hidden = [u for u in exo if u not in observed_exo]
    trainable = None
    if rng.random() < 0.5:
        trainable = lib.pick_subset(rng, hidden, 1, len(hidden))
    rows = lib.sample_rows(rng, spec, rng.choice([1, 2, 5, 12, max_rows]), cols)
    return {"spec": spec, "cols": cols, "rows": rows, "trainable": trainable, "hidden": hidden,
            "extra_nan": [u for u in hidden if rng.random() < 0.15], "index": rng.choice(["range", "range", "dup", "shift"])}


def gen_start(rng, L, zeros=0.0):
    """start distributions for every hidden exogenous variable, keeping the data possible"""
    spec = L["spec"]
    for _ in range(30):
        out = {}
        for u in L["hidden"]:
            k = len(spec["dom"][u])
            p = [rng.random() + 0.02 for _ in range(k)]
            if zeros and rng.random() < zeros and k > 2:
                p[rng.randrange(k)] = 0.0
            s = sum(p)
            out[u] = [x / s for x in p]
        if math.isfinite(loglik(tables(spec, out), L)):
            return out
        zeros = 0.0
    return out


def tables(spec, start):
    return {v: (np.array(start[v]) if v in (start or {}) else S.full_table(spec, v)) for v in spec["nodes"]}


def data_frame(L):
    import pandas as pd
    df = lib.frame(L["cols"], L["rows"])
    for u in L["extra_nan"]:
        df[u] = float("nan")
    n = len(L["rows"])
    if L["index"] == "dup":
        df.index = [i // 2 for i in range(n)]
    elif L["index"] == "shift":
        df.index = [100 + 3 * i for i in range(n)]
    return df


def start_model(L, start):
    spec = dict(L["spec"], tab=dict(L["spec"]["tab"]))
    for u, p in start.items():
        spec["tab"][u] = list(p)
    return S.build(spec)


def record_prob(tabs, L, row):
    """P(observed part of a record), and the joint over the hidden exogenous states given it"""
    spec = L["spec"]
    rec = dict(zip(L["cols"], row))
    ref = R.Ref(spec, tabs)
    exo = ref.exo
    out = {}
    tot = 0.0
    for p, u in ref.worlds():
        if any(v in rec and ref.idx(v, rec[v]) != u[v] for v in exo):
            continue
        val = ref.solve(u)
        if all(v not in rec or ref.idx(v, rec[v]) == val[v] for v in ref.endo):
            out[tuple(u[v] for v in exo)] = p
            tot += p
    return tot, out, exo


def loglik(tabs, L):
    tot = 0.0
    for row, c in grouped(L):
        p, _, _ = record_prob(tabs, L, row)
        if p <= 0:
            return -math.inf
        tot += c * math.log(p)
    return tot


def grouped(L):
    g = {}
    for r in L["rows"]:
        k = tuple(map(repr, r))
        g.setdefault(k, [r, 0])[1] += 1
    return [(r, c) for r, c in g.values()]


def trainable_of(L):
    return list(L["trainable"]) if L["trainable"] else list(L["hidden"])


def em_step(tabs, L):
    """one exact EM iteration"""
    spec = L["spec"]
    new = dict(tabs)
    acc = {u: np.zeros(len(spec["dom"][u])) for u in trainable_of(L)}
    n = 0
    for row, c in grouped(L):
        p, post, exo = record_prob(tabs, L, row)
        for cfg, w in post.items():
            for u in acc:
                acc[u][cfg[exo.index(u)]] += c * w / p
        n += c
    for u in acc:
        new[u] = acc[u] / n
    return new


def read_tables(ctx, model, L, what):
    """tables of a learned model; also checks its structure against the true spec"""
    spec = L["spec"]
    ctx.check(set(model.variables) == set(spec["nodes"]), "structure", f"{what}: variables {model.variables}")
    ctx.check(set(model.graph.edges) == {tuple(e) for e in spec["edge_order"]}, "structure", f"{what}: graph changed")
    ctx.check(set(model.endogenous) == set(spec["endo"]), "structure", f"{what}: endogenous {model.endogenous}")
    for v in spec["nodes"]:
        ctx.check(model.domains[v] is not None and list(model.domains[v]) == list(spec["dom"][v]), "structure", f"{what}: domain of {v} is {model.domains[v]}")
        f = model.factors[v]
        ctx.check(f is not None, "structure", f"{what}: no factor for {v}")
        if set(f.variables) != set(spec["pa"][v]) | {v} or set(f.left_vars) != {v}:
            ctx.violate("structure", f"{what}: factor of {v} is {f}")
    return R.tables_of_model(model, spec)


def check_valid(ctx, tabs, base, L, what, tol=1e-9):
    """proper learned distributions, everything else as in `base`"""
    tr = trainable_of(L)
    for v in L["spec"]["nodes"]:
        t = tabs[v]
        ctx.check(np.isfinite(t).all(), "improper", f"{what}: {v} has undefined entries {t.tolist()}")
        if v in tr:
            ctx.check((t >= -tol).all() and abs(float(t.sum()) - 1) <= max(tol, 1e-9) * 10, "improper", f"{what}: {v} is no distribution: {t.tolist()}")
        else:
            ctx.check(np.abs(t - base[v]).max() <= 1e-12, "touched", f"{what}: {v} is not learned but changed to {t.tolist()}")


def table_diff(a, b):
    return max(float(np.abs(a[v] - b[v]).max()) for v in a)


def fp(tabs, nd=10):
    return {v: np.round(t, nd).ravel().tolist() for v, t in tabs.items()}


_cpu = {"n": 1}


def set_workers(n):
    """how many worker threads a parallel run gets"""
    import joblib
    import joblib._parallel_backends as pb
    import joblib.parallel as jp
    import multiprocessing
    import os
    _cpu["n"] = n

    def cpu_count(*a, **k):
        return _cpu["n"]
    pb.cpu_count = cpu_count
    jp.cpu_count = cpu_count
    joblib.cpu_count = cpu_count
    multiprocessing.cpu_count = cpu_count
    os.cpu_count = cpu_count
