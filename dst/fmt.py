"""Saved models: what a file has to contain, judged through the public reading interface, and a fresh
process to read it in."""
import itertools
import json
import os
import re

import numpy as np

from . import ref as R
from . import spec as S

FORMATS = ("uai", "bif", "xmlbif")


class Abs:
    """a model as plain data: kind, order, dom, pa, tab (array over pa + [v]), endo"""

    def __init__(self, kind, order, dom, pa, tab, endo):
        self.kind, self.order, self.dom, self.pa, self.tab, self.endo = kind, list(order), dom, pa, tab, set(endo)


def of_spec(spec):
    return Abs(spec["kind"], spec["nodes"], {v: list(spec["dom"][v]) for v in spec["nodes"]}, {v: list(spec["pa"][v]) for v in spec["nodes"]},
               {v: S.full_table(spec, v) for v in spec["nodes"]}, spec["endo"])


def written(a, fmt, order, opts=None):
    """the model a reader has to return for `a` saved in `fmt`; order: the variable order used by the file; opts: the reader's.
    The formats do not say which variables are endogenous: a reader takes those with parents"""
    opts = opts or {}
    if fmt == "uai":
        s0 = opts.get("init_var_state", 0)
        name = {v: f"{opts.get('var_prefix', 'V')}{i + opts.get('init_var_id', 0)}" for i, v in enumerate(order)}
        dom = {name[v]: list(range(s0, s0 + len(a.dom[v]))) for v in a.order}
    else:
        name = {v: str(v) for v in a.order}
        clean = (lambda s: re.sub(r"[^a-zA-Z0-9]", "_", str(s))) if fmt == "xmlbif" else str
        dom = {str(v): [clean(s) for s in a.dom[v]] for v in a.order}
    return Abs(a.kind, [name[v] for v in order], dom, {name[v]: [name[p] for p in a.pa[v]] for v in a.order},
               {name[v]: a.tab[v] for v in a.order}, {name[v] for v in a.endo if a.pa[v]})


def file_order(model, kind):
    return list(model.endogenous) + list(model.exogenous) if kind == "scm" else list(model.variables)


def differs(model, a):
    """None, or how the bcause model differs from `a`"""
    g = model.graph
    if set(map(str, g.nodes)) != set(a.order) or len(g.nodes) != len(a.order):
        return f"variables {sorted(map(str, g.nodes))}, expected {sorted(a.order)}"
    e, x = {(str(p), str(c)) for p, c in g.edges}, {(p, c) for c in a.order for p in a.pa[c]}
    if e != x:
        return f"edges {sorted(e)}, expected {sorted(x)}"
    if a.kind == "scm" and set(model.endogenous) != a.endo:
        return f"endogenous {sorted(model.endogenous)}, expected {sorted(a.endo)}"
    for v in a.order:
        d = [x for x in model.domains[v]] if model.domains.get(v) is not None else None
        if d is None or len(d) != len(a.dom[v]) or set(map(_st, d)) != set(map(_st, a.dom[v])):
            return f"states of {v}: {d}, expected {a.dom[v]}"
        f = model.factors[v]
        if f is None:
            return f"no factor for {v}"
        if set(f.variables) != set(a.pa[v]) | {v}:
            return f"factor of {v} over {f.variables}"
        if hasattr(f, "to_multinomial") and type(f).__name__ == "DeterministicFactor":
            f = f.to_multinomial()
        vs = a.pa[v] + [v]
        dom = {}
        for w in vs:
            fd = {_st(s): s for s in f.domain[w]}
            if set(fd) != set(map(_st, a.dom[w])):
                return f"states of {w} in the factor of {v}: {list(f.domain[w])}, expected {a.dom[w]}"
            dom[w] = [fd[_st(s)] for s in a.dom[w]]
        got = R.factor_array(f, vs, dom)
        want = a.tab[v]
        if got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-14 + 1e-9 * np.abs(want)):
            return f"numbers of {v} (over {vs}): {got.tolist()}, expected {want.tolist()}"
    return None


def _st(s):
    return str(s)


def read(kind, path, opts=None):
    """through the class, or the reader function with its options"""
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    if opts is not None:
        from bcause.readwrite import bnread, scmread
        r = scmread if kind == "scm" else bnread
        return getattr(r, "from_" + str(path).rsplit(".", 1)[1])(path, **opts)
    cls = BayesianNetwork if kind == "bn" else StructuralCausalModel
    return cls.read(path)


def save(model, path, how="method", **kw):
    """through the model, or the writer function directly"""
    if how == "method":
        return model.save(path, **kw)
    from bcause.readwrite import bnwrite, scmwrite
    w = scmwrite if hasattr(model, "endogenous") else bnwrite
    getattr(w, "to_" + str(path).rsplit(".", 1)[1])(model, path, **kw)


class FreshReader:
    """a process forked before anything happened; reads files on request and says whether they hold a model"""

    def __init__(self, specs):
        self.r1, w1 = os.pipe()
        r2, self.w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r1)
                os.close(self.w2)
                f = os.fdopen(r2)
                for line in f:
                    q = json.loads(line)
                    try:
                        m = read(q["kind"], q["path"])
                        ans = differs(m, _unpack(q["abs"]))
                    except BaseException as e:
                        ans = f"reading raised {type(e).__name__}: {str(e)[:200]}"
                    b = (json.dumps(ans) + "\n").encode()
                    while b:
                        b = b[os.write(w1, b):]
            finally:
                os._exit(0)
        os.close(w1)
        os.close(r2)
        self.inp = os.fdopen(self.r1)

    def differs(self, kind, path, a):
        b = (json.dumps(dict(kind=kind, path=str(path), abs=_pack(a))) + "\n").encode()
        while b:
            b = b[os.write(self.w2, b):]
        line = self.inp.readline()
        return json.loads(line) if line else "the reading process died"

    def close(self):
        os.close(self.w2)
        self.inp.close()
        os.waitpid(self.pid, 0)


def _pack(a):
    return dict(kind=a.kind, order=a.order, dom=a.dom, pa=a.pa, tab={v: t.tolist() for v, t in a.tab.items()}, endo=sorted(a.endo))


def _unpack(d):
    return Abs(d["kind"], d["order"], d["dom"], d["pa"], {v: np.array(t) for v, t in d["tab"].items()}, d["endo"])


def gen_io_spec(rng, kind=None, big=False):
    kind = kind or rng.choice(["bn", "bn", "scm"])
    if kind == "bn":
        return S.gen_bn(rng, max_nodes=rng.choice([2, 3, 5, 6]), max_card=4, tiny="io" if rng.random() < 0.5 else False,
                        max_joint=3000, vtypes=("numpy", "numpy", "list", "treedict", "numpy1d"))
    s = S.gen_scm(rng, max_endo=rng.choice([2, 3, 4]), max_exo=3, max_exo_card=5)
    for u in s["nodes"]:
        if u not in s["endo"] and rng.random() < 0.2 and len(s["tab"][u]) > 1:
            t = list(s["tab"][u])
            i, e = t.index(max(t)), 10.0 ** -rng.choice([7, 11, 99, 100, 300])
            j = rng.choice([k for k in range(len(t)) if k != i])
            t[i], t[j] = t[i] + t[j] - e, e
            s["tab"][u] = t
    return s
