"""Model specifications: plain JSON data from which both the real bcause model and the
reference model are built.  Nothing here imports bcause at module level.

spec = {
  "kind":  "bn" | "scm",
  "nodes": [name, ...],                    # insertion order in the graph
  "dom":   {name: [state, ...]},           # states: all int, all str or all bool
  "pa":    {name: [parent, ...]},          # parent order
  "edge_order": [[p, c], ...],             # order in which edges are inserted
  "tab":   {name: [...]},                  # row-major over parents(+ the node itself for tables)
                                           #   bn node / exogenous: probabilities over pa + [v]
                                           #   endogenous (scm): state indices over pa
  "axes":  {name: [var, ...]},             # variable order of the factor handed to bcause
  "vtype": store name,
  "det":   bool                            # scm: hand over DeterministicFactor objects and keep them
}
"""
import itertools


def endogenous(spec):
    if spec["kind"] != "scm":
        return []
    return [v for v in spec["nodes"] if v in spec["endo"]]


def exogenous(spec):
    return [v for v in spec["nodes"] if v not in spec["endo"]]


# --------------------------------------------------------------------------- generation

_STATE_STYLES = ("int", "str", "bool", "int1", "word")


def _states(rng, v, k, style):
    if style == "bool" and k == 2:
        return [False, True]
    if style == "int1":
        return list(range(1, k + 1))
    if style == "str":
        return [f"{v.lower()}{i}" for i in range(k)]
    if style == "word":
        return ["low", "mid", "high", "max", "top", "w5", "w6", "w7"][:k]
    return list(range(k))


def _probs(rng, k, allow_zero):
    """k probabilities on a grid (exactly representable decimals are not needed)."""
    while True:
        w = [rng.randint(0 if allow_zero else 1, 9) for _ in range(k)]
        if sum(w) > 0:
            break
    s = float(sum(w))
    return [x / s for x in w]


def _insertion(rng, nodes, pa, shuffle):
    edges = [[p, c] for c in nodes for p in pa[c]]
    if shuffle:
        rng.shuffle(edges)
    # parents order seen by networkx follows edge insertion order: keep pa consistent with it
    for c in nodes:
        pa[c] = [p for p, c2 in edges if c2 == c]
    order = []
    for p, c in edges:
        for x in (p, c):
            if x not in order:
                order.append(x)
    for v in nodes:
        if v not in order:
            order.append(v)
    return edges, order


def gen_bn(rng, max_nodes=5, max_card=3, isolated_ok=True, allow_zero=True, styles=_STATE_STYLES, max_pa=3,
           min_nodes=2, names=None, vtypes=("numpy", "numpy", "list", "treedict", "numpy1d"), max_joint=600,
           tiny=False):
    n = rng.randint(min_nodes, max_nodes)
    style_pool = rng.choice([list(styles), [rng.choice(styles)]])
    base = names or ["A", "B", "C", "D", "E", "F", "G", "H"]
    order = base[:n]
    if rng.random() < 0.3:
        rng.shuffle(order)
    while True:
        card = {v: rng.choice([2, 2, 2, 3, 3, 4][: 3 if max_card < 3 else (5 if max_card < 4 else 6)]) for v in order}
        j = 1
        for v in order:
            j *= card[v]
        if j <= max_joint:
            break
    dens = rng.choice([0.3, 0.5, 0.8])
    pa = {}
    for i, v in enumerate(order):
        cand = [p for p in order[:i] if rng.random() < dens]
        pa[v] = cand[:max_pa]
    if not isolated_ok:
        for i, v in enumerate(order):
            if not pa[v] and not any(v in pa[c] for c in order):
                if i == 0:
                    pa[order[1]] = (pa[order[1]] + [v])[-max_pa:]
                else:
                    pa[v] = [order[rng.randrange(i)]]
    dom = {v: _states(rng, v, card[v], rng.choice(style_pool)) for v in order}
    edges, nodes = _insertion(rng, order, pa, rng.random() < 0.5)
    tab, axes = {}, {}
    az = allow_zero and rng.random() < 0.4
    for v in nodes:
        rows = 1
        for p in pa[v]:
            rows *= card[p]
        t = []
        for _ in range(rows):
            pr = _probs(rng, card[v], az)
            if tiny and rng.random() < 0.3:
                e = 10.0 ** -rng.choice([5, 6, 7, 8, 9, 10, 11, 12, 99, 100, 101, 200, 308] if tiny == "io" else [5, 6, 7, 8, 9, 10, 11, 12])
                i = max(range(len(pr)), key=lambda q: pr[q])
                j = rng.randrange(len(pr))
                if j != i:
                    pr[i] = pr[i] + pr[j] - e
                    pr[j] = e
            t += pr
        tab[v] = t
        axes[v] = _axes(rng, pa[v], v)
    return dict(kind="bn", nodes=nodes, dom=dom, pa=pa, edge_order=edges, tab=tab, axes=axes,
                vtype=rng.choice(vtypes), det=False, endo=[], perm=_perm(rng, nodes, pa, dom))


def _perm(rng, nodes, pa, dom):
    """factors that list the states of their parents in an order of their own"""
    out = {}
    if rng.random() < 0.15:
        for v in nodes:
            for p in pa[v]:
                if rng.random() < 0.5:
                    out.setdefault(v, {})[p] = rng.sample(dom[p], len(dom[p]))
    return out


def _axes(rng, pa, v):
    r = rng.random()
    if r < 0.6:
        return pa + [v]
    if r < 0.8:
        return [v] + pa
    a = pa + [v]
    rng.shuffle(a)
    return a


def gen_scm(rng, max_endo=4, max_exo=3, max_exo_card=5, styles=("int", "str", "bool", "int1"), markov=None,
            vtypes=("numpy", "numpy", "numpy", "list", "treedict", "numpy1d"), allow_zero=True, max_worlds=260,
            min_endo=2, det_ok=True, single_exo_parent=False, binary=False, every_endo_has_exo=True,
            canonical_axes=False, onto=False):
    """A random SCM.  Every exogenous variable has at least one endogenous child, exogenous are roots."""
    while True:
        ne = rng.randint(min_endo, max_endo)
        nu = rng.randint(1, max_exo)
        endo = ["X", "Y", "Z", "W", "T"][:ne]
        exo = ["U", "V", "R", "S"][:nu]
        if rng.random() < 0.25:
            endo = [f"V{i}" for i in range(ne)]
            exo = [f"U{i}" for i in range(nu)]
        card = {}
        for v in endo:
            card[v] = 2 if binary else rng.choice([2, 2, 2, 3])
        for u in exo:
            card[u] = rng.randint(2, max_exo_card)
        w = 1
        for u in exo:
            w *= card[u]
        if w > max_worlds:
            continue
        pa = {u: [] for u in exo}
        dens = rng.choice([0.3, 0.6, 0.9])
        for i, v in enumerate(endo):
            epa = [p for p in endo[:i] if rng.random() < dens][:3]
            if single_exo_parent:
                upa = [rng.choice(exo)]
            else:
                upa = [u for u in exo if rng.random() < 1.3 / max(1, nu)][:rng.choice([2, 2, 2, 3])]
                if not upa and (every_endo_has_exo or not epa):
                    upa = [rng.choice(exo)]
            pa[v] = epa + upa if rng.random() < 0.6 else upa + epa
        if not all(any(u in pa[v] for v in endo) for u in exo):
            continue
        break
    style_pool = rng.choice([list(styles), [rng.choice(styles)]])
    dom = {v: _states(rng, v, card[v], rng.choice(style_pool)) for v in endo + exo}
    allv = endo + exo
    edges, nodes = _insertion(rng, allv, pa, rng.random() < 0.6)
    tab, axes = {}, {}
    for v in nodes:
        if v in exo:
            tab[v] = _probs(rng, card[v], allow_zero and rng.random() < 0.25)
            axes[v] = [v]
        else:
            rows = 1
            for p in pa[v]:
                rows *= card[p]
            vals = [rng.randrange(card[v]) for _ in range(rows)]
            if len(set(vals)) == 1 and rows > 1:
                vals[rng.randrange(rows)] = (vals[0] + 1) % card[v]
            tab[v] = vals
            axes[v] = pa[v] + [v] if canonical_axes else _axes(rng, pa[v], v)
    return dict(kind="scm", nodes=nodes, dom=dom, pa=pa, edge_order=edges, tab=tab, axes=axes,
                vtype=rng.choice(vtypes), det=bool(det_ok and rng.random() < 0.3), endo=endo, perm=_perm(rng, nodes, pa, dom))


# --------------------------------------------------------------------------- building the real model

def graph_of(spec):
    import networkx as nx
    g = nx.DiGraph()
    for p, c in spec["edge_order"]:
        g.add_edge(p, c)
    for v in spec["nodes"]:
        if v not in g:
            g.add_node(v)
    return g


def full_table(spec, v):
    """numpy array over pa + [v] with probabilities."""
    import numpy as np
    shape = [len(spec["dom"][p]) for p in spec["pa"][v]]
    k = len(spec["dom"][v])
    if spec["kind"] == "scm" and v in spec["endo"]:
        idx = np.array(spec["tab"][v], dtype=int).reshape(shape)
        out = np.zeros(shape + [k])
        for pos in itertools.product(*[range(s) for s in shape]):
            out[pos + (int(idx[pos]),)] = 1.0
        return out
    return np.array(spec["tab"][v], dtype=float).reshape(shape + [k])


def factor_of(spec, v, vtype=None):
    """The bcause factor for v, with the axis order the spec asks for."""
    import numpy as np
    from bcause.factors import MultinomialFactor, DeterministicFactor
    vtype = vtype or spec["vtype"]
    pa, dom = spec["pa"][v], spec["dom"]
    perm = spec.get("perm", {}).get(v, {})
    if spec["kind"] == "scm" and v in spec["endo"] and spec.get("det"):
        shape = [len(dom[p]) for p in pa]
        idx = np.array(spec["tab"][v], dtype=int).reshape(shape)
        for i, p in enumerate(pa):
            if p in perm:
                idx = np.take(idx, [dom[p].index(s) for s in perm[p]], axis=i)
        vals = [dom[v][i] for i in idx.ravel()]
        d = {p: list(perm.get(p, dom[p])) for p in pa}
        d[v] = list(dom[v])
        arr = np.array(vals).reshape(shape) if shape else vals
        return DeterministicFactor(d, values=arr if shape else vals, left_vars=[v], vtype=vtype)
    arr = full_table(spec, v)
    std = pa + [v]
    ax = spec["axes"][v]
    arr = np.transpose(arr, [std.index(a) for a in ax]) if len(ax) > 1 else arr
    for i, a in enumerate(ax):
        if a in perm:
            arr = np.take(arr, [dom[a].index(s) for s in perm[a]], axis=i)
    d = {a: list(perm.get(a, dom[a])) for a in ax}
    return MultinomialFactor(d, values=arr, left_vars=[v], vtype=vtype)


def build(spec, vtype=None):
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    g = graph_of(spec)
    fs = {v: factor_of(spec, v, vtype) for v in spec["nodes"]}
    if spec["kind"] == "bn":
        return BayesianNetwork(g, fs)
    return StructuralCausalModel(g, fs, cast_multinomial=not spec.get("det"))
