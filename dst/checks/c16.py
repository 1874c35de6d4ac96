"""C16: histories of updates, rejected and interrupted updates, and derivations over a family of related models."""
import copy
import itertools
import random

import numpy as np

from .. import lib, ref as R, spec as S, rngsim
from ..core import Violation, Inconclusive

SHRINK = [["ops"]]
TIMEOUT = 100.0

DERIVE = ("copy", "copy", "intervention", "intervention", "randomize", "rename", "to_bnet", "to_multinomial", "from_model", "convert", "pgmpy", "builder", "minimalize")
UPDATE = ("set", "set", "set", "reject", "reject", "inplace", "fill", "bnfill", "badderive")


def gen(rng, i, tier):
    if rng.random() < 0.4:
        spec = S.gen_bn(rng, max_nodes=4, max_joint=120)
    else:
        spec = S.gen_scm(rng, max_endo=3, max_exo=2, max_exo_card=4)
    ops = []
    for _ in range(rng.randint(3, 9)):
        k = rng.choice(DERIVE if rng.random() < 0.45 else UPDATE)
        ops.append({"k": k, "m": rng.randrange(1 << 16), "s": rng.randrange(1 << 30),
                    "cut": lib.gen_call(rng, [4, 30, 200, 800]) if rng.random() < 0.3 else None,
                    "exc": rng.choice(["KeyboardInterrupt", "MemoryError"]),
                    "script": rngsim.gen_script(rng, [], 40) if rng.random() < 0.25 else None})
    return {"spec": spec, "ops": ops, "start": rng.choice(["dict", "list", "empty", "partial"]),
            "first": rng.randrange(1 << 30)}


# ------------------------------------------------------------------ reference

class Ref:
    def __init__(self, kind, nodes, pa, dom, tab, endo, cast):
        self.free = {}         # variables without a factor: what their domain was when last looked at
        self.kind, self.nodes, self.pa, self.dom, self.tab, self.endo, self.cast = kind, list(nodes), {v: list(p) for v, p in pa.items()}, dict(dom), dict(tab), list(endo), cast

    def clone(self):
        return Ref(self.kind, self.nodes, self.pa, self.dom, self.tab, self.endo, self.cast)


def table(f, vs, dom):
    if type(f).__name__ == "DeterministicFactor":
        f = f.to_multinomial()
    return R.factor_array(f, vs, dom)


def verify(ctx, m, r, what, tol=1e-9):
    ctx.check(type(m).__name__ == ("BayesianNetwork" if r.kind == "bn" else "StructuralCausalModel"), "type", f"{what}: {type(m).__name__}")
    ctx.check(set(m.variables) == set(r.nodes) and len(m.variables) == len(r.nodes), "graph", f"{what}: variables {m.variables}, expected {r.nodes}")
    ctx.check(set(m.graph.edges) == {(p, v) for v in r.nodes for p in r.pa[v]}, "graph", f"{what}: edges {list(m.graph.edges)}")
    if r.kind == "scm":
        ctx.check(set(m.endogenous) == set(r.endo), "graph", f"{what}: endogenous {m.endogenous}, expected {r.endo}")
        ctx.check(set(m.exogenous) == set(r.nodes) - set(r.endo), "graph", f"{what}: exogenous {m.exogenous}")
    doms = m.domains
    for v in r.nodes:
        ctx.check(set(m.get_parents(v)) == set(r.pa[v]), "graph", f"{what}: parents of {v} are {m.get_parents(v)}")
        f = m.factors[v]
        if r.tab[v] is None:
            ctx.check(f is None, "factor", f"{what}: {v} has a factor")
            ctx.check(r.free.get(v, repr(doms[v])) == repr(doms[v]), "domains", f"{what}: the domain of {v}, which has no factor yet, became {doms[v]}")
            r.free[v] = repr(doms[v])
            continue
        ctx.check(f is not None, "factor", f"{what}: {v} has no factor")
        if not (set(f.left_vars) == {v} and set(f.right_vars) == set(r.pa[v]) and set(f.variables) == set(r.pa[v]) | {v}):
            ctx.violate("factor", f"{what}: factor of {v} is {f}")
        ctx.check(doms[v] is not None and sorted(map(repr, doms[v])) == sorted(map(repr, r.dom[v])), "domains", f"{what}: domain of {v} is {doms[v]}, expected {r.dom[v]}")
        for x in f.variables:
            ctx.check(sorted(map(repr, f.domain[x])) == sorted(map(repr, r.dom[x])), "domains", f"{what}: factor of {v} has states {f.domain[x]} for {x}")
        t = table(f, r.pa[v] + [v], r.dom)
        ctx.check(t.shape == r.tab[v].shape and np.isfinite(t).all() and np.abs(t - r.tab[v]).max() <= tol, "factor",
                  f"{what}: factor of {v} is {t.tolist()}, expected {r.tab[v].tolist()}")


# ------------------------------------------------------------------ generating factors

def rand_table(g, r, v, degenerate):
    shape = [len(r.dom[p]) for p in r.pa[v]]
    k = len(r.dom[v])
    t = np.zeros(shape + [k])
    for pos in itertools.product(*[range(s) for s in shape]):
        if degenerate:
            t[pos + (g.randrange(k),)] = 1.0
        else:
            w = [g.random() + 0.01 for _ in range(k)]
            if g.random() < 0.2:
                w[g.randrange(k)] = 0.0
            t[pos] = np.array(w) / sum(w)
    return t


def make_factor(g, r, v, t, det=False, vtype=None, shuffle=True):
    from bcause.factors import MultinomialFactor, DeterministicFactor
    vt = vtype or g.choice(lib.VTYPES)
    doms = {x: (g.sample(r.dom[x], len(r.dom[x])) if shuffle and g.random() < 0.3 else list(r.dom[x])) for x in r.pa[v] + [v]}
    arr = t
    for i, x in enumerate(r.pa[v] + [v]):
        arr = np.take(arr, [r.dom[x].index(s) for s in doms[x]], axis=i)
    if det:
        idx = arr.argmax(axis=-1)
        vals = [doms[v][i] for i in np.ravel(idx)]
        return DeterministicFactor({x: doms[x] for x in r.pa[v] + [v]}, values=vals, left_vars=[v], vtype=vt)
    ax = r.pa[v] + [v]
    if g.random() < 0.4:
        ax2 = g.sample(ax, len(ax))
        arr = np.transpose(arr, [ax.index(a) for a in ax2])
        ax = ax2
    return MultinomialFactor({a: doms[a] for a in ax}, values=arr, left_vars=[v], vtype=vt)


def listed(r, v, but):
    """are the states of v known to the model from another factor than that of `but` (or from v's own)?"""
    return r.tab[v] is not None or any(r.tab[c] is not None for c in r.nodes if c != but and v in r.pa[c])


def bad_factor(g, r, v):
    """a factor the model has to reject for v; (what, factor)"""
    from bcause.factors import MultinomialFactor
    opts = ["none", "string", "left", "domain"]
    others = [x for x in r.nodes if x != v and x not in r.pa[v]]
    if others:
        opts.append("extra parent")
    if r.pa[v]:
        opts += ["missing parent", "parent domain"]
    if r.kind == "scm" and v in r.endo and len(r.dom[v]) > 1:
        opts += ["not degenerate", "not degenerate"]
    k = g.choice(opts)
    dom = {x: list(r.dom[x]) for x in r.pa[v] + [v]}
    deg = r.kind == "scm" and v in r.endo

    def rnd(dom, left):
        shape = [len(d) for d in dom.values()]
        ax = list(dom).index(left)
        a = np.zeros(shape)
        if deg:
            idx = [slice(None)] * len(shape)
            idx[ax] = g.randrange(shape[ax])
            a[tuple(idx)] = 1.0
        else:
            a = np.full(shape, 1.0 / shape[ax])
        return MultinomialFactor(dom, values=a, left_vars=[left])
    if k == "none":
        return k, None
    if k == "string":
        return k, "factor"
    if k == "left":
        w = g.choice([x for x in r.nodes if x != v])
        return k, rnd({w: list(r.dom[w])}, w)
    if k == "domain":
        dom[v] = dom[v][:-1] + [type(dom[v][-1])("zz") if isinstance(dom[v][-1], str) else 77] if not isinstance(dom[v][-1], bool) else [5, 6]
        if not listed(r, v, v):
            return "none", None
        how = g.random()
        if how < 0.3 and len(r.dom[v]) > 2:
            k, dom[v] = "fewer states", g.sample(r.dom[v], len(r.dom[v]) - 1)
        elif how < 0.5 and isinstance(r.dom[v][0], str):
            k, dom[v] = "more states", r.dom[v] + ["one more"]
        return k, rnd(dom, v)
    if k == "parent domain":
        p = g.choice(r.pa[v])
        if not listed(r, p, v):
            return "none", None
        dom[p] = [f"q{i}" for i in range(len(dom[p]))] if g.random() < 0.6 or len(dom[p]) < 3 else g.sample(dom[p], len(dom[p]) - 1)
        return k, rnd(dom, v)
    if k == "extra parent":
        x = g.choice(others)
        return k, rnd({x: list(r.dom[x]), **dom}, v)
    if k == "missing parent":
        dom.pop(g.choice(r.pa[v]))
        return k, rnd(dom, v)
    t = rand_table(g, r, v, True)
    pos = tuple(g.randrange(s) for s in t.shape[:-1])
    t[pos] = 1.0 / t.shape[-1]
    return k, make_factor(g, r, v, t)


# ------------------------------------------------------------------ the operations

class Cut(Exception):
    pass


def attempt(ctx, op, fn, stream=None):
    """run fn, interrupted if the operation says so; returns ("ok", result) or ("cut", None) or ("rejected", exception)"""
    script = op.get("script") if stream else None
    if stream == "positive" and script:
        script = [max(x, 2.0 ** -40) for x in script]

    def call():
        if script:
            with rngsim.scripted(script, op["s"]):
                return fn()
        np.random.seed(op["s"] % (1 << 32))
        random.seed(op["s"])
        return fn()
    if not op["cut"]:
        try:
            return "ok", call()
        except (Violation, Inconclusive):
            raise
        except Exception as e:
            return "rejected", e
    with ctx.kernel({"mode": "none"}, budget=20_000_000) as kn:
        kn.arm_here(op["exc"], op["cut"])
        try:
            return "ok", call()
        except (Violation, Inconclusive):
            raise
        except (Exception, KeyboardInterrupt) as e:
            if kn.fired:
                return "cut", e
            return "rejected", e
        finally:
            kn.disarm()


def execute(sc, ctx):
    spec = sc["spec"]
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    tabs = {v: S.full_table(spec, v) for v in spec["nodes"]}
    if sc["start"] == "dict":
        m = S.build(spec)
    else:
        fs = [S.factor_of(spec, v) for v in spec["nodes"]]
        g = S.graph_of(spec)
        kw = {} if spec["kind"] == "bn" else {"cast_multinomial": not spec["det"]}
        cls = BayesianNetwork if spec["kind"] == "bn" else StructuralCausalModel
        m = cls(g, fs if sc["start"] == "list" else None, **kw)
        if sc["start"] in ("empty", "partial"):
            tabs = {v: None for v in spec["nodes"]}
    r = Ref(spec["kind"], spec["nodes"], spec["pa"], spec["dom"], tabs, spec["endo"], not spec["det"])
    fam = [(m, r)]
    if sc["start"] == "empty":
        for v in spec["nodes"]:
            m.set_factor(v, S.factor_of(spec, v))
            r.tab[v] = S.full_table(spec, v)
            verify(ctx, m, r, f"after setting {v}")
    if sc["start"] == "partial":
        # the factors come in any order, with rejected updates in between
        g = random.Random(sc["first"])
        for v in g.sample(spec["nodes"], len(spec["nodes"])):
            while g.random() < 0.4:
                step(ctx, sc, fam, 0, {"k": "reject", "s": g.randrange(1 << 30), "cut": None}, g, f"before {v} is set, reject")
                verify(ctx, m, r, f"a rejected update before {v} is set")
            vs = [v] if g.random() < 0.7 else [g.choice([x for x in spec["nodes"] if r.tab[x] is not None] or [v]), v]
            for x in vs:
                t = S.full_table(spec, x) if x == v else rand_table(g, r, x, r.kind == "scm" and x in r.endo)
                f = make_factor(g, r, x, t, det=r.kind == "scm" and x in r.endo and g.random() < 0.4)
                if g.random() < 0.3:
                    st, res = attempt(ctx, {"cut": g.choice([2, 4, 8, 16, 40]), "s": 1, "exc": "KeyboardInterrupt"}, lambda: m.set_factor(x, f))
                    must(f"setting {x} while others are unset", st, res)
                    if st == "cut" and m.factors[x] is None:
                        verify(ctx, m, r, f"setting {x} was interrupted while others are unset")
                st, res = attempt(ctx, {"cut": None, "s": 1}, lambda: m.set_factor(x, f))
                must(f"setting {x} while others are unset", st, res)
                r.tab[x], r.free = t, {}
                verify(ctx, m, r, f"after setting {x} while others are unset")
    verify(ctx, m, r, "the first model")
    for j, op in enumerate(sc["ops"]):
        i = op["m"] % len(fam)
        what = f"op {j} {op['k']} on model {i}"
        g = random.Random(op["s"])
        step(ctx, sc, fam, i, op, g, what)
        for n, (mm, rr) in enumerate(fam):
            verify(ctx, mm, rr, f"{what}, then model {n}")
        ctx.stat("models compared", len(fam))
        ctx.cov(op["k"], fam[i][1].kind, spec["vtype"], spec["det"], len(fam), bool(op["cut"]), bool(op["script"]))
        ctx.log(j, op["k"], [np.round(rr.tab[v], 9).ravel().tolist() for _, rr in fam for v in rr.nodes])
    ctx.nontrivial = True


def must(what, st, res):
    if st == "rejected":
        raise Violation("exception", f"{what} raised {type(res).__name__}: {res}", tb=__import__("dst.core").core.short_tb(res))


def is_dist(t, positive=False):
    return np.isfinite(t).all() and (t >= 0).all() and np.abs(t.sum(axis=-1) - 1).max() < 1e-9 and (not positive or (t > 0).all())


def adopt(ctx, m, r, v, what, positive=False, degenerate=False, fresh=False):
    """v was randomised: read it back and keep it as the reference if it is proper"""
    f = m.factors[v]
    if not (f is not None and set(f.variables) == set(r.pa[v]) | {v}):
        ctx.violate("factor", f"{what}: factor of {v} is {f}")
    t = table(f, r.pa[v] + [v], r.dom)
    ctx.check(is_dist(t, positive), "improper", f"{what}: {v} became {t.tolist()}")
    if degenerate:
        ctx.check(((t == 0) | (t == 1)).all(), "not-degenerate", f"{what}: equation of {v} became {t.tolist()}")
    if fresh and r.tab[v] is not None:
        ctx.check(np.abs(t - r.tab[v]).max() > 0, "not-random", f"{what}: {v} is still {t.tolist()}")
    r.tab[v] = t


def partly(ctx, m, r, vs, what, positive=False, degenerate=()):
    """an interrupted in-place change: every variable has its old factor or a new proper one"""
    for v in vs:
        f = m.factors[v]
        if f is None:
            ctx.check(r.tab[v] is None, "factor", f"{what}: {v} lost its factor")
            continue
        t = table(f, r.pa[v] + [v], r.dom)
        if r.tab[v] is not None and t.shape == r.tab[v].shape and np.abs(t - r.tab[v]).max() <= 1e-12:
            continue
        ctx.check(is_dist(t, positive) and (v not in degenerate or ((t == 0) | (t == 1)).all()), "improper", f"{what}: {v} became {t.tolist()}")
        r.tab[v] = t


def step(ctx, sc, fam, i, op, g, what):
    m, r = fam[i]
    k = op["k"]
    exo = [v for v in r.nodes if v not in r.endo]
    scm = r.kind == "scm"
    if k == "set":
        v = g.choice(r.nodes)
        deg = scm and v in r.endo
        t = rand_table(g, r, v, deg)
        f = make_factor(g, r, v, t, det=deg and g.random() < 0.4)
        st, res = attempt(ctx, op, lambda: m.set_factor(v, f))
        must(what + f" {v}", st, res)
        if st == "ok":
            r.tab[v] = t
        else:
            cur = table(m.factors[v], r.pa[v] + [v], r.dom)
            if np.abs(cur - t).max() <= 1e-12:
                r.tab[v] = t
    elif k == "reject":
        v = g.choice(r.nodes)
        kind, f = bad_factor(g, r, v)
        st, res = attempt(ctx, op, lambda: m.set_factor(v, f))
        ctx.check(st != "ok", "accepted", f"{what}: {v} accepted a factor with {kind}")
        ctx.stat("rejected updates")
    elif k in ("randomize", "inplace"):
        if not scm:
            return
        vs = lib.pick_subset(g, exo, 1, len(exo))
        zero = g.random() < 0.5
        if g.random() < 0.1 and k == "randomize":
            e = g.choice(r.endo)
            st, res = attempt(ctx, op, lambda: m.randomize_factors(vs + [e], allow_zero=zero), "positive")
            ctx.check(st != "ok" or all(len(r.dom[e]) == 1 for _ in [0]), "accepted", f"{what}: the equation of {e} was replaced by a distribution")
            return
        st, res = attempt(ctx, op, lambda: m.randomize_factors(list(vs), in_place=k == "inplace", allow_zero=zero), "positive" if zero else "any")
        must(what + f" {vs}", st, res)
        if k == "inplace":
            if st == "ok":
                for v in vs:
                    adopt(ctx, m, r, v, what, positive=not zero, fresh=not op["script"])
            else:
                partly(ctx, m, r, vs, what, positive=not zero)
        elif st == "ok":
            r2 = r.clone()
            for v in vs:
                adopt(ctx, res, r2, v, what, positive=not zero, fresh=not op["script"])
            fam.append((res, r2))
    elif k == "fill":
        if not scm or any(v in r.endo and not r.pa[v] for v in r.nodes):
            return
        doms = {v: list(r.dom[v]) for v in r.nodes}
        which = g.choice(["equations", "marginals", "factors"])
        st, res = attempt(ctx, op, lambda: getattr(m, "fill_random_" + which)(doms), "positive")
        must(what + " " + which, st, res)
        vs = (r.endo if which != "marginals" else []) + (exo if which != "equations" else [])
        if st == "ok":
            for v in vs:
                adopt(ctx, m, r, v, what, degenerate=v in r.endo)
        else:
            partly(ctx, m, r, vs, what, degenerate=r.endo)
    elif k == "bnfill":
        if scm:
            return
        doms = {v: list(r.dom[v]) for v in r.nodes}
        st, res = attempt(ctx, op, lambda: m.randomize_factors(doms), "positive")
        must(what, st, res)
        if st == "ok":
            for v in r.nodes:
                adopt(ctx, m, r, v, what, fresh=not op["script"])
        else:
            partly(ctx, m, r, r.nodes, what)
    elif k == "badderive":
        v = g.choice(r.nodes)
        if scm:
            st, res = attempt(ctx, op, lambda: m.intervention(**{v: "no such state"}))
            ctx.check(st != "ok", "accepted", f"{what}: intervention {v}='no such state' was accepted")
        try:
            m.rename_vars({v: g.choice([x for x in r.nodes if x != v])})
        except Exception:
            pass
    elif k == "minimalize":
        minimal(ctx, m, r, op, g, what)
    else:
        derive(ctx, fam, m, r, op, g, what)


def derive(ctx, fam, m, r, op, g, what):
    k, scm = op["k"], r.kind == "scm"
    r2 = r.clone()
    if len(fam) > 6:
        return
    if k == "copy":
        fn = m.copy
    elif k == "builder":
        def fn():
            fs = m.factors if g.random() < 0.5 else list(m.factors.values())
            return m.builder(dag=m.graph, factors=fs)
    elif k == "intervention":
        if not scm:
            return
        vs = lib.pick_subset(g, r.nodes if g.random() < 0.3 else r.endo, 1, g.choice([2, 2, 3, 4]))
        do = {v: g.choice(r.dom[v]) for v in vs}
        fn = lambda: m.intervention(**do)
        for v in do:
            r2.pa[v] = []
            r2.tab[v] = np.array([1.0 if s == do[v] else 0.0 for s in r.dom[v]])
        what += f" {do}"
    elif k == "rename":
        style = g.choice(["suffix", "swap", "cycle"])
        if style == "suffix":
            mp = {v: v + "q" for v in r.nodes}
        else:
            sh = list(r.nodes)
            g.shuffle(sh)
            mp = dict(zip(r.nodes, sh))
        fn = lambda: m.rename_vars(dict(mp))
        r2 = Ref(r.kind, [mp[v] for v in r.nodes], {mp[v]: [mp[p] for p in r.pa[v]] for v in r.nodes}, {mp[v]: r.dom[v] for v in r.nodes},
                 {mp[v]: r.tab[v] for v in r.nodes}, [mp[v] for v in r.endo], r.cast)
        what += f" {mp}"
    elif k == "to_bnet" or k == "convert":
        if not scm:
            # back to a structural model where every non-root is an equation
            if k == "convert" and all(not r.pa[v] or ((r.tab[v] == 0) | (r.tab[v] == 1)).all() for v in r.nodes):
                from bcause.models.transform.conversion import bnet_to_causal
                fn = lambda: bnet_to_causal(m)
                r2.kind, r2.endo, r2.cast = "scm", [v for v in r.nodes if r.pa[v]], True
                if not r2.endo:
                    return
            else:
                return
        else:
            if k == "to_bnet":
                fn = m.to_bnet
            else:
                from bcause.models.transform.conversion import causal_to_bnet
                fn = lambda: causal_to_bnet(m)
            r2.kind, r2.endo = "bn", []
    elif k == "to_multinomial":
        if not scm:
            return
        fn = m.to_multinomial
        r2.cast = True
    elif k == "from_model":
        if not scm or set(r.endo) != {v for v in r.nodes if r.pa[v]}:
            return
        from bcause.models.cmodel import StructuralCausalModel
        fn = lambda: StructuralCausalModel.from_model(m)
        r2.cast = True
    elif k == "pgmpy":
        if scm:
            return
        from bcause.conversion.pgmpy import toPgmpyBNet, toBCauseBNet
        fn = lambda: toBCauseBNet(toPgmpyBNet(m))
    else:
        raise ValueError(k)
    st, res = attempt(ctx, op, fn)
    must(what, st, res)
    if st == "ok":
        ctx.check(res is not m, "not-a-new-model", f"{what} returned the model itself")
        verify(ctx, res, r2, what + " (the result)")
        if k == "to_multinomial":
            ctx.check(not res.has_deterministic, "factor", f"{what}: still has function factors")
        fam.append((res, r2))
        ctx.stat("derived models")


def minimal(ctx, m, r, op, g, what):
    from bcause.models.transform.simplification import minimalize
    if r.kind == "scm":
        return
    t = g.choice(r.nodes)
    others = [v for v in r.nodes if v != t]
    ev = {v: g.choice(r.dom[v]) for v in lib.pick_subset(g, others, 0, 2)}
    spec = {"nodes": r.nodes, "dom": r.dom, "pa": r.pa, "endo": [], "kind": "bn"}
    exp = R.Ref(spec, r.tab).query([t], ev)
    st, res = attempt(ctx, op, lambda: minimalize(m, t, dict(ev)))
    must(what + f" {t}|{ev}", st, res)
    if st != "ok" or exp is None:
        return
    acc = {}
    vs = sorted({x for f in res.factors.values() if f is not None for x in f.variables})
    ctx.check(t in vs and t in res.variables, "graph", f"{what}: the target {t} is gone")
    out = np.zeros(len(r.dom[t]))
    fs = []
    for f in res.factors.values():
        fv = list(f.variables)
        fs.append((fv, table(f, fv, r.dom)))
    for pos in itertools.product(*[range(len(r.dom[v])) for v in vs]):
        val = dict(zip(vs, pos))
        if any(v in val and r.dom[v][val[v]] != s for v, s in ev.items()):
            continue
        p = 1.0
        for fv, a in fs:
            p *= float(a[tuple(val[x] for x in fv)])
        out[val[t]] += p
    ctx.check(out.sum() > 0 and np.abs(out / out.sum() - exp).max() < 1e-8, "pruned-model", f"{what}: P({t}|{ev}) is {(out / max(out.sum(), 1e-300)).tolist()} in the pruned model, {exp.tolist()} in the original")
