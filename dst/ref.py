"""Reference models: trivial, brute-force, independent of bcause.  Everything is computed by
enumerating complete assignments."""
import itertools
import math

import numpy as np

from . import spec as S

TOL = 1e-8


class Ref:
    def __init__(self, spec, tables=None):
        """tables: optional {v: array over pa+[v]} overriding spec's numbers."""
        self.spec = spec
        self.nodes = list(spec["nodes"])
        self.dom = spec["dom"]
        self.pa = spec["pa"]
        self.card = {v: len(self.dom[v]) for v in self.nodes}
        self.tables = {v: (tables or {}).get(v, None) for v in self.nodes}
        for v in self.nodes:
            if self.tables[v] is None:
                self.tables[v] = S.full_table(spec, v)
        self.endo = list(spec["endo"])
        self.exo = [v for v in self.nodes if v not in self.endo]
        self._joint = None

    def idx(self, v, s):
        for i, x in enumerate(self.dom[v]):
            if x == s and (isinstance(x, str) == isinstance(s, str)):
                return i
        raise KeyError((v, s))

    # ------------------------------------------------------------- joint over all nodes
    def joint(self, do=None):
        do = do or {}
        if not do and self._joint is not None:
            return self._joint
        n = self.nodes
        out = np.ones([self.card[v] for v in n])
        for v in n:
            if v in do:
                t = np.zeros(self.card[v])
                t[self.idx(v, do[v])] = 1.0
                vars_ = [v]
            else:
                t, vars_ = self.tables[v], self.pa[v] + [v]
            shape = [self.card[x] if x in vars_ else 1 for x in n]
            perm = sorted(range(len(vars_)), key=lambda i: n.index(vars_[i]))
            out = out * np.transpose(t, perm).reshape(shape)
        if not do:
            self._joint = out
        return out

    def _slice(self, arr, variables, evidence):
        """restrict+marginalise arr over nodes -> array over `variables` (in that order)"""
        n = list(self.nodes)
        sl = tuple(self.idx(v, evidence[v]) if v in evidence else slice(None) for v in n)
        a = arr[sl]
        left = [v for v in n if v not in evidence]
        ax = tuple(i for i, v in enumerate(left) if v not in variables)
        a = a.sum(axis=ax)
        left = [v for v in left if v in variables]
        if len(left) > 1:
            a = np.transpose(a, [left.index(v) for v in variables])
        return a

    def prob_evidence(self, evidence, do=None):
        return float(self._slice(self.joint(do), [], evidence))

    def query(self, target, evidence=None, do=None):
        """array over target (given order), None if the evidence is (numerically) impossible"""
        a = self._slice(self.joint(do), list(target), evidence or {})
        z = float(a.sum())
        if z <= 1e-12:
            return None
        return a / z

    def conditional(self, target, given, evidence=None):
        """array over target + given: P(target | given, evidence); nan where P(given,evidence)=0"""
        tv = list(target) + list(given)
        a = self._slice(self.joint(), tv, evidence or {})
        z = a.sum(axis=tuple(range(len(target))), keepdims=True)
        if float(a.sum()) <= 1e-12:
            return None
        with np.errstate(all="ignore"):
            out = a / z
        out = np.where(np.broadcast_to(z, out.shape) <= 1e-13, np.nan, out)
        return out

    # ------------------------------------------------------------- structural semantics
    def _topo_endo(self):
        out, seen = [], set(self.exo)
        todo = list(self.endo)
        while todo:
            for v in todo:
                if all(p in seen for p in self.pa[v]):
                    out.append(v)
                    seen.add(v)
                    todo.remove(v)
                    break
            else:
                raise RuntimeError("cycle in reference model")
        return out

    def worlds(self):
        """[(prob, {exo: idx})] with positive probability"""
        out = []
        for c in itertools.product(*[range(self.card[u]) for u in self.exo]):
            p = 1.0
            for u, i in zip(self.exo, c):
                p *= float(self.tables[u][i])
            if p > 0:
                out.append((p, dict(zip(self.exo, c))))
        return out

    def solve(self, u, do=None):
        """endogenous values (indices) in the world u under an intervention"""
        do = do or {}
        val = dict(u)
        for v in self._topo_endo():
            if v in do:
                val[v] = self.idx(v, do[v])
            else:
                row = self.tables[v]
                for p in self.pa[v]:
                    row = row[val[p]]
                val[v] = int(np.argmax(row))
        return val

    def counterfactual(self, targets, dos, evidence=None, worlds=None):
        """targets: [(var, world)] with world 1..len(dos); array over targets in order"""
        evidence = evidence or {}
        ev = {v: self.idx(v, s) for v, s in evidence.items()}
        acc = np.zeros([self.card[v] for v, _ in targets])
        for p, u in self.worlds():
            fact = self.solve(u)
            if any(fact[v] != i for v, i in ev.items()):
                continue
            cf = [self.solve(u, d) for d in dos]
            acc[tuple(cf[w - 1][v] for v, w in targets)] += p
        z = float(acc.sum())
        if z <= 1e-12:
            return None
        return acc / z

    # ------------------------------------------------------------- likelihood
    def endo_prob(self, rec):
        """P(endogenous record) for a dict var->state over all endogenous variables"""
        return float(self._slice(self.joint(), [], {v: rec[v] for v in self.endo}))

    def log_likelihood(self, counts):
        """counts: {tuple of states in self.endo order: n}"""
        tot = 0.0
        j = self._slice(self.joint(), self.endo, {})
        for k, c in counts.items():
            p = float(j[tuple(self.idx(v, s) for v, s in zip(self.endo, k))])
            if p <= 0:
                return -math.inf
            tot += c * math.log(p)
        return tot


# --------------------------------------------------------------------------- comparing factors

def factor_array(f, variables, dom):
    """Read a bcause factor by value, over the given variables in the given order."""
    shape = [len(dom[v]) for v in variables]
    out = np.empty(shape)
    for pos in itertools.product(*[range(s) for s in shape]):
        out[pos] = float(f.get_value(**{v: dom[v][i] for v, i in zip(variables, pos)}))
    return out


def diff(actual, expected):
    """largest absolute difference, ignoring cells where expected is nan; None -> inf"""
    if actual.shape != expected.shape:
        return math.inf
    m = ~np.isnan(expected)
    if not m.any():
        return 0.0
    a, e = actual[m], expected[m]
    if np.isnan(a).any():
        return math.inf
    return float(np.max(np.abs(a - e)))


def tables_of_model(model, spec):
    """{v: array over pa+[v]} read back from a bcause model through its public API"""
    out = {}
    for v in spec["nodes"]:
        f = model.factors[v]
        if type(f).__name__ == "DeterministicFactor":
            f = f.to_multinomial()
        out[v] = factor_array(f, spec["pa"][v] + [v], spec["dom"])
    return out
