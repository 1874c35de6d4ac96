"""C09: interval answers are the envelope of the current set of models, over histories."""
import numpy as np

from .. import lib, ref as R, spec as S, causal as C
from ..kernel import LOW
from ..core import Violation, Inconclusive

SHRINK = [["ops"]]
TIMEOUT = 100.0


def variant(rng, spec, equations, near=None):
    """a model over the same graph and domains with other probabilities (and other equations)"""
    tab = dict(spec["tab"])
    for v in spec["nodes"]:
        k = len(spec["dom"][v])
        if v not in spec["endo"]:
            p = [rng.random() + 0.01 for _ in range(k)]
            if near:         # almost the model it is derived from
                p = [x * (1 + near * rng.random()) for x in spec["tab"][v]]
            tab[v] = [x / sum(p) for x in p]
        elif equations and rng.random() < 0.5:
            tab[v] = [rng.randrange(k) for _ in tab[v]]
    s = dict(spec, tab=tab, axes=dict(spec["axes"]))
    if rng.random() < 0.3:
        for v in s["axes"]:
            a = list(s["axes"][v])
            rng.shuffle(a)
            s["axes"][v] = a
    return s


def gen(rng, i, tier):
    spec = S.gen_scm(rng, max_endo=3, max_exo=2, max_exo_card=4, max_worlds=20, vtypes=("numpy", "numpy", "list", "treedict"))
    eq = rng.random() < 0.4
    near = rng.choice([1e-3, 1e-5]) if rng.random() < 0.15 else None
    pool = [variant(rng, spec, eq and not near, near) for _ in range(rng.randint(2, 6))]
    refs = [R.Ref(s) for s in pool]
    ops = []

    def q(kinds=("causal", "causal", "cf", "pn", "ps", "pns")):
        return C.gen_causal(rng, spec, refs[0], kinds=kinds, worlds=2, ref_list=refs)
    for _ in range(rng.randint(4, 10)):
        r = rng.random()
        if r < 0.16:
            ops.append({"op": "set", "ms": [rng.randrange(len(pool)) for _ in range(rng.choice([1, 2, 3, 3, 6]))], "form": rng.choice(["list", "list", "caller"])})
        elif r < 0.36:
            ops.append({"op": "add", "ms": [rng.randrange(len(pool)) for _ in range(rng.randint(0, 2))], "form": rng.choice(["list", "list", "caller", "tuple"])})
        elif r < 0.42:
            ops.append({"op": "caller", "how": rng.choice(["append", "clear", "reverse"]), "m": rng.randrange(len(pool))})
        elif r < 0.48:
            ops.append({"op": "interval", "v": rng.random() < 0.6})
        elif r < 0.52:
            ops.append({"op": "clear"})
        elif r < 0.58:
            ops.append({"op": "compile"})
        elif r < 0.64:
            ops.append({"op": "bad", "how": rng.choice(["t", "do", "state", "addbad"])})
        else:
            qq = q()
            if qq is None:
                continue
            f = None
            if rng.random() < 0.35:
                f = {"kind": "raise", "call": lib.gen_call(rng, [20, 500, 3000, 9000]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])} \
                    if rng.random() < 0.6 else {"kind": rng.choice(["engine-new", "engine-query"]), "n": rng.randint(1, 5)}
            ops.append({"op": "query", "q": qq, "fault": f})
    qq = q()
    if qq:
        ops.append({"op": "query", "q": qq, "fault": None})
    return {"spec": spec, "pool": pool, "ops": ops, "ctor": [rng.randrange(len(pool)) for _ in range(rng.randint(0, 3))], "interval": rng.random() < 0.85,
            "engine": rng.choice(["default", "seam"])}


class Seam:
    """the precise engine the multi-model engine is given; fails when told to"""
    plan = None

    def __init__(self, model):
        Seam.hit("engine-new")
        from bcause.inference.causal.elimination import CausalVariableElimination
        self._e = CausalVariableElimination(model)

    @staticmethod
    def hit(kind):
        p = Seam.plan
        if p is not None and p["kind"] == kind:
            p["n"] -= 1
            if p["n"] <= 0:
                Seam.plan = None
                raise RuntimeError("injected engine failure")

    def query(self, *a, **k):
        Seam.hit("engine-query")
        return self._e.query(*a, **k)

    def __getattr__(self, n):
        return getattr(self._e, n)


def execute(sc, ctx):
    from bcause.inference.causal.multi import CausalMultiInference
    spec = sc["spec"]
    models = [S.build(s) for s in sc["pool"]]
    refs = [R.Ref(s) for s in sc["pool"]]
    caller = [models[i] for i in sc["ctor"]]
    cur = list(sc["ctor"])
    mine = list(sc["ctor"])          # what the caller's list must contain
    Seam.plan = None
    kw = {"causal_inf_fn": Seam} if sc["engine"] == "seam" else {}
    inf = CausalMultiInference(caller, interval_result=sc["interval"], **kw)
    iv = sc["interval"]
    last = {}
    with ctx.kernel(budget=80_000_000, scope=LOW) as kn:
        for k, op in enumerate(sc["ops"]):
            what = f"op {k} {op['op']}"
            if op["op"] in ("set", "add"):
                ms = [models[i] for i in op["ms"]]
                if op["form"] == "caller":
                    arg, ids = caller, list(mine)
                else:
                    arg, ids = (tuple(ms) if op["form"] == "tuple" else ms), list(op["ms"])
                n = len(arg)
                ctx.must(what, inf.set_models if op["op"] == "set" else inf.add_models, arg)
                ctx.check(len(arg) == n, "aliased", f"{what}: the caller's list now has {len(arg)} entries instead of {n}")
                cur = ids if op["op"] == "set" else cur + ids
                if op["op"] == "set":
                    last = {}
            elif op["op"] == "clear":
                ctx.must(what, inf.set_models, [])
                cur = []
                last = {}
            elif op["op"] == "caller":
                if op["how"] == "append":
                    caller.append(models[op["m"]])
                    mine.append(op["m"])
                elif op["how"] == "clear":
                    caller.clear()
                    mine = []
                else:
                    caller.reverse()
                    mine.reverse()
            elif op["op"] == "interval":
                inf.set_interval_result(op["v"])
                iv = op["v"]
            elif op["op"] == "compile":
                if cur:
                    ctx.must(what, inf.compile)
            elif op["op"] == "bad":
                try:
                    e0 = spec["endo"][0]
                    if op["how"] == "t":
                        inf.causal_query("Nope", do={e0: spec["dom"][e0][0]})
                    elif op["how"] == "do":
                        inf.causal_query(e0, do={"Nope": 1})
                    elif op["how"] == "state":
                        inf.counterfactual_query(spec["endo"][-1], do={e0: "no-such-state"})
                    else:
                        inf.add_models(17)
                except Exception as e:
                    ctx.fault("rejected call")
                    ctx.log(k, type(e).__name__)
            else:
                query(sc, ctx, kn, inf, op, what, cur, refs, iv, last)
            ctx.check(same_models(caller, [models[i] for i in mine]), "aliased", f"{what}: the caller's list changed")
            ctx.check(same_models(inf.models, [models[i] for i in cur]), "models", f"{what}: the engine holds {len(inf.models)} models, expected {len(cur)} ({cur})")
    for op in sc["ops"]:
        ctx.cov(op["op"], op.get("form"), op.get("q", {}).get("k"), str((op.get("fault") or {}).get("kind")), len(op.get("ms", [])), sc["engine"])


def same_models(a, b):
    a = list(a)
    return len(a) == len(b) and all(x is y or lib.model_fp(x) == lib.model_fp(y) for x, y in zip(a, b))


def query(sc, ctx, kn, inf, op, what, cur, refs, iv, last):
    spec, q, f = sc["spec"], op["q"], op["fault"]
    n0 = len(kn.fired)
    if f:
        if f["kind"] == "raise":
            kn.arm_here(f["exc"], f["call"])
        elif sc["engine"] == "seam":
            Seam.plan = dict(f)
        else:
            f = None
    failed, ans = None, None
    try:
        ans = C.call(inf, q)
    except (Violation, Inconclusive):
        raise
    except (Exception, KeyboardInterrupt) as e:
        failed = e
    inj = len(kn.fired) > n0 or (f and f["kind"].startswith("engine") and Seam.plan is None)
    kn.disarm()
    Seam.plan = None
    if not cur:
        ctx.check(failed is not None, "no-models", f"{what}: an answer without any model: {ans}")
        return
    if failed is not None:
        if not inj:
            raise Violation("exception", f"{what} {q} raised {type(failed).__name__}: {failed}")
        if f["kind"].startswith("engine"):
            ctx.fault(f["kind"])
        ctx.log(what, "failed")
        ctx.nontrivial = True
        return
    ctx.cov("answer", q["k"], len(q.get("t", [])), len(q.get("ev", {})), len(cur), len(set(cur)), iv, spec["vtype"], spec["det"])
    exps = [C.expected(refs[i], q) for i in cur]
    if any(e is None for e in exps):
        return
    ctx.stat("answers")
    ctx.nontrivial = True
    if iv:
        a = C.judge_interval(ctx, ans, q, exps, spec["dom"], f"{what} {q} models {cur}")
        key = repr(q)
        if key in last:
            for (l0, u0), (l1, u1) in zip(np.reshape(last[key], (-1, 2)), np.reshape(a, (-1, 2))):
                ctx.check(l1 <= l0 + 1e-8 and u1 >= u0 - 1e-8, "narrowed", f"{what}: [{l0},{u0}] became [{l1},{u1}] by adding models")
        last[key] = a
        ctx.log(what, lib.rnd_arr(a, 8))
    else:
        ctx.check(isinstance(ans, (list, tuple)) and len(ans) == len(cur), "list", f"{what}: {len(ans) if hasattr(ans, '__len__') else ans} answers for {len(cur)} models")
        for j, (x, e) in enumerate(zip(ans, exps)):
            C.judge(ctx, x, q, e, spec["dom"], f"{what} {q} model {j}")


def simplify(sc):
    if sc["spec"]["vtype"] != "numpy":
        yield dict(sc, spec=dict(sc["spec"], vtype="numpy"), pool=[dict(s, vtype="numpy") for s in sc["pool"]])
    if sc["spec"]["det"]:
        yield dict(sc, spec=dict(sc["spec"], det=False), pool=[dict(s, det=False) for s in sc["pool"]])
