"""C04: a learner interrupted at any instant exposes completed iterations, continues and can be rerun."""
import math

from .. import lib, learn as LN, ref as R, spec as S
from ..kernel import LOW
from ..core import Violation, Inconclusive

SHRINK = [["ops"], ["L", "rows"]]
TIMEOUT = 100.0


def gen(rng, i, tier):
    kind = rng.choice(["em", "em", "em", "gd"])
    if kind == "em" and rng.random() < 0.5:
        # one step after another, most of them cut short
        for _ in range(20):
            L = LN.gen_learn(rng, max_rows=6, obs_exo=False, max_exo=3)
            if len(L["hidden"]) > 1:
                break
        L["trainable"] = None
        ops = [{"op": "run", "fault": None}]
        for _ in range(rng.randint(5, 10)):
            ops.append({"op": "step", "fault": gen_fault(rng) if rng.random() < 0.85 else None, "data": rng.random() < 0.2})
        return {"kind": kind, "L": L, "start": LN.gen_start(rng, L), "max_iter": rng.choice([0, 1, 2]), "tol": 1e-6, "ops": ops, "other": None}
    L = LN.gen_learn(rng, gd=kind == "gd", max_rows=12)
    ops = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.55:
            ops.append({"op": "run", "fault": gen_fault(rng)})
        elif r < 0.65:
            ops.append({"op": "bad", "how": rng.choice(["none", "endo", "alien"])})
        elif r < 0.85:
            ops.append({"op": "step", "fault": gen_fault(rng) if rng.random() < 0.8 else None, "data": rng.random() < 0.3})
        else:
            ops.append({"op": "run", "fault": None})
    other = None
    if rng.random() < 0.4:
        # another data set of the same model, learned from in between
        other = {"cols": list(L["cols"]), "hidden": list(L["hidden"]), "extra_nan": list(L["extra_nan"])}
        if kind == "em" and L["trainable"] is None and rng.random() < 0.5:
            # with other columns: another exogenous variable is observed, or none
            exo = [v for v in L["spec"]["nodes"] if v not in L["spec"]["endo"]]
            seen = [rng.choice(exo)] if rng.random() < 0.8 and len(exo) > 1 else []
            other["cols"] = [c for c in L["cols"] if c not in exo] + seen
            rng.shuffle(other["cols"])
            other["hidden"] = [u for u in exo if u not in seen]
            other["extra_nan"] = [u for u in other["hidden"] if rng.random() < 0.3]
        other["rows"] = lib.sample_rows(rng, L["spec"], rng.choice([1, 4, 9]), other["cols"])
        ops.insert(rng.randrange(len(ops) + 1), {"op": "other", "fault": gen_fault(rng) if rng.random() < 0.4 else None})
    return {"kind": kind, "L": L, "start": LN.gen_start(rng, L), "max_iter": rng.choice([1, 2, 3, 4, 6, 12]), "tol": rng.choice([1e-3, 1e-6]), "ops": ops,
            "other": other}


def gen_fault(rng):
    if rng.random() < 0.3:
        return {"kind": "engine", "query": rng.choice([1, 1, 1, 2, 2, 3, rng.randint(1, 14)]), "exc": rng.choice(["RuntimeError", "MemoryError"])}
    return {"kind": "raise", "call": lib.gen_call(rng, [50, 300, 2000, 8000, 30000]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}


class FailingEngine:
    """the probabilistic engine the learner is given; fails at a chosen query"""
    left = 0
    exc = None

    def __init__(self, model):
        from bcause.inference.probabilistic.elimination import VariableElimination
        self._e = VariableElimination(model)

    def query(self, *a, **k):
        c = FailingEngine
        if c.exc is not None:
            c.left -= 1
            if c.left <= 0:
                e, c.exc = c.exc, None
                raise {"RuntimeError": RuntimeError, "MemoryError": MemoryError}[e]("injected engine failure")
        return self._e.query(*a, **k)

    def __getattr__(self, n):
        return getattr(self._e, n)


class FailingOptimiser:
    """scipy's optimiser under the gradient learner; fails at a chosen call"""
    real = None

    @classmethod
    def install(cls):
        import scipy.optimize._minimize as sm
        if cls.real is None:
            cls.real = sm._minimize_slsqp

            def slsqp(*a, **k):
                c = FailingEngine
                if c.exc is not None:
                    c.left -= 1
                    if c.left <= 0:
                        e, c.exc = c.exc, None
                        raise {"RuntimeError": RuntimeError, "MemoryError": MemoryError}[e]("injected engine failure")
                return cls.real(*a, **k)
            sm._minimize_slsqp = slsqp


def build(sc, prior):
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.learning.parameter.gradient import GradientLikelihood
    L = sc["L"]
    tr = list(L["trainable"]) if L["trainable"] else None
    if sc["kind"] == "em":
        return ExpectationMaximization(prior, trainable_vars=tr, inference_method=FailingEngine)
    return GradientLikelihood(prior, trainable_vars=tr, tol=sc["tol"])


def evolution(ctx, learner, L, what):
    return [LN.read_tables(ctx, m, L, f"{what}, evolution {j}") for j, m in enumerate(learner.model_evolution)]


def exposed(ctx, ln, L, what):
    try:
        m = ln.model
    except AttributeError:
        return None                      # nothing was ever initialised
    return None if m is None else LN.read_tables(ctx, m, L, what)


def same(a, b, tol=1e-6):
    return LN.table_diff(a, b) <= tol


def execute(sc, ctx):
    L = sc["L"]
    data = LN.data_frame(L)
    base = LN.tables(L["spec"], sc["start"])
    FailingEngine.exc = None
    FailingOptimiser.install()
    tracks = {}

    def truth(which):
        """the undisturbed evolution, one more step than the limit so that resumed steps can be compared"""
        if which not in tracks:
            d = data if which == "main" else LN.data_frame(dict(L, **sc["other"]))
            ln = build(sc, LN.start_model(L, sc["start"]))
            ctx.must("fresh run", ln.run, d, max_iter=sc["max_iter"])
            E = evolution(ctx, ln, L, "fresh run")
            n = len(E)
            for _ in range(3 + sum(op["op"] == "step" for op in sc["ops"]) if sc["kind"] == "em" else 1):
                ctx.must("fresh step", ln.step)
            E = evolution(ctx, ln, L, "fresh run")
            tracks[which] = (E, n)
        return tracks[which]

    E, nrun = truth("main")
    if sc["other"]:
        truth("other")
    ln = build(sc, LN.start_model(L, sc["start"]))
    state = None              # (track, number of completed iterations) or None when unknown
    with ctx.kernel(budget=120_000_000, scope=LOW) as kn:
        for k, op in enumerate(sc["ops"] + [{"op": "run", "fault": None}]):
            what = f"op {k} {op['op']}"
            f = op.get("fault")
            nf = len(kn.fired)
            if op["op"] == "step" and state is None:
                continue
            if op["op"] == "bad":
                before = None
                try:
                    if op["how"] == "none":
                        ln.run(None, max_iter=2)
                    elif op["how"] == "endo":
                        d = data.copy()
                        d["no such variable"] = "x"
                        d[L["spec"]["endo"][0]] = [object() for _ in range(len(d))]
                        ln.run(d, max_iter=2)
                    else:
                        ln.run([1, 2, 3], max_iter=2)
                    ctx.log(k, "accepted")
                except Exception as e:
                    ctx.log(k, type(e).__name__)
                    ctx.fault("rejected call")
                state = None
                continue
            which = "other" if op["op"] == "other" else ("main" if op["op"] == "run" else state[0])
            Et, nt = truth(which)
            prev = exposed(ctx, ln, L, what + " (before)")
            if f:
                if f["kind"] == "engine":
                    FailingEngine.left, FailingEngine.exc = f["query"], f["exc"]
                else:
                    kn.arm_here(f["exc"], f["call"])
            failed = None
            try:
                if op["op"] == "run":
                    ln.run(data, max_iter=sc["max_iter"])
                elif op["op"] == "other":
                    ln.run(LN.data_frame(dict(L, **sc["other"])), max_iter=sc["max_iter"])
                elif op.get("data"):
                    ln.step(data if state[0] == "main" else LN.data_frame(dict(L, **sc["other"])))
                else:
                    ln.step()
            except (Violation, Inconclusive):
                raise
            except (Exception, KeyboardInterrupt) as e:
                failed = e
            injected = len(kn.fired) > nf or (f and f["kind"] == "engine" and FailingEngine.exc is None)
            kn.disarm()
            FailingEngine.exc = None
            if failed is not None:
                if not injected:
                    raise Violation("exception", f"{what} raised {type(failed).__name__}: {failed}")
                if f["kind"] == "engine":
                    ctx.fault("engine failure")
                ctx.log(k, "failed", type(failed).__name__)
                state = after_failure(ctx, ln, L, what, Et, state if op["op"] == "step" else None, which, prev, f["kind"] == "engine")
                ctx.nontrivial = True
                continue
            # completed: exactly what a fresh learner gives
            ev = evolution(ctx, ln, L, what)
            want = nt if op["op"] != "step" else state[1] + 2
            if want <= len(Et):
                ctx.check(len(ev) == want, "evolution", f"{what}: {len(ev) - 1} iterations, a fresh learner has {want - 1}")
                for j in range(want):
                    ctx.check(same(ev[j], Et[j]), "not-as-fresh", f"{what}: iteration {j} is {LN.fp(ev[j], 6)}, undisturbed it is {LN.fp(Et[j], 6)}")
                t = LN.read_tables(ctx, ln.model, L, what)
                ctx.check(same(t, Et[want - 1]), "not-as-fresh", f"{what}: the model is not iteration {want - 1}")
                state = (which, want - 1)
                ctx.log(k, want, LN.fp(t, 6))
            else:
                state = None
            ctx.stat("completed calls compared")
    sp = L["spec"]
    for op in sc["ops"]:
        ctx.cov(sc["kind"], op["op"], str((op.get("fault") or {}).get("kind")), len(sp["nodes"]), sc["max_iter"], bool(L["trainable"]))


def after_failure(ctx, ln, L, what, E, state, which, prev, begun):
    """the model must be a completed iteration, the evolution a prefix of the undisturbed one"""
    try:
        m = ln.model
    except AttributeError:
        return None                      # nothing was ever initialised
    t = LN.read_tables(ctx, m, L, what + " (after the failure)")
    try:
        ev = evolution(ctx, ln, L, what + " (after the failure)")
    except AttributeError:
        return None
    n = 0
    while n < len(ev) and n < len(E) and same(ev[n], E[n]):
        n += 1
    if n < len(ev):
        # not (yet) on this run's track: the failure hit before the run began; then nothing of it may show
        if state is None and not begun:
            exo = [v for v in L["spec"]["nodes"] if v not in L["spec"]["endo"]]
            LN.check_valid(ctx, t, E[0], dict(L, trainable=None, hidden=exo), what + " (after the failure)", tol=1e-6)
            ok = any(same(t, x) for x in ev) or same(t, E[0])
            ctx.check(ok, "torn", f"{what}: after the failure the model is {LN.fp(t, 6)}, no completed iteration")
            return None
        ctx.violate("evolution", f"{what}: after the failure the evolution has {len(ev)} models, only {n} of them completed iterations in order")
    hit = [j for j in (n - 1, n) if 0 <= j < len(E) and same(t, E[j])]
    setup = state is None and not begun and n <= 1 and (same(t, E[0]) or prev is not None and same(t, prev))
    ctx.check(bool(hit) or setup, "torn",
              f"{what}: after the failure the model is {LN.fp(t, 6)}, the evolution ends with iteration {n - 1}: {LN.fp(E[n - 1], 6) if n else None}")
    if state is not None:
        ctx.check(n - 1 >= state[1], "lost", f"{what}: after the failure {n - 1} iterations are left of {state[1]}")
    if not hit or (n - 1) not in hit:
        return None
    if n - 1 == 0:
        # the failure may have hit while the run was being set up: only a rerun is promised then
        return None
    return (which, n - 1)
