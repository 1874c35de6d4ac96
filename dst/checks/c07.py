"""C07: causal and counterfactual answers against enumeration of the exogenous states, over histories."""
from .. import lib, ref as R, spec as S, causal as C
from ..core import Violation, Inconclusive
from ..kernel import LOW

SHRINK = [["ops"]]
TIMEOUT = 100.0


def gen(rng, i, tier):
    spec = S.gen_scm(rng, max_endo=rng.choice([2, 3, 4, 5]), max_exo=3, max_exo_card=5, max_worlds=60,
                     every_endo_has_exo=rng.random() < 0.7)
    pre = {}
    if rng.random() < 0.2:
        v = rng.choice(spec["endo"])
        pre = {v: rng.choice(spec["dom"][v])}
    s2 = C.mutilate(spec, pre) if pre else spec
    ref = R.Ref(s2)
    ops = []
    ne = rng.randint(1, 2)
    engines = [rng.choice(lib.HEUR) for _ in range(ne)]
    for _ in range(rng.randint(2, 6)):
        q = C.gen_causal(rng, s2, ref)
        if q is None:
            continue
        e = rng.randrange(ne)
        r = rng.random()
        if r < 0.58:
            ops.append({"op": "query", "e": e, "q": q})
        elif r < 0.66:
            ops.append({"op": "rerun" if rng.random() < 0.5 or q["k"] != "causal" else "compile", "e": e, "q": q})
        elif r < 0.78:
            ops.append({"op": "bad", "e": e, "q": q, "how": rng.choice(["do_unknown", "do_state", "t_unknown", "ev_unknown"])})
        else:
            ops.append({"op": "interrupt", "e": e, "q": q, "call": lib.gen_call(rng, [20, 200, 1000, 5000]),
                        "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
    q = C.gen_causal(rng, s2, ref)
    if q:
        ops.append({"op": "query", "e": rng.randrange(ne), "q": q})
    return {"spec": spec, "pre": pre, "engines": engines, "ops": ops, "wrap": rng.random() < 0.15}


def execute(sc, ctx):
    spec = sc["spec"]
    s2 = C.mutilate(spec, sc["pre"]) if sc["pre"] else spec
    ref = R.Ref(s2)
    from bcause.inference.causal.elimination import CausalVariableElimination
    model = S.build(spec)
    if sc["pre"]:
        model = ctx.must("intervention", model.intervention, **sc["pre"])
    engines = []
    for h in sc["engines"]:
        hh = lib.heuristic(h)
        engines.append(ctx.must("engine", CausalVariableElimination, model, hh) if hh is not None else ctx.must("engine", CausalVariableElimination, model))
    disturbed = False
    with ctx.kernel(budget=60_000_000, scope=LOW) as kn:
        for k, op in enumerate(sc["ops"]):
            eng, q = engines[op["e"]], op["q"]
            exp = C.expected(ref, q)
            if exp is None:
                continue
            what = f"op {k} {q}"
            if op["op"] == "query":
                ans = ctx.must(what, C.call, eng, q)
                ctx.log(k, C.judge(ctx, ans, q, exp, spec["dom"], what))
                ctx.stat("answers")
                ctx.nontrivial = True
                if disturbed:
                    ctx.stat("answers after a failed or interrupted call")
            elif op["op"] == "rerun":
                ans = ctx.must(what, C.call, eng, q)
                C.judge(ctx, ans, q, exp, spec["dom"], what)
                if q["k"] in ("causal", "cf"):
                    for j in range(2):
                        ans = ctx.must(what + " run again", eng.run)
                        ctx.log(k, C.judge(ctx, ans, q, exp, spec["dom"], what + " run again"))
                ctx.nontrivial = True
                ctx.stat("answers", 2)
            elif op["op"] == "compile":
                # compiled twice, and compiled for something else by another engine in between
                ctx.must(what + " compile", eng.compile, list(q["t"]), dict(q["do"]), dict(q["ev"]))
                engines.append(ctx.must("engine", CausalVariableElimination, model))
                ctx.must(what + " compile elsewhere", engines.pop().compile, [spec["endo"][0]], {})
                ans = ctx.must(what + " run", eng.run)
                ctx.log(k, C.judge(ctx, ans, q, exp, spec["dom"], what + " compiled and run"))
                ctx.stat("answers")
            elif op["op"] == "bad":
                q2 = dict(q)
                try:
                    if op["how"] == "do_unknown":
                        eng.causal_query(spec["endo"][0], do={"Nope": 1})
                    elif op["how"] == "do_state":
                        eng.counterfactual_query(spec["endo"][0], do={spec["endo"][-1]: "no-such-state"})
                    elif op["how"] == "t_unknown":
                        eng.counterfactual_query("Nope", do={spec["endo"][0]: spec["dom"][spec["endo"][0]][0]})
                    else:
                        eng.causal_query(spec["endo"][0], do={spec["endo"][-1]: spec["dom"][spec["endo"][-1]][0]}, evidence={"Nope": 0})
                    ctx.log(k, "accepted")
                except Exception as ex:
                    ctx.log(k, type(ex).__name__)
                    ctx.fault("rejected call")
                    disturbed = True
            else:
                nf = len(kn.fired)
                kn.arm_here(op["exc"], op["call"])
                try:
                    ans = C.call(eng, q)
                    kn.disarm()
                    C.judge(ctx, ans, q, exp, spec["dom"], what + " (fault armed)")
                    ctx.log(k, "completed")
                except (Violation, Inconclusive):
                    raise
                except (Exception, KeyboardInterrupt) as ex:
                    if len(kn.fired) == nf:
                        raise Violation("exception", f"{what} raised {type(ex).__name__}: {ex}")
                    ctx.log(k, "interrupted")
                    disturbed = True
                finally:
                    kn.disarm()
    for op in sc["ops"]:
        q = op["q"]
        ctx.cov(op["op"], q["k"], len(q.get("t", [1])), len(q["do"]) if "do" in q else 0, len(q.get("ev", [])), spec["vtype"], bool(sc["pre"]), spec["det"])
    ctx.cov(len(spec["endo"]), len(spec["nodes"]), spec["vtype"], tuple(sorted(len(p) for p in spec["pa"].values())))


def simplify(sc):
    if sc["pre"]:
        yield dict(sc, pre={})
    if sc["spec"]["vtype"] != "numpy":
        yield dict(sc, spec=dict(sc["spec"], vtype="numpy"))
    if sc["spec"]["det"]:
        yield dict(sc, spec=dict(sc["spec"], det=False))
