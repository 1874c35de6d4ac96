"""C06: probabilistic engines against brute force, over histories with rejected, failed and interrupted calls."""
from .. import lib, ref as R, spec as S
from ..core import Violation, Inconclusive
from ..kernel import LOW

SHRINK = [["ops"]]
TIMEOUT = 100.0


def gen_query(rng, spec, ref, data_cols=None, data_rows=None):
    nodes = list(spec["nodes"])
    for _ in range(40):
        t = lib.pick_subset(rng, nodes, 1, rng.choice([1, 1, 2, 3, 4]))
        rest = [v for v in nodes if v not in t]
        cond = lib.pick_subset(rng, rest, 1, rng.choice([1, 2, 2, 3, 4])) if rest and rng.random() < 0.35 else None
        rest = [v for v in rest if not cond or v not in cond]
        ev = lib.pick_subset(rng, rest, 0, rng.choice([0, 1, 2, 3, 4]))
        evidence = {v: rng.choice(spec["dom"][v]) for v in ev}
        if data_rows and rng.random() < 0.7:         # a record that is there
            r = rng.choice(data_rows)
            evidence = {v: r[data_cols.index(v)] for v in ev}
        if data_rows is not None:
            idx = [data_cols.index(v) for v in evidence]
            if not any(all(r[i] == s for i, s in zip(idx, evidence.values())) for r in data_rows):
                continue
        elif ref.prob_evidence(evidence) < 1e-9:
            continue
        return {"target": t, "cond": cond, "evidence": evidence, "form": rng.choice(["list", "str", "list", "tuple"]),
                "evform": rng.choice(["kw", "kw", "none"])}
    return {"target": [nodes[0]], "cond": None, "evidence": {}, "form": "list", "evform": "kw"}


def gen(rng, i, tier):
    kind = rng.choice(["bn", "bn", "bn", "scm"])
    if kind == "bn":
        spec = S.gen_bn(rng, max_nodes=rng.choice([3, 4, 5, 6]), max_card=4, max_joint=500)
    else:
        spec = S.gen_scm(rng, max_endo=3, max_exo=2, max_exo_card=4, det_ok=False)
    ref = R.Ref(spec)
    engines = []
    rows = None
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.22:
            engines.append({"type": "laplace", "pre": rng.random() < 0.7})
        else:
            engines.append({"type": "ve", "heur": rng.choice(lib.HEUR)})
    if any(e["type"] == "laplace" for e in engines):
        rows = lib.sample_rows(rng, spec, rng.choice([1, 3, 10, 40]))
    cols = list(spec["nodes"])
    ops = []
    for _ in range(rng.randint(3, 9)):
        e = rng.randrange(len(engines))
        lap = engines[e]["type"] == "laplace"
        q = gen_query(rng, spec, ref, cols if lap else None, rows if lap else None)
        r = rng.random()
        if r < 0.60:
            ops.append({"op": "query", "e": e, "q": q})
        elif r < 0.72:
            bad = rng.choice(["overlap", "repeat", "unknown", "unknown_ev", "badstate"])
            ops.append({"op": "bad", "e": e, "q": q, "how": bad})
        elif r < 0.92:
            ops.append({"op": "interrupt", "e": e, "q": q, "call": lib.gen_call(rng, [5, 20, 60, 200, 600, 2000]),
                        "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
        elif r < 0.96:
            ops.append({"op": "rerun", "e": e, "q": q})
        else:
            ops.append({"op": "compile", "e": e, "q": q})
    q = gen_query(rng, spec, ref)
    if not any(e["type"] == "ve" for e in engines):
        engines.append({"type": "ve", "heur": "default"})
    e = next(k for k, x in enumerate(engines) if x["type"] == "ve")
    ops.append({"op": "query", "e": e, "q": q})
    return {"spec": spec, "engines": engines, "rows": rows, "ops": ops}


def expected(sc, ref, q, eng):
    spec = sc["spec"]
    ev = q["evidence"] if q["evform"] != "none" or q["evidence"] else {}
    if eng["type"] == "laplace":
        import numpy as np
        cols = list(spec["nodes"])
        vs = q["target"] + (q["cond"] or [])
        out = np.zeros([len(spec["dom"][v]) for v in vs])
        n = 0
        for r in sc["rows"]:
            rec = dict(zip(cols, r))
            if any(rec[v] != s for v, s in ev.items()):
                continue
            out[tuple(ref.idx(v, rec[v]) for v in vs)] += 1
            n += 1
        if n == 0:
            return None
        out /= n
        if q["cond"]:
            z = out.sum(axis=tuple(range(len(q["target"]))), keepdims=True)
            with np.errstate(all="ignore"):
                out = np.where(np.broadcast_to(z, out.shape) == 0, np.nan, out / z)
        return out
    if q["cond"]:
        return ref.conditional(q["target"], q["cond"], ev)
    return ref.query(q["target"], ev)


def call(engine, q):
    t = q["target"]
    if q["form"] == "str" and len(t) == 1:
        t = t[0]
    elif q["form"] == "tuple":
        t = tuple(t)
    else:
        t = lib.keep(list(t))
    kw = {}
    if q["evidence"]:
        kw["evidence"] = lib.keep(dict(q["evidence"]))
    elif q["evform"] == "kw":
        kw["evidence"] = lib.keep({})
    if q["cond"]:
        kw["conditioning"] = lib.keep(list(q["cond"])) if len(q["cond"]) > 1 or q["form"] != "str" else q["cond"][0]
    return engine.query(t, **kw)


def execute(sc, ctx):
    spec = sc["spec"]
    ref = R.Ref(spec)
    model = S.build(spec)
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.inference.probabilistic.datainference import LaplaceInference
    data = None
    if sc["rows"] is not None:
        data = lib.frame(spec["nodes"], sc["rows"])
    engines = []
    for e in sc["engines"]:
        if e["type"] == "ve":
            h = lib.heuristic(e["heur"])
            engines.append(VariableElimination(model, h) if h is not None else VariableElimination(model))
        else:
            engines.append(LaplaceInference(data, {v: list(d) for v, d in spec["dom"].items()}, preprocess_flag=e["pre"]))
    n_after_fault = 0
    disturbed = False
    with ctx.kernel(budget=60_000_000, scope=LOW) as kn:
        for k, op in enumerate(sc["ops"]):
            e, eng = sc["engines"][op["e"]], engines[op["e"]]
            q = op["q"]
            exp = expected(sc, ref, q, e)
            if exp is None:
                continue
            vs = q["target"] + (q["cond"] or [])
            what = f"op {k} ({e['type']}) P({q['target']}|{q['cond'] or ''};{q['evidence']})"
            if op["op"] == "query":
                f = ctx.must(what, call, eng, q)
                a = lib.compare_factor(ctx, f, vs, spec["dom"], exp, what)
                ctx.log(k, lib.rnd_arr(a, 9))
                ctx.stat("answers")
                if disturbed:
                    ctx.stat("answers after a failed or interrupted call")
                    ctx.nontrivial = True
            elif op["op"] == "rerun":
                f = ctx.must(what, call, eng, q)
                lib.compare_factor(ctx, f, vs, spec["dom"], exp, what)
                f2 = ctx.must(what + " run again", eng.run)
                if not q["cond"]:
                    lib.compare_factor(ctx, f2, vs, spec["dom"], exp, what + " run again")
                ctx.stat("answers", 2)
            elif op["op"] == "compile":
                # a compile that is never run, then another query
                if e["type"] == "ve" and not q["cond"]:
                    ctx.must(what + " compile", eng.compile, list(q["target"]), dict(q["evidence"]))
                    f = ctx.must(what + " run", eng.run)
                    lib.compare_factor(ctx, f, vs, spec["dom"], exp, what + " compiled")
                    ctx.must(what + " compile", eng.compile, [spec["nodes"][0]], {})
            elif op["op"] == "bad":
                q2 = {**q, "target": list(q["target"]), "evidence": dict(q["evidence"])}
                if op["how"] == "overlap":
                    q2["evidence"][q2["target"][0]] = spec["dom"][q2["target"][0]][0]
                elif op["how"] == "repeat":
                    q2["target"] = q2["target"] + [q2["target"][0]]
                    q2["cond"] = None
                elif op["how"] == "unknown":
                    q2["target"] = ["NoSuchVariable"]
                elif op["how"] == "unknown_ev":
                    q2["evidence"]["NoSuchVariable"] = 1
                else:
                    rest = [v for v in spec["nodes"] if v not in vs]
                    if not rest:
                        continue
                    q2["evidence"][rest[0]] = "no-such-state"
                try:
                    call(eng, q2)
                    ctx.log(k, "bad accepted")
                except Exception as ex:
                    ctx.log(k, "rejected", type(ex).__name__)
                    ctx.fault("rejected call")
                    disturbed = True
            elif op["op"] == "interrupt":
                nf = len(kn.fired)
                kn.arm_here(op["exc"], op["call"])
                try:
                    f = call(eng, q)
                    kn.disarm()
                    lib.compare_factor(ctx, f, vs, spec["dom"], exp, what + " (fault armed)")
                    ctx.log(k, "completed")
                except (KeyboardInterrupt, MemoryError) as ex:
                    if len(kn.fired) == nf:
                        raise
                    ctx.log(k, "interrupted")
                    disturbed = True
                except (Violation, Inconclusive):
                    raise
                except Exception as ex:
                    # an injected failure may surface as another error, but only if one was injected
                    if len(kn.fired) == nf:
                        raise Violation("exception", f"{what} raised {type(ex).__name__}: {ex}")
                    disturbed = True
                finally:
                    kn.disarm()
    for e in sc["engines"]:
        ctx.cov(e.get("heur", "laplace"), spec["vtype"], spec["kind"], len(spec["nodes"]), max(len(p) for p in spec["pa"].values()))
    for op in sc["ops"]:
        ctx.cov(op["op"], len(op["q"]["target"]), bool(op["q"]["cond"]), len(op["q"]["evidence"]), spec["vtype"])
    ctx.nontrivial = ctx.nontrivial or any(len(p) for p in spec["pa"].values())


def simplify(sc):
    for k, op in enumerate(sc["ops"]):
        for v in list(op["q"]["evidence"]):
            c = dict(sc, ops=[dict(o) for o in sc["ops"]])
            c["ops"][k] = dict(op, q=dict(op["q"], evidence={a: b for a, b in op["q"]["evidence"].items() if a != v}))
            yield c
    if sc["spec"]["vtype"] != "numpy":
        yield dict(sc, spec=dict(sc["spec"], vtype="numpy"))
