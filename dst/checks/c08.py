"""C08: several threads with their own engines over shared models and data."""
import threading

from .. import lib, learn as LN, ops as O
from ..kernel import LOW
from ..core import Violation, Inconclusive

SHRINK = [["threads"], ["threads", 0], ["threads", 1], ["threads", 2], ["threads", 3]]
TIMEOUT = 100.0
SCRATCH = True


def gen(rng, i, tier):
    W = O.gen_world(rng, gd=rng.random() < 0.6)
    n = rng.choice([2, 2, 3, 4])
    kinds = rng.choice([O.QUERY, O.QUERY + O.DERIVE, O.LEARN + O.QUERY, O.FIXED, O.FIXED + O.RANDOM, O.FIXED + O.RANDOM, ("ve", "laplace"), ("em", "gd", "causal")])
    threads = [[O.gen_op(rng, W, kinds) for _ in range(rng.randint(1, 3))] for _ in range(n)]
    if rng.random() < 0.35:
        # the threads ask nearly the same thing: same kind of call and targets, other evidence or other intervention
        first = O.gen_op(rng, W, rng.choice([("laplace",), ("ve",), ("causal",), ("multi",)]))
        for t in threads:
            t.insert(rng.randint(0, len(t)), twin(rng, W, first))
    faults = []
    if rng.random() < 0.4:
        faults.append({"thread": rng.randrange(n), "call": lib.gen_call(rng, [50, 500, 3000, 10000]), "exc": rng.choice(["MemoryError", "RuntimeError"])})
    return {"W": W, "threads": threads, "faults": faults, "workers": rng.choice([2, 3]), "sched": lib.gen_sched(rng, est=100000), "bad": rng.random() < 0.2}


def twin(rng, W, op):
    key = lambda o: (o["q"].get("k"), o["q"].get("target") or o["q"].get("t"))
    for _ in range(40):
        o = O.gen_op(rng, W, (op["k"],))
        if o["k"] == op["k"] and key(o) == key(op) and o["q"] != op["q"]:
            return o
    return op


def execute(sc, ctx):
    LN.set_workers(sc["workers"])
    w = O.World(sc["W"], ctx.scratch)
    # what every operation gives alone, on a world of its own
    alone = []
    w0 = O.World(sc["W"], ctx.scratch)
    for t, opsl in enumerate(sc["threads"]):
        alone.append([O.run_op(w0, op, f"alone{t}-{j}") if op["k"] not in O.RANDOM else None for j, op in enumerate(opsl)])
    before = w.inputs_fp()
    proc = lib.process_fp()
    results = [[None] * len(t) for t in sc["threads"]]
    errors = [None] * len(sc["threads"])
    failed = {}

    def body(t):
        try:
            for j, op in enumerate(sc["threads"][t]):
                try:
                    results[t][j] = ("ok", O.run_op(w, op, f"t{t}-{j}"))
                except (MemoryError, RuntimeError) as e:
                    if "injected" not in str(e):
                        raise
                    results[t][j] = ("failed", None)
        except BaseException as e:
            errors[t] = e

    with ctx.kernel(sc["sched"], budget=100_000_000, scope=LOW) as kn:
        ths = [threading.Thread(target=body, args=(t,)) for t in range(len(sc["threads"]))]
        for f in sc["faults"]:
            if f["thread"] < len(ths):
                kn.arm({"kind": "raise", "exc": f["exc"], "thread": 1 + f["thread"], "call": f["call"]})
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    for t, e in enumerate(errors):
        if e is not None:
            raise Violation("exception", f"thread {t} raised {type(e).__name__}: {e} although it works alone", tb=[str(x) for x in __import__("dst.core").core.short_tb(e)])
    for t, opsl in enumerate(sc["threads"]):
        for j, op in enumerate(opsl):
            what = f"thread {t} call {j} {op['k']}"
            r = results[t][j]
            if r is None or r[0] == "failed":
                ctx.stat("calls cut short")
                continue
            if op["k"] in O.RANDOM:
                O.judge_random(ctx, w, op, r[1], what)
            else:
                ctx.check(O.same_result(alone[t][j], r[1]), "interference", f"{what} {str(op)[:200]}: got {str(r[1])[:400]} alone it gives {str(alone[t][j])[:400]}")
            ctx.stat("calls compared")
            ctx.log(t, j, str(r[1]))
    d = lib.fp_diff(before, w.inputs_fp())
    ctx.check(not d, "inputs-changed", f"shared inputs changed: {d}")
    ctx.nontrivial = kn.switches > 0
    for t in sc["threads"]:
        ctx.cov(tuple(sorted(op["k"] for op in t)), len(sc["threads"]), bool(sc["faults"]))
