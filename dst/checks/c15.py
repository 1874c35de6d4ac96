"""C15: the same seed gives the same results, in every process, after every history, at every speed."""
import os
import random

from .. import lib, learn as LN, ops as O
from ..core import Violation, Inconclusive, outcome_diff

SHRINK = [["ops"]]
TIMEOUT = 100.0
SCRATCH = True

ALL = O.FIXED + O.RANDOM + O.RANDOM + O.RANDOM


def gen(rng, i, tier):
    W = O.gen_world(rng, gd=rng.random() < 0.5)
    kinds = rng.choice([ALL, ALL, O.RANDOM, O.RANDOM + O.IO, O.QUERY + O.RANDOM, O.FIXED])
    return {"W": W, "seed": rng.choice([0, 1, 7, rng.randrange(1 << 31)]), "ops": [O.gen_op(rng, W, kinds) for _ in range(rng.randint(2, 6))],
            "seedtype": rng.choice(["int", "int", "reseed"]), "hist": rng.randrange(1 << 30)}


def program(sc, w, tag):
    import bcause as bc
    out = []
    bc.randomUtil.seed(sc["seed"])
    for j, op in enumerate(sc["ops"]):
        if sc["seedtype"] == "reseed" and j == len(sc["ops"]) // 2:
            bc.randomUtil.seed(sc["seed"] + 1)
        r = O.run_op(w, op, f"{tag}-{j}")
        out.append({"op": op["k"], "tol": 2e-4 if op["k"] in ("gd", "agg_gd") else 2e-5 if op["k"] in ("agg_em", "emcc") else 1e-6, "r": norm(r)})
    # what the streams would give next
    import numpy as np
    out.append({"next": [float(np.random.random()), random.random()]})
    return out


def norm(x):
    """JSON-like, keeping the distinction of states"""
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    import numpy as np
    if isinstance(x, np.generic):
        return norm(x.item())
    if isinstance(x, (float, int, str, bool)) or x is None:
        return x
    return repr(x)


def history(rng, sc, w, kn, tag, ctx):
    """whatever the process did before: calls of its own, failed and interrupted ones, other seeds, other draws"""
    import numpy as np
    import bcause as bc
    for j in range(rng.randint(0, 3)):
        r = rng.random()
        if r < 0.2:
            np.random.seed(rng.randrange(1 << 30))
        elif r < 0.3:
            np.random.random(rng.randrange(50))
            random.random()
        elif r < 0.4:
            bc.randomUtil.seed(rng.randrange(1 << 30))
        else:
            op = O.gen_op(rng, sc["W"], ALL)
            n0 = len(kn.fired)
            if rng.random() < 0.4:
                kn.arm_here(rng.choice(["KeyboardInterrupt", "MemoryError"]), lib.gen_call(rng, [20, 200, 3000]))
            try:
                O.run_op(w, op, f"h{tag}-{j}")
            except (Violation, Inconclusive):
                raise
            except (Exception, KeyboardInterrupt) as e:
                if len(kn.fired) == n0:
                    raise Violation("exception", f"{op['k']} raised {type(e).__name__}: {e}")
            finally:
                kn.disarm()
        ctx.stat("earlier calls")


def execute(sc, ctx):
    # everything outside the program differs from process to process
    env = random.Random(f"{os.environ.get('PYTHONHASHSEED')}:{sc['hist']}")
    res = []
    for rep in range(2):
        LN.set_workers(env.choice([1, 2, 3, 5]))
        w = O.World(sc["W"], ctx.scratch)
        with ctx.kernel(lib.gen_sched(env, est=60000), budget=200_000_000, clock0=env.uniform(1e9, 2e9), tick=env.choice([1e-7, 1e-3, 5.0, 4000.0])) as kn:
            if env.random() < 0.5:
                for _ in range(3):
                    kn.arm({"kind": "clock-jump", "read": env.randrange(60), "delta": env.choice([-86400.0, -5.0, 3600.0, 1e7])})
            history(env, sc, w, kn, rep, ctx)
            try:
                res.append(program(sc, w, f"{rep}"))
            except (Violation, Inconclusive):
                raise
            except Exception as e:
                raise Violation("exception", f"the program raised {type(e).__name__}: {e}", tb=__import__("dst.core").core.short_tb(e))
    d = outcome_diff(res[0], res[1])
    ctx.check(not d, "history-dependent", f"the same program after two different histories gives different results: {d}")
    ctx.outcome = res[0]
    ctx.nontrivial = True
    for op in sc["ops"]:
        ctx.cov(op["k"], op.get("parallel"), op.get("fmt"), op.get("n"), len(sc["ops"]))
    ctx.log(str(res[0]))
