"""C14: sampling under every random stream: scripted extremes and borders, frequencies, interruptions."""
import math

from .. import lib, ref as R, spec as S, rngsim
from ..core import Violation, Inconclusive

SHRINK = [["ops"]]
TIMEOUT = 100.0


def gen(rng, i, tier):
    if rng.random() < 0.5:
        spec = S.gen_bn(rng, max_nodes=4, allow_zero=rng.random() < 0.8, max_joint=120, tiny=rng.random() < 0.3)
    else:
        spec = S.gen_scm(rng, max_endo=3, max_exo=2, max_exo_card=4, det_ok=False)
    if rng.random() < 0.5:
        zero_states(rng, spec)
    if rng.random() < 0.15:
        return {"mode": "freq", "spec": spec, "n": rng.choice([1500, 3000]) if tier == "quick" else rng.choice([3000, 8000]), "seed": rng.randrange(1 << 30),
                "pandas": rng.random() < 0.5, "cond": rng.randrange(1 << 20)}
    if rng.random() < 0.06:
        return {"mode": "streams", "spec": spec, "n": rng.choice([1, 2, 3]), "streams": 250 if tier == "quick" else 1000, "seed": rng.randrange(1 << 30), "pandas": rng.random() < 0.5}
    cuts = []
    for v in spec["nodes"]:
        t = S_full(spec, v)
        for row in t:
            a = 0.0
            for p in row:
                a += p
                cuts.append(a)
    cuts = rng.sample(cuts, min(len(cuts), 12))
    ops = []
    for _ in range(rng.randint(2, 5)):
        k = rng.choice(["sample", "sample", "sample", "endo", "factor", "cond", "bad"])
        n = rng.choice([1, 1, 2, 5, 13])
        ops.append({"k": k, "n": n, "pandas": rng.random() < 0.6, "names": rng.random() < 0.6, "v": rng.randrange(1 << 20), "script": rngsim.gen_script(rng, cuts, n * len(spec["nodes"])),
                    "seed": rng.randrange(1 << 30), "cut": lib.gen_call(rng, [5, 50, 400]) if rng.random() < 0.2 else None,
                    "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
    return {"mode": "script", "spec": spec, "ops": ops}


def zero_states(rng, spec):
    """states of probability zero at the first, last or a middle place"""
    for v in spec["nodes"]:
        if spec["kind"] == "scm" and v in spec["endo"] or rng.random() < 0.4:
            continue
        k = len(spec["dom"][v])
        t = spec["tab"][v]
        for r in range(len(t) // k):
            row = t[r * k:(r + 1) * k]
            z = rng.choice([[0], [k - 1], [rng.randrange(k)], list(range(1, k)), list(range(k - 1))])
            for j in z:
                row[j] = 0.0
            s = sum(row)
            if s <= 0:
                row = [0.0] * k
                row[next(j for j in range(k) if j not in z)] = 1.0
                s = 1.0
            t[r * k:(r + 1) * k] = [x / s for x in row]


def S_full(spec, v):
    t = S.full_table(spec, v)
    return t.reshape(-1, t.shape[-1]).tolist()


def prob_of(ref, rec):
    spec = ref.spec
    p = 1.0
    for v in spec["nodes"]:
        t = ref.tables[v]
        for x in spec["pa"][v]:
            t = t[ref.idx(x, rec[x])]
        p *= float(t[ref.idx(v, rec[v])])
    return p


def records(ctx, d, n, cols, what, pandas=True):
    if pandas:
        ctx.check(set(d.columns) == set(cols) and len(d.columns) == len(cols), "columns", f"{what}: columns {list(d.columns)}")
        d = d.to_dict("records")
    ctx.check(len(d) == n, "count", f"{what}: {len(d)} records instead of {n}")
    for r in d:
        ctx.check(set(r) == set(cols), "columns", f"{what}: record {r}")
    return d


def check_records(ctx, ref, recs, what):
    for r in recs:
        for v in ref.spec["nodes"]:
            try:
                ref.idx(v, r[v])
            except KeyError:
                raise Violation("domain", f"{what}: {r[v]!r} is no state of {v}")
        p = prob_of(ref, r)
        ctx.check(p > 0, "impossible", f"{what}: the record {r} has probability {p}")


def execute(sc, ctx):
    {"freq": frequencies, "streams": streams, "script": scripted}[sc["mode"]](sc, ctx)


def scripted(sc, ctx):
    spec = sc["spec"]
    ref = R.Ref(spec)
    m = S.build(spec)
    fp = lib.model_fp(m)
    for j, op in enumerate(sc["ops"]):
        what = f"op {j} {op['k']} n={op['n']}"
        out = []
        cut_here = False
        for rep in range(2):
            with rngsim.scripted(op["script"], op["seed"]) as st:
                try:
                    if rep == 0 and op["cut"]:
                        with ctx.kernel({"mode": "none"}, budget=20_000_000) as kn:
                            kn.arm_here(op["exc"], op["cut"])
                            try:
                                res = do(ctx, m, ref, op, what)
                            finally:
                                kn.disarm()
                                cut_here = bool(kn.fired)
                    else:
                        res = do(ctx, m, ref, op, what)
                except (Violation, Inconclusive):
                    raise
                except (Exception, KeyboardInterrupt) as e:
                    if not cut_here or rep == 1:
                        raise Violation("exception", f"{what} (stream {op['script'][:6]}...) raised {type(e).__name__}: {e}", tb=__import__("dst.core").core.short_tb(e))
                    ctx.stat("calls cut short")
                    continue
                out.append(res)
                ctx.fault("scripted variates", min(st.used, len(op["script"])))
        if len(out) == 2:
            ctx.check(out[0] == out[1], "not-a-function-of-the-stream", f"{what}: {str(out[0])[:300]} and {str(out[1])[:300]} from the same stream")
        ctx.check(lib.model_fp(m) == fp, "model-changed", f"{what} changed the model")
        ctx.cov(op["k"], op["n"], op["pandas"], spec["vtype"], spec["kind"], len(spec["nodes"]), round(sum(op["script"]) / len(op["script"]), 1), bool(op["cut"]))
        ctx.log(j, str(out[-1:])[:2000])
        ctx.nontrivial = True


def do(ctx, m, ref, op, what):
    spec = ref.spec
    k, n = op["k"], op["n"]
    if k == "sample":
        r = records(ctx, m.sample(n, as_pandas=op["pandas"]), n, spec["nodes"], what, op["pandas"])
        check_records(ctx, ref, r, what)
        ctx.stat("records", len(r))
        return [[repr(x[v]) for v in spec["nodes"]] for x in r]
    if k == "endo":
        if spec["kind"] != "scm":
            return None
        r = records(ctx, m.sampleEndogenous(n, as_pandas=op["pandas"]), n, spec["endo"], what, op["pandas"])
        for x in r:
            for v in spec["endo"]:
                try:
                    ref.idx(v, x[v])
                except KeyError:
                    raise Violation("domain", f"{what}: {x[v]!r} is no state of {v}")
            ctx.check(ref.endo_prob(x) > 0, "impossible", f"{what}: the record {x} is impossible")
        ctx.stat("records", len(r))
        return [[repr(x[v]) for v in spec["endo"]] for x in r]
    if k == "factor":
        roots = [v for v in spec["nodes"] if not spec["pa"][v]]
        v = roots[op["v"] % len(roots)]
        r = m.factors[v].sample(n, varnames=op["names"])
        return [repr(one_of(ctx, ref, v, x, {}, op["names"], what)) for x in exactly(ctx, r, n, what)]
    if k == "cond":
        kids = [v for v in spec["nodes"] if spec["pa"][v]]
        if not kids:
            return None
        v = kids[op["v"] % len(kids)]
        obs = observations(spec, v, n, op["v"])
        r = m.factors[v].sample_conditional([dict(o) for o in obs], varnames=op["names"])
        return [repr(one_of(ctx, ref, v, x, o, op["names"], what)) for x, o in zip(exactly(ctx, r, n, what), obs)]
    if k == "bad":
        for n in (0, -1):
            try:
                r = m.factors[next(v for v in spec["nodes"] if not spec["pa"][v])].sample(n)
            except ValueError:
                continue
            ctx.check(len(r) == max(n, 0), "count", f"sample({n}) gave {len(r)} records")
        return None


def exactly(ctx, r, n, what):
    r = list(r)
    ctx.check(len(r) == n, "count", f"{what}: {len(r)} instead of {n}")
    return r


def observations(spec, v, n, s):
    import random
    g = random.Random(s)
    return [{p: g.choice(spec["dom"][p]) for p in spec["pa"][v]} for _ in range(n)]


def one_of(ctx, ref, v, x, obs, names, what):
    if names:
        ctx.check(isinstance(x, dict) and set(x) == {v}, "format", f"{what}: {x!r}")
        s = x[v]
    else:
        ctx.check(len(x) == 1, "format", f"{what}: {x!r}")
        s = x[0]
    t = ref.tables[v]
    for p in ref.spec["pa"][v]:
        t = t[ref.idx(p, obs[p])]
    try:
        i = ref.idx(v, s)
    except KeyError:
        raise Violation("domain", f"{what}: {s!r} is no state of {v}")
    ctx.check(float(t[i]) > 0, "impossible", f"{what}: {v}={s!r} given {obs} has probability {float(t[i])}")
    return s


def close(ctx, count, n, p, what):
    if p <= 0:
        ctx.check(count == 0, "impossible", f"{what}: occurred {count} times but is impossible")
        return
    dev = 6.5 * math.sqrt(n * p * (1 - p)) + 6
    ctx.check(abs(count - n * p) <= dev, "frequency", f"{what}: {count} of {n}, expected {n * p:.1f} +- {dev:.1f}")


def frequencies(sc, ctx):
    from collections import Counter
    import bcause as bc
    spec = sc["spec"]
    ref = R.Ref(spec)
    m = S.build(spec)
    bc.randomUtil.seed(sc["seed"] % (1 << 32))
    n = sc["n"]
    recs = records(ctx, m.sample(n, as_pandas=sc["pandas"]), n, spec["nodes"], "sample", sc["pandas"])
    J = ref.joint()
    import itertools
    keys = [tuple(ref.idx(v, r[v]) for v in spec["nodes"]) for r in recs]
    c = Counter(keys)
    for pos in itertools.product(*[range(ref.card[v]) for v in spec["nodes"]]):
        close(ctx, c.get(pos, 0), n, float(J[pos]), f"record {dict(zip(spec['nodes'], pos))}")
    # records are independent draws: consecutive ones
    for i, v in enumerate(spec["nodes"]):
        p = ref.query([v])
        c2 = Counter((a[i], b[i]) for a, b in zip(keys[::2], keys[1::2]))
        for a in range(ref.card[v]):
            for b in range(ref.card[v]):
                close(ctx, c2.get((a, b), 0), len(keys[1::2]), float(p[a] * p[b]), f"{v} in consecutive records {a},{b}")
    # two samples in a row are different draws of the same distribution
    n2 = min(n, 1000)
    a, b = (records(ctx, m.sample(n2, as_pandas=sc["pandas"]), n2, spec["nodes"], f"sample {i}", sc["pandas"]) for i in (2, 3))
    for v in spec["nodes"]:
        p = ref.query([v])
        for what, x, y in (("calls", a, b), ("calls and places", a, b[1:] + b[:1])):
            c2 = Counter((ref.idx(v, r[v]), ref.idx(v, t[v])) for r, t in zip(x, y))
            for i in range(ref.card[v]):
                for k in range(ref.card[v]):
                    close(ctx, c2.get((i, k), 0), n2, float(p[i] * p[k]), f"{v} in two {what} {i},{k}")
    kids = [v for v in spec["nodes"] if spec["pa"][v]]
    if kids:
        v = kids[sc["cond"] % len(kids)]
        obs = observations(spec, v, n, sc["cond"])
        got = m.factors[v].sample_conditional(obs, varnames=False)
        c3 = Counter((tuple(ref.idx(p, o[p]) for p in spec["pa"][v]), ref.idx(v, x[0])) for o, x in zip(obs, exactly(ctx, got, n, "cond")))
        tot = Counter(tuple(ref.idx(p, o[p]) for p in spec["pa"][v]) for o in obs)
        for cfg, k in tot.items():
            for s in range(ref.card[v]):
                close(ctx, c3.get((cfg, s), 0), k, float(ref.tables[v][cfg][s]), f"{v}={s} given {cfg}")
    ctx.stat("records", n)
    ctx.cov("freq", spec["kind"], spec["vtype"], len(spec["nodes"]), n)
    ctx.log("freq", sorted(c.items())[:20])
    ctx.nontrivial = True


def streams(sc, ctx):
    """small samples, each from its own independent stream"""
    import itertools
    from collections import Counter
    import bcause as bc
    spec, n = sc["spec"], sc["n"]
    ref = R.Ref(spec)
    m = S.build(spec)
    place = [Counter() for _ in range(n)]
    for j in range(sc["streams"]):
        bc.randomUtil.seed((sc["seed"] + 7919 * j) % (1 << 32))
        for i, r in enumerate(records(ctx, m.sample(n, as_pandas=sc["pandas"]), n, spec["nodes"], "sample", sc["pandas"])):
            place[i][tuple(ref.idx(v, r[v]) for v in spec["nodes"])] += 1
    J = ref.joint()
    for i, c in enumerate(place):
        for pos in itertools.product(*[range(ref.card[v]) for v in spec["nodes"]]):
            close(ctx, c.get(pos, 0), sc["streams"], float(J[pos]), f"record {i} of the streams, {dict(zip(spec['nodes'], pos))}")
    ctx.stat("records", n * sc["streams"])
    ctx.stat("independent streams", sc["streams"])
    ctx.cov("streams", spec["kind"], spec["vtype"], len(spec["nodes"]), n)
    ctx.log("streams", [sorted(c.items())[:10] for c in place])
    ctx.nontrivial = True
