"""C12: a save that reports success reads back, in this process and in a fresh one, as the same model, over
histories of saves, reads, conversions, failed calls and legal short transfers."""
import os
import random

from .. import fmt as F, lib, spec as S
from ..core import Violation, Inconclusive
from ..simfs import SimFS

SCRATCH = True
SHRINK = [["ops"]]


def gen(rng, i, tier):
    n = rng.randint(1, 3)
    specs = [F.gen_io_spec(rng) for _ in range(n)]
    names = ["a", "m.b", "model one", "x"]
    paths = [rng.choice(names) + "." + rng.choice(F.FORMATS) for _ in range(rng.randint(1, 3))]
    ops = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        p = rng.randrange(len(paths))
        if r < 0.65:
            o = {"op": "save", "m": rng.randrange(n), "p": p, "how": rng.choice(["method", "method", "writer"]),
                 "pt": rng.choice(["str", "path", "rel"]), "chunk": rng.choice([0, 0, 0, 1, 7, 64]), "re": rng.random() < 0.35,
                 "vo": rng.randrange(1, 1 << 20) if rng.random() < 0.35 else 0, "rd": rng.randrange(1, 1 << 20) if rng.random() < 0.4 else 0}
            ops.append(o)
        elif r < 0.75:
            ops.append({"op": "derive", "m": rng.randrange(n), "what": rng.choice(["copy", "bnet", "intervene", "multinomial"]), "x": rng.randrange(1000)})
        elif r < 0.85:
            ops.append({"op": "bad", "m": rng.randrange(n), "what": rng.choice(["ext", "folder", "missing", "garbage"])})
        else:
            ops.append({"op": "check", "p": p})
    ops.append({"op": "save", "m": rng.randrange(n), "p": rng.randrange(len(paths)), "how": "method", "pt": "str", "chunk": 0, "re": False})
    return {"specs": specs, "paths": paths, "ops": ops, "symlink": rng.random() < 0.1}


def execute(sc, ctx):
    from pathlib import Path
    root = ctx.scratch
    os.chdir(root)
    fresh = F.FreshReader(sc["specs"])
    models = []
    for s in sc["specs"]:
        models.append([s["kind"], ctx.must("building a model", S.build, s), F.of_spec(s)])
    held = {}      # path -> (kind, expected content)
    if sc.get("symlink"):
        os.symlink("real_" + sc["paths"][0].replace(" ", "_"), sc["paths"][0])
    fs = SimFS(root)
    with ctx.kernel(budget=60_000_000, monitor=False), fs:
        for k, op in enumerate(sc["ops"]):
            if op["op"] == "save":
                kind, m, a = models[op["m"]]
                name = sc["paths"][op["p"]]
                full = os.path.join(root, name)
                arg = {"str": full, "path": Path(full), "rel": name}[op["pt"]]
                fm = name.rsplit(".", 1)[1]
                if op["chunk"]:
                    fs.arm([{"op": 0, "kind": "shorts", "n": op["chunk"]}])
                    ctx.fault("short transfers")
                order = F.file_order(m, kind)
                kw = {}
                if op.get("vo") and fm == "uai":
                    random.Random(op["vo"]).shuffle(order)
                    kw["var_order"] = list(order)
                ret = ctx.must(f"op {k}: saving a {kind} ({a.order}) to {name} {kw or ''}", F.save, m, arg, op["how"], **kw)
                ctx.check(kw in ({}, {"var_order": order}), "inputs-changed", f"op {k}: the order given to save became {kw}")
                if op["how"] == "method":
                    ctx.check(ret is not None and os.path.abspath(str(ret)) == full, "wrong-path", f"op {k}: save returned {ret}, saved to {full}")
                want = F.written(a, fm, order)
                held[name] = (kind, want, fm)
                judge(ctx, fs, fresh, root, sc, name, held, f"op {k} save {kind} {fm}")
                m2 = ctx.must(f"op {k}: reading {name} back", F.read, kind, arg)
                d = F.differs(m2, want)
                ctx.check(d is None, "read-back", f"op {k}: {kind} saved to {name} reads back differently: {d}")
                if op.get("rd"):
                    with_options(ctx, op, kind, fm, arg, a, order, f"op {k}: {kind} saved to {name}")
                fs.disarm()
                if op["re"]:
                    models[op["m"]] = [kind, m2, want]
                ctx.log(k, "save", fm, os.path.getsize(full))
                ctx.stat("saves read back")
                ctx.nontrivial = True
                ctx.cov("save", kind, fm, op["pt"], op["how"], op["chunk"], sc["specs"][op["m"]]["vtype"], sc["specs"][op["m"]]["det"],
                        max(len(p) for p in a.pa.values()), sum(not p and not any(v in q for q in a.pa.values()) for v, p in a.pa.items()))
            elif op["op"] == "derive":
                models[op["m"]] = derive(ctx, models[op["m"]], op)
            elif op["op"] == "bad":
                bad(ctx, models[op["m"]], op, root)
            else:
                if sc["paths"][op["p"]] in held:
                    judge(ctx, fs, fresh, root, sc, sc["paths"][op["p"]], held, f"op {k}")
        for p in held:
            judge(ctx, fs, fresh, root, sc, p, held, "at the end")
        left = [n for n in os.listdir(root) if n not in sc["paths"] and n != "real_" + sc["paths"][0].replace(" ", "_") and n != "garbage.uai"]
        ctx.log("extra files", len(left))
    fresh.close()


def with_options(ctx, op, kind, fm, arg, a, order, what):
    """read through the reader function with options of its own"""
    x = op["rd"]
    opts = {"vtype": [None, "numpy", "list", "treedict", "numpy1d"][x % 5]}
    if fm == "uai":
        opts = {"var_prefix": ["V", "x", "Var_"][x % 3], "init_var_id": (x // 3) % 3, "init_var_state": (x // 9) % 3}
    m = ctx.must(f"{what}: reading with {opts}", F.read, kind, arg, opts)
    d = F.differs(m, F.written(a, fm, order, opts))
    ctx.check(d is None, "read-back", f"{what}, read with {opts}: {d}")
    if opts.get("vtype"):
        bad = [v for v in m.variables if getattr(m.factors[v], "vtype", opts["vtype"]) != opts["vtype"]]
        ctx.check(not bad, "read-back", f"{what}, read with {opts}: factors of {bad} stored otherwise")
    ctx.stat("reads with options")


def judge(ctx, fs, fresh, root, sc, p, held, what):
    kind, want, fm = held[p]
    path = os.path.join(root, p)
    d = fresh.differs(kind, path, want)
    ctx.check(d is None, "read-back", f"{what}: {kind} in {p} read by a fresh process: {d}")
    ctx.stat("reads by a fresh process")


def derive(ctx, ent, op):
    kind, m, a = ent
    w = op["what"]
    if w == "copy":
        return [kind, ctx.must("copy", m.copy), a]
    if kind == "scm" and w == "bnet":
        return ["bn", ctx.must("to_bnet", m.to_bnet), F.Abs("bn", m.variables, a.dom, a.pa, a.tab, [])]
    if kind == "scm" and w == "intervene":
        import numpy as np
        v = sorted(a.endo)[op["x"] % len(a.endo)]
        j = op["x"] % len(a.dom[v])
        st = next(s for s in m.domains[v] if str(s) == str(a.dom[v][j]))
        m2 = ctx.must("intervention", lambda: m.intervention(**{v: st}))
        t = np.zeros(len(a.dom[v]))
        t[j] = 1.0
        return [kind, m2, F.Abs(kind, m2.variables, a.dom, dict(a.pa, **{v: []}), dict(a.tab, **{v: t}), a.endo)]
    if kind == "scm" and w == "multinomial":
        return [kind, ctx.must("to_multinomial", m.to_multinomial), a]
    return ent


def bad(ctx, ent, op, root):
    kind, m, a = ent
    try:
        if op["what"] == "ext":
            m.save(os.path.join(root, "a.json"))
        elif op["what"] == "folder":
            m.save(os.path.join(root, "nope", "a.uai"))
        elif op["what"] == "missing":
            F.read(kind, os.path.join(root, "missing.bif"))
        else:
            with open(os.path.join(root, "garbage.uai"), "w") as f:
                f.write("GARBAGE\n1 2 3\n")
            F.read(kind, os.path.join(root, "garbage.uai"))
    except Exception as e:
        ctx.log("bad", op["what"], type(e).__name__)
        ctx.fault("rejected call")


def simplify(sc):
    if sc.get("symlink"):
        yield dict(sc, symlink=False)
    for j, s in enumerate(sc["specs"]):
        for key, val in (("vtype", "numpy"), ("det", False)):
            if s[key] != val:
                t = [dict(x) for x in sc["specs"]]
                t[j][key] = val
                yield dict(sc, specs=t)
    for j, o in enumerate(sc["ops"]):
        for key, val in (("chunk", 0), ("re", False), ("how", "method"), ("pt", "str")):
            if o.get(key, val) != val:
                t = [dict(x) for x in sc["ops"]]
                t[j][key] = val
                yield dict(sc, ops=t)
