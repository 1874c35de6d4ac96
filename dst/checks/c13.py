"""C13: reading cut-off files and reading from a failing disk.  An error or the right model, nothing else, and
later reads are not affected."""
import os
import re

from .. import fmt as F, lib, spec as S
from ..core import Violation, Inconclusive
from ..simfs import SimFS

SCRATCH = True
SHRINK = [["ops"]]
TIMEOUT = 100.0


def gen(rng, i, tier):
    n = rng.randint(1, 2)
    kinds = [rng.choice(["bn", "bn", "scm"]) for _ in range(n)]
    files = [{"spec": F.gen_io_spec(rng, k), "fmt": F.FORMATS[(i + j) % 3]} for j, k in enumerate(kinds)]
    ops = []
    for _ in range(rng.randint(3, 8)):
        f = rng.randrange(n)
        r = rng.random()
        if r < 0.15:
            ops.append({"op": "read", "f": f, "chunk": rng.choice([0, 1, 3, 50])})
        elif r < 0.55:
            ops.append({"op": "cut", "f": f, "at": rng.random() if rng.random() < 0.7 else 1 - rng.random() * 0.15, "zero": rng.random() < 0.2})
        elif r < 0.85:
            ops.append({"op": "fail", "f": f, "fault": {"op": rng.randint(1, 8), "kind": rng.choice(["EIO", "EIO", "EACCES", "EMFILE", "interrupt", "short"]), "frac": rng.random()},
                        "chunk": rng.choice([0, 16, 64, 200])})
        else:
            ops.append({"op": "interrupt", "f": f, "call": lib.gen_call(rng, [5, 30, 300]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
    ops.append({"op": "read", "f": rng.randrange(n), "chunk": 0})
    return {"files": files, "ops": ops}


def boundaries(b, fm):
    """positions at which the file may end so that the last written token/line is complete, the end excluded"""
    t = b.decode()
    if fm == "uai":
        pos = [m.end() for m in re.finditer(r"\S+\s*", t)]
        pos = [0] + pos
        last = len(t.rstrip())
        return [p for p in pos if p < last]
    end = len(t.rstrip())
    return [0] + [m.end() for m in re.finditer(r"\n", t) if m.end() < end]


def execute(sc, ctx):
    root = ctx.scratch
    os.chdir(root)
    ents = []
    for j, f in enumerate(sc["files"]):
        m = ctx.must("building a model", S.build, f["spec"])
        kind = f["spec"]["kind"]
        p = os.path.join(root, f"f{j}.{f['fmt']}")
        try:
            F.save(m, p)
        except Exception:
            ctx.stat("skipped: undisturbed save fails")
            return
        with open(p, "rb") as fh:
            data = fh.read()
        try:
            F.read(kind, p)
        except Exception as e:
            ctx.violate("exception", f"reading an undamaged file raised {type(e).__name__}: {str(e)[:200]}")
        ents.append(dict(kind=kind, path=p, fmt=f["fmt"], data=data, abs=F.written(F.of_spec(f["spec"]), f["fmt"], F.file_order(m, kind))))
    fs = SimFS(root)
    with ctx.kernel(budget=60_000_000) as kn, fs:
        for k, op in enumerate(sc["ops"]):
            e = ents[op["f"]]
            path = e["path"]
            what = f"op {k} {op['op']} {e['kind']} {e['fmt']}"
            damaged = disturbed = False
            if op["op"] == "cut":
                bs = boundaries(e["data"], e["fmt"])
                cut = bs[min(len(bs) - 1, int(op["at"] * len(bs)))]
                path = os.path.join(root, f"cut{k}.{e['fmt']}")
                data = e["data"][:cut] + (bytes(len(e["data"]) - cut) if op["zero"] else b"")
                fs.disarm()
                with open(path, "wb") as fh:
                    fh.write(data)
                damaged = True
                what += f" at {cut} of {len(e['data'])}{' zero-filled' if op['zero'] else ''}"
                ctx.fault("file cut" + (" and zero-filled" if op["zero"] else ""))
            plan = []
            if op["op"] == "fail":
                plan.append(op["fault"])
            if op.get("chunk"):
                plan.append({"op": 0, "kind": "shorts", "n": op["chunk"]})
            n0, k0 = len(fs.fired), len(kn.fired)
            fs.arm(plan)
            if op["op"] == "interrupt":
                kn.arm_here(op["exc"], op["call"])
            try:
                m = F.read(e["kind"], path)
                out = "model"
            except (Violation, Inconclusive):
                raise
            except BaseException as x:
                m, out = None, type(x).__name__
                if out == "SimStop":
                    raise
                msg = f"{out}: {str(x)[:160]}"
                exc = x
            finally:
                kn.disarm()
                hit = [f for f in fs.fired[n0:] if f["kind"] not in ("short", "shorts")] or kn.fired[k0:]
                fs.disarm()
            if m is None:
                intr = any(f.get("kind") == "interrupt" or f.get("exc") == "KeyboardInterrupt" for f in hit)
                ctx.check(isinstance(exc, Exception) or intr, "wrong-error", f"{what}: ended with {msg}")
                ctx.check(not isinstance(exc, (StopIteration, StopAsyncIteration)), "silent-end", f"{what}: raised a bare {out}, which silently ends a caller's iteration")
                ctx.check(not isinstance(exc, RecursionError), "wrong-error", f"{what}: ended with {msg}")
                ctx.check(damaged or hit, "exception", f"{what}: reading an intact file raised {msg}")
            else:
                d = F.differs(m, e["abs"])
                ctx.check(d is None, "wrong-model", f"{what}: returned a model that is not the saved one: {d}")
            ctx.log(k, op["op"], out)
            ctx.stat("reads")
            if damaged or hit:
                ctx.nontrivial = True
            ctx.cov(op["op"], e["kind"], e["fmt"], out, int(10 * op.get("at", 0)), op.get("chunk"), op.get("fault", {}).get("kind"),
                    tuple(f.get("on") for f in fs.fired[n0:]))
    for f in fs.fired:
        if f["kind"] != "shorts":
            ctx.fault("fs " + f["kind"] + " on " + f["on"])
        else:
            ctx.fault("short transfers")


def simplify(sc):
    for j, f in enumerate(sc["files"]):
        if f["spec"]["vtype"] != "numpy":
            t = list(sc["files"])
            t[j] = dict(f, spec=dict(f["spec"], vtype="numpy"))
            yield dict(sc, files=t)
    for j, o in enumerate(sc["ops"]):
        if o.get("chunk"):
            t = [dict(x) for x in sc["ops"]]
            t[j]["chunk"] = 0
            yield dict(sc, ops=t)
