"""C11: a save is all or nothing.  The target file is examined after every single file operation (each is a
point at which the process may be killed), in sampled disk images after a power loss, and after every injected
failure; several savers and readers race for one path under the seeded scheduler."""
import hashlib
import os
import random
import sys
import threading

from .. import fmt as F, lib, spec as S
from ..core import Violation, Inconclusive
from ..simfs import SimFS, SimCrash, FailingStdout

SCRATCH = True
SHRINK = [["faults"], ["readers"]]

ERR = ("EIO", "ENOSPC", "EDQUOT", "EACCES", "EROFS", "EMFILE", "EPERM", "EXDEV", "full", "interrupt")


def gen(rng, i, tier):
    kind = rng.choice(["bn", "bn", "scm"])
    fm = F.FORMATS[i % 3]
    mode = rng.choice(["kill", "kill", "fault", "fault", "fault", "fault", "crash", "crash", "interrupt", "interrupt", "stdout", "race", "race", "race"])
    n = 1 if mode != "race" else rng.randint(2, 3)
    specs = [F.gen_io_spec(rng, kind) for _ in range(n + 1)]
    sc = {"kind": kind, "fmt": fm, "mode": mode, "specs": specs, "old": rng.choice(["none", "model", "model", "bytes", "empty"]),
          "how": rng.choice(["method", "writer"]), "pt": rng.choice(["str", "rel"]), "pseed": rng.randrange(1 << 30), "faults": [], "readers": [],
          "symlink": rng.random() < 0.1, "chunk": rng.choice([0, 0, 1, 16, 100])}
    if mode == "fault":
        sc["faults"] = [_fault(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
    elif mode == "crash":
        sc["faults"] = [{"op": rng.randint(1, 9), "kind": "crash", "torn": rng.choice([0.0, 0.2, 0.5, 0.9, 1.0])}]
        if rng.random() < 0.2:
            sc["faults"].append(_fault(rng))
    elif mode == "interrupt":
        sc["faults"] = [{"call": lib.gen_call(rng, [5, 30, 300, 2000]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}]
    elif mode == "stdout":
        sc["faults"] = [{"chars": rng.choice([0, 0, 5, 50])}]
    elif mode == "race":
        sc["sched"] = {"mode": "random", "seed": rng.randrange(1 << 30), "gap": rng.choice([2, 4, 10, 50])} if rng.random() < 0.7 else \
            {"mode": "pct", "seed": rng.randrange(1 << 30), "depth": rng.randint(1, 5), "est": rng.choice([300, 2000])}
        sc["readers"] = [1] * rng.choice([0, 0, 1])
        if rng.random() < 0.4:
            sc["faults"] = [_fault(rng)]
    return sc


def _fault(rng):
    f = {"op": rng.randint(1, 9), "kind": rng.choice(ERR)}
    if f["kind"] == "full":
        f["frac"] = rng.choice([0.0, 0.3, 0.8])
    return f


class Judge:
    def __init__(self, ctx, path, kind, fm, old, news):
        self.ctx, self.path, self.kind, self.fm, self.old = ctx, path, kind, fm, old
        self.news = news              # [(bytes of a clean save, expected model)]
        self.seen = {}
        self.states = set()

    def content(self):
        try:
            fd = _os["open"](self.path, os.O_RDONLY)
        except FileNotFoundError:
            return None
        try:
            b = b""
            while True:
                c = _os["read"](fd, 1 << 16)
                if not c:
                    return b
                b += c
        finally:
            _os["close"](fd)

    def which(self, b):
        """'old', index of the new model, or None"""
        h = hashlib.sha1(b).hexdigest() if b is not None else None
        if h in self.seen:
            return self.seen[h]
        r = None
        if b is not None:
            for j, (nb, a) in enumerate(self.news):
                if nb == b:
                    r = j
                    break
        if r is None and b == self.old:
            r = "old"
        if r is None and b:
            side = self.ctx.scratch + "-side." + self.fm
            fd = _os["open"](side, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            _os["write"](fd, b)
            _os["close"](fd)
            try:
                m = F.read(self.kind, side)
                for j, (nb, a) in enumerate(self.news):
                    if F.differs(m, a) is None:
                        r = j
            except Exception:
                pass
            finally:
                _os["unlink"](side)
        self.seen[h] = r
        return r

    def accept(self, b, when):
        r = self.which(b)
        if r is None:
            d = "is missing" if b is None else f"holds {len(b)} bytes: {bytes(b[:60])!r}..."
            raise Violation("damaged", f"{when}: the target {d}, neither its previous content ({None if self.old is None else len(self.old)} bytes) "
                                       f"nor a complete new model ({[len(n) for n, _ in self.news]} bytes)")
        self.states.add(r)
        return r


_os = {}


def execute(sc, ctx):
    for n in ("open", "read", "write", "close", "unlink"):
        _os[n] = getattr(os, n)
    root, kind, fm = ctx.scratch, sc["kind"], sc["fmt"]
    os.chdir(root)
    path = os.path.join(root, "m." + fm)
    models = [ctx.must("building a model", S.build, s) for s in sc["specs"]]
    clean = ctx.scratch + "-clean." + fm
    news = []
    try:
        for s, m in list(zip(sc["specs"], models))[1:]:
            a = F.written(F.of_spec(s), fm, F.file_order(m, kind))
            # (whether undisturbed saves work and read back is the business of C12)
            try:
                F.save(m, clean)
            except Exception:
                ctx.stat("skipped: undisturbed save fails")
                return
            with open(clean, "rb") as f:
                news.append((f.read(), a))
        real = os.path.join(root, "sub", "real." + fm) if sc["symlink"] else path
        if sc["symlink"]:
            os.mkdir(os.path.join(root, "sub"))
            os.symlink(os.path.join("sub", "real." + fm), path)
        old = None
        if sc["old"] == "model":
            try:
                F.save(models[0], clean)
            except Exception:
                ctx.stat("skipped: undisturbed save fails")
                return
            with open(clean, "rb") as f:
                old = f.read()
        elif sc["old"] == "bytes":
            old = b"something else\nprecious\n" * (1 + sc["pseed"] % 60)
        elif sc["old"] == "empty":
            old = b""
        if old is not None:
            with open(real, "wb") as f:
                f.write(old)
    finally:
        if os.path.exists(clean):
            os.unlink(clean)
    judge = Judge(ctx, path, kind, fm, old, news)
    prng = random.Random(sc["pseed"])
    fs = SimFS(root)

    def on_op(what):
        judge.accept(judge.content(), f"process killed after operation {fs.count} ({what})")
        ctx.stat("kill points")
        if not fs.unmodelled:
            for _ in range(2):
                img = fs.power_image(prng)
                p = path if not os.path.islink(path) else os.path.realpath(path)
                judge.accept(img.get(p), f"power lost after operation {fs.count} ({what})")
                ctx.stat("power-loss images")

    arg = path if sc["pt"] == "str" else "m." + fm
    mode = sc["mode"]
    sched = sc.get("sched")
    with ctx.kernel(sched, budget=20_000_000) as kn, fs:
        fs.on_op = on_op
        if mode == "race":
            race(sc, ctx, kn, fs, judge, models, arg)
        else:
            single(sc, ctx, kn, fs, judge, models[1], arg)
        fs.on_op = None
        ok = fs.verify_shadow() if not fs.crashed else True
    for f in fs.fired:
        ctx.fault("fs " + f["kind"] + (" on " + f["on"] if "on" in f else ""))
    ctx.nontrivial = ctx.stats.get("kill points", 0) > 0 or bool(fs.fired)
    ctx.cov(mode, fm, kind, sc["old"], tuple(fs.kinds), tuple((f["kind"], f.get("on")) for f in fs.fired), tuple(sorted(map(str, judge.states))))
    ctx.log(mode, fs.count, list(fs.kinds), sorted(map(str, judge.states)))
    if not ok:
        raise Inconclusive("files changed behind the simulated file system")


def single(sc, ctx, kn, fs, judge, m, arg):
    mode = sc["mode"]
    stored = err = None
    stdout = sys.stdout
    nf = len(kn.fired)
    plan = [f for f in sc["faults"] if "kind" in f]
    if sc["chunk"]:
        plan = plan + [{"op": 0, "kind": "shorts", "n": sc["chunk"]}]
    fs.arm(plan)
    if mode == "interrupt" and sc["faults"]:
        kn.arm_here(sc["faults"][0]["exc"], sc["faults"][0]["call"])
    if mode == "stdout" and sc["faults"]:
        sys.stdout = FailingStdout(sc["faults"][0]["chars"])
    try:
        F.save(m, arg, sc["how"])
        stored = True
    except (Violation, Inconclusive):
        raise
    except SimCrash:
        err = "crash"
    except (Exception, KeyboardInterrupt) as e:
        err = type(e).__name__
        if not [f for f in fs.fired if f["kind"] != "shorts"] and len(kn.fired) == nf and mode != "stdout":
            raise Violation("exception", f"save without any failure raised {type(e).__name__}: {str(e)[:200]}")
    finally:
        kn.disarm()
        if sys.stdout is not stdout:
            ctx.fault("stdout failure", sys.stdout.hits)
        sys.stdout = stdout
    r = judge.accept(judge.content(), f"after a save that {'succeeded' if stored else 'failed with ' + str(err)}")
    if stored:
        ctx.check(r == 0 or (r == "old" and judge.old == judge.news[0][0]), "silent-failure",
                  f"save reported success although {[(f['kind'], f.get('on')) for f in fs.fired]} happened, and the file holds the previous content")
    ctx.log("save", stored, err, r)
    if fs.crashed:
        return
    # the disturbance is over: the next save has to work
    fs.disarm()
    ctx.must("save after the failure was gone", F.save, m, arg, sc["how"])
    r = judge.accept(judge.content(), "after the repeated save")
    ctx.check(r == 0 or judge.old == judge.news[0][0], "silent-failure", "the repeated save reported success but stored nothing")
    if err:
        ctx.stat("saves repeated after a failure")


def race(sc, ctx, kn, fs, judge, models, arg):
    res = {}
    bad = []
    if sc["faults"]:
        fs.arm(sc["faults"])

    def saver(j):
        try:
            F.save(models[j], arg, sc["how"])
            res[j] = "ok"
        except Violation as v:
            bad.append(v)
        except SimCrash:
            res[j] = "crash"
        except (Exception, KeyboardInterrupt) as e:
            res[j] = type(e).__name__
            if not fs.fired:
                bad.append(Violation("exception", f"racing save without any failure raised {type(e).__name__}: {str(e)[:200]}"))

    def reader(j):
        for _ in range(2):
            try:
                m = F.read(sc["kind"], arg)
            except Violation as v:
                bad.append(v)
                return
            except (Exception, KeyboardInterrupt) as e:
                ok = fs.fired or judge.old is None or sc["old"] in ("bytes", "empty")
                if not ok:
                    bad.append(Violation("reader", f"a reader racing with savers got {type(e).__name__}: {str(e)[:200]}"))
                res["r"] = type(e).__name__
                continue
            res["r"] = "ok"
            exp = [a for _, a in judge.news]
            if sc["old"] == "model":
                exp = exp + [F.written(F.of_spec(sc["specs"][0]), sc["fmt"], F.file_order(models[0], sc["kind"]))]
            if all(F.differs(m, a) is not None for a in exp):
                bad.append(Violation("reader", "a reader racing with savers read a model nobody saved"))
            ctx.stat("racing reads")

    ths = [threading.Thread(target=saver, args=(j,)) for j in range(1, len(models))] + [threading.Thread(target=reader, args=(j,)) for j in range(len(sc["readers"]))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if bad:
        raise bad[0]
    r = judge.accept(judge.content(), f"after racing saves {res}")
    if any(v == "ok" for v in res.values()) and not fs.crashed and "ok" in [res.get(j) for j in range(1, len(models))]:
        ctx.check(r != "old" or judge.old in [n for n, _ in judge.news], "silent-failure", f"racing saves {res}: the file holds the previous content")
    fs.disarm()
    ctx.log("race", sorted(map(str, res.items())), r)


def simplify(sc):
    for key, val in (("symlink", False), ("chunk", 0), ("pt", "str"), ("how", "method"), ("old", "model")):
        if sc[key] != val:
            yield dict(sc, **{key: val})
    if sc["mode"] == "race" and len(sc["specs"]) > 3:
        yield dict(sc, specs=sc["specs"][:3])
    for j, s in enumerate(sc["specs"]):
        if s["vtype"] != "numpy":
            t = list(sc["specs"])
            t[j] = dict(s, vtype="numpy")
            yield dict(sc, specs=t)
