"""C02: a failed, interrupted or killed save never leaves a silently wrong checkpoint."""
import errno
import os

from sim import core, iocase, seams
from sim.core import Violation

Env = iocase.Env
BUDGET = {"quick": 40, "thorough": 900}
RULE = ("a run is one registered configuration, optionally over an earlier checkpoint of the same "
        "name, plus fault scenarios placed inside the save: process death before/after/in the middle "
        "of any file operation, ENOSPC/EIO/EDQUOT/EACCES once or from then on, short writes, EINTR, or an "
        "asynchronous KeyboardInterrupt/MemoryError at a line of the writer; a fresh process then "
        "tries to load; non-trivial: a fault fired inside the save; distinct: by plan hash")
COMPONENTS = {"real": ["sopht.utils.IO", "h5py", "libhdf5"],
              "simulated": ["libc file operations", "process death", "asynchronous exceptions"], "stub": []}
ASSUMPTIONS = ["process death keeps what the kernel accepted (no power loss, no silent media corruption)",
               "process death by _exit at a file operation stands for a kill at any point between two operations"]
ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EDQUOT": errno.EDQUOT, "EACCES": errno.EACCES,
       "EROFS": errno.EROFS}


def scenario(rng):
    kind = rng.choice(["crash_before", "crash_before", "crash_after", "torn", "torn", "errno", "errno",
                       "errno_from", "errno_from", "line", "line", "line", "mixed"])
    s = {"kind": kind, "pos": rng.randrange(0, 1000)}
    if rng.random() < 0.25:
        s["pos"] = rng.choice([0, 999, 990, 950, 900, 10, 50])
    if kind == "torn":
        s["arg"] = rng.choice([0, 1, 10, 250, 500, 900, 999])
    if kind in ("errno", "errno_from"):
        s["arg"] = rng.choice(["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS"])
    if kind == "line":
        s["exc"] = rng.choice(["interrupt", "memory"])
    if kind == "mixed":
        s["with"] = iocase.benign(rng, 2)
        s["then"] = rng.choice(["crash_before", "torn", "errno_from"])
        s["arg"] = rng.choice([1, 300, 999])
    s["prior"] = rng.choice([None, "same", "same", "other"])
    s["retry"] = rng.choice(["same", "new", "both"])
    s["sub"] = rng.random() < 0.3
    s["file"] = rng.choice(["a.h5", "a.h5", "plain", "run.h5.d/a.h5"])
    return s


def plan(seed, i):
    rng = core.rng_for(seed, "C02", i)
    return {"cfg": iocase.gen_cfg(rng, small=True), "seed": rng.randrange(10**6),
            "ops": [scenario(rng) for _ in range(4)]}


def groups(seed, tier):
    n, c = (400, 40) if tier == "quick" else (20000, 400)
    return [{"core": g < c, "plans": [plan(seed, 6 * g + j) for j in range(6)]} for g in range(n)]


def sub_cfg(cfg):
    """A reader that restores only part of what was saved."""
    c = dict(cfg)
    if c["eul"] and len(c["eul"]["fields"]) > 1:
        c["eul"] = dict(c["eul"], fields=c["eul"]["fields"][:1])
    elif c["eul"] and c["lag"]:
        c["lag"] = []
    return c


def reader(cfg, path, states, must, where):
    """Fresh process: load and compare with the acceptable states."""
    def go():
        w = iocase.World(cfg, 999)
        try:
            t = w.io.load(path)
        except Exception as e:  # refusal
            return ("refused", type(e).__name__)
        for n, st in enumerate(states):
            if not w.compatible(st):
                continue
            try:
                iocase.check_loaded(w, st, t, where)
                return ("exact", n)
            except Violation as v:
                last = v
        if not any(w.compatible(st) for st in states):
            return ("foreign", None)
        return ("wrong", last.message)

    code, out = seams.forked(go)
    if out is None:
        raise Violation("process-death", f"{where}: the loading process ended with status {code}")
    if out[0] == "exc":
        raise core.HarnessError(out[1][2])
    k, v = out[1]
    if k == "wrong":
        raise Violation("silently-wrong", f"{where}: load succeeded with data that was never saved: {v}")
    if k == "foreign":
        raise Violation("silently-wrong", f"{where}: load succeeded from a file that cannot hold the data")
    if must and (k != "exact" or v != 0):
        raise Violation("lost-save", f"{where}: save returned normally but load gives {k} {v}")
    return f"{k}:{v}"


def execute(p, env, work):
    root = seams.fresh_dir(work, "disk")
    st = {"disk_ops": 0, "saves": 0, "processes": 0}
    faults, probes = {}, {}
    log = core.Log()
    evals = 0
    cfg = p["cfg"]

    # fault-free dry run: how many file operations and writer lines are there?
    def dry():
        w = iocase.World(cfg, p["seed"])
        d = os.path.join(root, "dry")
        os.makedirs(d)
        with seams.Disk(d) as dk:
            w.io.save(os.path.join(d, "a.h5"), 1.0)
        n, _, _, err = seams.lines(lambda: w.io.save(os.path.join(d, "b.h5"), 1.0))
        if err:
            raise err
        return dk.ops, n, dk.kinds

    code, out = seams.forked(dry)
    if out is None or out[0] != "ok":
        raise Violation("exception", f"fault-free save failed: {code} {out[1][:2] if out else ''}")
    nops, nlines, kinds = out[1]
    log("dry", nops, kinds)

    for n, s in enumerate(p["ops"]):
        d = os.path.join(root, f"s{n}")
        path = os.path.join(d, s["file"])
        os.makedirs(os.path.dirname(path))
        keep = os.path.join(d, "keep.h5")
        where = f"scenario {n} ({s['kind']})"
        old = None

        def setup():
            k = iocase.World(cfg, p["seed"] + 17)
            k.io.save(keep, 3.0)
            if s["prior"] == "same":
                o = iocase.World(cfg, p["seed"] + 1)
                o.io.save(path, 4.0)
                return dict(o.state(), time=4.0)
            if s["prior"] == "other":
                c2 = dict(cfg, lag=[]) if cfg["eul"] else cfg
                o = iocase.World(c2, p["seed"] + 2)
                o.io.save(path, 5.0)
                return dict(o.state(), time=5.0)

        code, out = seams.forked(setup)
        if out is None or out[0] != "ok":
            raise Violation("exception", f"{where}: fault-free save failed: {code} {out[1][:2] if out else ''}")
        old = out[1]
        before = iocase.file_bytes(d)
        w0 = iocase.World(cfg, p["seed"])
        new = dict(w0.state(), time=2.0)
        at = min(nops - 1, s["pos"] * nops // 1000)
        if s["kind"] == "line":
            fl = []
        elif s["kind"] == "mixed":
            fl = s["with"] + [{"at": at, "kind": s["then"], "arg": ERR["ENOSPC"] if s["then"] == "errno_from" else s["arg"]}]
        else:
            arg = s.get("arg", 0)
            fl = [{"at": at, "kind": s["kind"], "arg": ERR.get(arg, arg)}]

        def child():
            w = w0
            snap = w.snapshot()
            res = {"again": []}
            with seams.Disk(d, fl) as dk:
                if s["kind"] == "line":
                    _, fired, _, err = seams.lines(lambda: w.io.save(path, 2.0),
                                                   s["pos"] * nlines // 1000, s["exc"])
                    dk.fired_line = fired
                else:
                    err = None
                    try:
                        w.io.save(path, 2.0)
                    except Exception as e:  # noqa
                        err = e
            res["ops"] = dk.ops
            res["fired"] = dict(dk.fired)
            if s["kind"] == "line" and dk.fired_line:
                res["fired"][s["exc"]] = 1
            res["err"] = None if err is None else type(err).__name__
            try:
                iocase.unchanged(snap, w, where)
            except Violation as v:
                res["viol"] = (v.cls, v.message)
                return res
            if err is not None:
                # the retries run in a copy of the process, which libhdf5 may bring down
                # after an error it could not clean up: loud, and not the code's doing
                for r in (["same", "new"] if s["retry"] == "both" else [s["retry"]]):
                    f = path if r == "same" else os.path.join(d, "retry.h5")
                    _, o = seams.forked(lambda: w.io.save(f, 2.0))
                    if o is None:
                        res["again"].append((f, "died"))
                    elif o[0] == "ok":
                        res["again"].append((f, None))
                    else:
                        res["again"].append((f, f"{o[1][0]}: {o[1][1][:160]}"))
            return res

        code, out = seams.forked(child)
        st["processes"] += 3
        st["saves"] += 1
        if out is not None and out[0] == "exc":
            raise core.HarnessError(out[1][2])
        if out is None and code < 0 and s["kind"] != "line":
            probes["died in libhdf5 after an injected error"] = 1
        elif out is None and code != 200:
            raise Violation("process-death", f"{where}: the saving process ended with status {code}")
        ok = False
        res = None
        if out is None:
            k = s["then"] if s["kind"] == "mixed" else s["kind"]
            faults[k] = faults.get(k, 0) + 1
            log(n, "died at", at)
        else:
            res = out[1]
            st["disk_ops"] += res["ops"]
            for k, c in res["fired"].items():
                faults[k] = faults.get(k, 0) + c
            if "viol" in res:
                raise Violation(*res["viol"])
            ok = res["err"] is None
            log(n, "save", res["err"], sorted(res["fired"].items()))
            if res["err"] and not res["fired"]:
                raise Violation("exception", f"{where}: save raised {res['err']} without any fault")
        if ok:
            for c in iocase.companions(s["file"], new["gnames"]):
                f = os.path.join(d, c)
                if c.endswith("_eulerian.xmf") and not any(k[0] == "e" for k in new["data"]):
                    continue
                if c == s["file"]:
                    continue
                if not os.path.exists(f) or not open(f).read().rstrip().endswith("</Xdmf>"):
                    raise Violation("lost-companion", f"{where}: save returned normally but {c} is missing or incomplete")
        states = [new] + ([old] if old else [])
        rd = sub_cfg(cfg) if s["sub"] else cfg
        r = reader(rd, path, states, ok, where)
        evals += 1
        probes[r] = probes.get(r, 0) + 1
        log(n, r)
        # nothing else on the disk may have been touched
        now = iocase.file_bytes(d)
        mine = iocase.companions(s["file"], new["gnames"])
        if res:
            for f, _ in res["again"]:
                mine |= iocase.companions(os.path.relpath(f, d), new["gnames"])
        for f in before:
            if f not in mine and now.get(f) != before[f]:
                raise Violation("foreign-file", f"{where}: {f} was changed by saving {s['file']}")
        if res:
            for f, e in res["again"]:
                rel = os.path.relpath(f, d)
                if e is None:
                    reader(cfg, f, [new], True, f"{where}: retry to {rel}")
                    probes["retry ok"] = probes.get("retry ok", 0) + 1
                    evals += 1
                elif e == "died":
                    probes["died in libhdf5 on retry"] = probes.get("died in libhdf5 on retry", 0) + 1
                elif f != path:
                    raise Violation("stuck", f"{where}: after a failed save, saving to another file raised {e}")
                else:
                    probes["retry to same name refused"] = probes.get("retry to same name refused", 0) + 1
    return {"evals": evals, "stats": st, "faults": faults, "probes": probes, "digest": log.digest(),
            "nontrivial": bool(faults)}


def shrink(p):
    yield from iocase.shrink_ops(p)
    for c in iocase.shrink_cfg(p["cfg"]):
        yield dict(p, cfg=c)
    for i, s in enumerate(p["ops"]):
        for ch in ({"prior": None}, {"retry": "new"}, {"sub": False}, {"file": "a.h5"}):
            if any(s.get(k) != v for k, v in ch.items()):
                yield dict(p, ops=p["ops"][:i] + [dict(s, **ch)] + p["ops"][i + 1:])
