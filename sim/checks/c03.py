"""C03: load refuses what it cannot restore exactly, and never writes."""
import copy
import errno
import os

from sim import core, iocase, seams
from sim.core import Violation

Env = iocase.Env
BUDGET = {"quick": 30, "thorough": 600}
RULE = ("a run saves one configuration and then performs a history of load attempts by the same "
        "long-lived objects and by fresh ones: from missing, empty, truncated, foreign or overwritten files, "
        "with read errors and short reads, and by objects registered differently from the file; "
        "interleaved with good loads; non-trivial: at least one attempt had to be refused; distinct: by plan hash")
COMPONENTS = {"real": ["sopht.utils.IO", "h5py", "libhdf5"],
              "simulated": ["libc file operations", "file loss and truncation"], "stub": []}
ASSUMPTIONS = ["flipped bytes inside an otherwise intact file are out of scope: HDF5 data carries no checksums here"]
DAMAGE = ["missing", "empty", "trunc", "trunc", "trunc", "garbage", "text", "eio", "shortread"]
MISMATCH = ["extra_field", "rename_field", "kind", "size", "size_perm", "origin", "dx", "N", "N1", "extra_grid",
            "rename_grid", "extra_lfield", "lkind", "dim"]


def step(rng):
    r = rng.random()
    if r < 0.35:
        return {"op": "damage", "how": rng.choice(DAMAGE), "pos": rng.randrange(1000), "at": rng.randrange(14)}
    if r < 0.8:
        return {"op": "mismatch", "how": rng.choice(MISMATCH), "pick": rng.randrange(1000),
                "seed": rng.randrange(10**6)}
    return {"op": "good", "seed": rng.randrange(10**6), "new": rng.random() < 0.5}


def plan(seed, i):
    rng = core.rng_for(seed, "C03", i)
    return {"cfg": iocase.gen_cfg(rng, small=True), "seed": rng.randrange(10**6),
            "ops": [step(rng) for _ in range(rng.choice([4, 6, 10]))]}


def groups(seed, tier):
    n, c = (600, 40) if tier == "quick" else (20000, 400)
    return [{"core": g < c, "plans": [plan(seed, 10 * g + j) for j in range(10)]} for g in range(n)]


def mismatched(cfg, how, pick):
    """A configuration that the file saved from `cfg` cannot satisfy, or None."""
    c = copy.deepcopy(cfg)
    e, lag = c["eul"], c["lag"]
    ef = e["fields"] if e else []
    if how == "extra_field" and e:
        names = [n for n in iocase.ENAMES if n not in [f["name"] for f in ef]]
        e["fields"] = ef + [{"name": names[pick % len(names)], "kind": "SV"[pick % 2], "dtype": "f8", "layout": "C"}]
    elif how == "rename_field" and ef:
        ef[pick % len(ef)]["name"] += "_x"
    elif how == "kind" and ef:
        f = ef[pick % len(ef)]
        f["kind"] = "V" if f["kind"] == "S" else "S"
    elif how == "size" and ef:
        i = pick % len(e["size"])
        e["size"][i] += 1 + pick % 3
    elif how == "size_perm" and ef and len(set(e["size"])) > 1:
        e["size"] = e["size"][1:] + e["size"][:1]
    elif how in ("origin", "dx") and ef:
        i = pick % len(e[how])
        v = e[how][i]
        e[how][i] = [v * (1 + 0.01 * (1 + pick % 9)), v * 1.001, v + e["dx"][i], -v][pick // 7 % 4]
        if how == "dx":
            e[how][i] = abs(e[how][i])
        if abs(e[how][i] - v) <= 1e-4 * abs(v):
            e[how][i] = v + e["dx"][i]
    elif how == "N" and lag:
        lag[pick % len(lag)]["N"] += 1 + pick % 4
    elif how == "N1" and lag:
        g = lag[pick % len(lag)]
        if g["N"] == 1:
            g["N"] = 5
        else:
            g["N"] = 1
    elif how == "extra_grid":
        c["lag"].append({"name": "not_there", "N": 3, "connect": False, "dtype": "f8", "layout": "C",
                         "fields": [{"name": "force", "kind": "V", "dtype": "f8", "layout": "C"}] if pick % 2 else []})
    elif how == "rename_grid" and lag:
        lag[pick % len(lag)]["name"] = "elsewhere"
    elif how == "extra_lfield" and lag:
        g = lag[pick % len(lag)]
        names = [n for n in iocase.LNAMES if n not in [f["name"] for f in g["fields"]]]
        g["fields"] = g["fields"] + [{"name": names[pick % len(names)], "kind": "SV"[pick % 2], "dtype": "f8", "layout": "C"}]
    elif how == "lkind" and lag:
        g = lag[pick % len(lag)]
        if not g["fields"]:
            return None
        f = g["fields"][pick % len(g["fields"])]
        f["kind"] = "V" if f["kind"] == "S" else "S"
    elif how == "dim" and (ef or lag):
        c["dim"] = 5 - c["dim"]
        if e:
            for k in ("size", "origin", "dx"):
                e[k] = (e[k] + [1 if k == "size" else 0.5])[: c["dim"]] if c["dim"] == 3 else e[k][:2]
    else:
        return None
    return c


def attempt(w, path, st, strict, where, faults=(), d=None):
    before = iocase.file_bytes(d)
    err = None
    with seams.Disk(d, faults, reads=True) as dk:
        try:
            t = w.io.load(path)
        except Exception as e:  # refusal
            err = type(e).__name__
    if iocase.file_bytes(d) != before:
        raise Violation("load-wrote", f"{where}: load changed the disk")
    if err is None:
        if strict:
            raise Violation("accepted-mismatch", f"{where}: load returned normally")
        if not w.compatible(st):
            raise Violation("accepted-mismatch", f"{where}: load returned normally from a file without the data")
        iocase.check_loaded(w, st, t, where)
    return err, dk.fired


def run(p, d, counts, log):
    path = os.path.join(d, "a.h5")
    src = iocase.sut("create", iocase.World, p["cfg"], p["seed"])
    iocase.sut("save", src.io.save, path, 1.25)
    st = dict(src.state(), time=1.25)
    iocase.stamp(d)
    with open(path, "rb") as f:
        data = f.read()
    live = iocase.World(p["cfg"], 1)
    for n, s in enumerate(p["ops"]):
        where = f"step {n} {s['op']} {s.get('how', '')}"
        if s["op"] == "good":
            if s["new"]:
                live = iocase.World(p["cfg"], s["seed"])
            else:
                live.refill(s["seed"])
            t = iocase.sut(where, live.io.load, path)
            iocase.check_loaded(live, st, t, where)
            counts["evals"] += 1
            log(n, "good")
        elif s["op"] == "damage":
            b = os.path.join(d, "bad.h5")
            how = s["how"]
            fl = []
            target = b
            if os.path.exists(b):
                os.unlink(b)
            if how == "empty":
                open(b, "wb").close()
            elif how == "trunc":
                cut = s["pos"] * len(data) // 1000
                with open(b, "wb") as f:
                    f.write(data[:cut])
            elif how == "garbage":
                with open(b, "wb") as f:
                    f.write(bytes(range(256)) * 8 + data[512:])
            elif how == "text":
                with open(b, "w") as f:
                    f.write("<Xdmf/>" * 200)
            elif how == "eio":
                target = path
                fl = [{"at": s["at"], "kind": "errno", "arg": errno.EIO}]
            elif how == "shortread":
                target = path
                fl = [{"at": s["at"], "kind": "short", "arg": 1 + s["pos"], "op": "read"},
                      {"at": s["at"] + 1, "kind": "short", "arg": 1, "op": "read"}]
            strict = how in ("missing", "empty", "garbage", "text")
            err, fired = attempt(live, target, st, strict, where, fl, d)
            if how in ("trunc", "eio", "shortread", "missing", "empty", "garbage", "text"):
                k = how if how not in ("eio", "shortread") else ("eio" if fired.get("errno") else "short" if fired.get("short") else None)
                if k:
                    counts["faults"][k] = counts["faults"].get(k, 0) + 1
            counts["evals"] += 1
            log(n, how, err is None)
            if err:
                counts["refused"] += 1
        else:
            c = mismatched(p["cfg"], s["how"], s["pick"])
            if c is None:
                continue
            try:
                w = iocase.World(c, s["seed"])
            except (ValueError, AssertionError):
                continue                   # not a registrable configuration
            if w.compatible(st):
                continue
            err, _ = attempt(w, path, st, True, where, (), d)
            counts["faults"]["mismatch"] = counts["faults"].get("mismatch", 0) + 1
            counts["probes"][s["how"]] = counts["probes"].get(s["how"], 0) + 1
            counts["refused"] += 1
            counts["evals"] += 1
            log(n, s["how"], err)
    return counts


def execute(p, env, work):
    d = seams.fresh_dir(work, "disk")

    def child():
        log = core.Log()
        c = run(p, d, {"evals": 0, "faults": {}, "probes": {}, "refused": 0}, log)
        return c, log.digest()

    code, out = seams.forked(child)
    if out is None:
        raise Violation("process-death", f"the process ended with status {code}")
    if out[0] == "exc":
        name, msg, tb, cls, m2 = out[1]
        if cls:
            raise Violation(cls, m2)
        raise core.HarnessError(tb)
    c, dig = out[1]
    return {"evals": c["evals"], "stats": {"refusals": c["refused"]}, "faults": c["faults"],
            "probes": c["probes"], "digest": dig, "nontrivial": c["refused"] > 0}


def shrink(p):
    yield from iocase.shrink_ops(p)
    for c in iocase.shrink_cfg(p["cfg"]):
        yield dict(p, cfg=c)
