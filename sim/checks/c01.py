"""C01: save/load round trips over histories of several objects, files and processes."""
import os
import shutil

from sim import core, iocase, seams
from sim.core import Violation

Env = iocase.Env
BUDGET = {"quick": 45, "thorough": 900}
RULE = ("a run is a seeded history of operations (create, register more, refill, save, load, "
        "kill the process and continue in a fresh one) over several IO objects and checkpoint "
        "files on the simulated disk with short writes, EINTR and short reads; non-trivial: at "
        "least one load was verified against the reference model; distinct: by plan hash")
COMPONENTS = {"real": ["sopht.utils.IO", "h5py", "libhdf5", "XDMF writer"],
              "simulated": ["libc file operations below the run's directory", "process lifetime (fork, immediate _exit)"],
              "stub": []}
ASSUMPTIONS = ["a killed process loses nothing the kernel already accepted (no power loss)"]


def gen_ops(rng):
    cfgs = [iocase.gen_cfg(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    files = rng.sample(iocase.FILES, rng.choice([1, 2, 2, 3]))
    ops = [{"op": "new", "io": 0, "cfg": 0, "seed": rng.randrange(10**6)}]
    live = {0: 0}
    saved = []
    for _ in range(rng.choice([4, 6, 8, 12, 16])):
        r = rng.random()
        io = rng.choice(sorted(live)) if live else None
        if r < 0.12 or io is None:
            k = rng.choice([0, 1, 2, 3])
            c = rng.randrange(len(cfgs))
            ops.append({"op": "new", "io": k, "cfg": c, "seed": rng.randrange(10**6)})
            live[k] = c
        elif r < 0.22:
            ops.append({"op": "fill", "io": io, "seed": rng.randrange(10**6)})
        elif r < 0.52:
            f = rng.choice(files)
            ops.append({"op": "save", "io": io, "file": f, "time": rng.choice(iocase.TIMES),
                        "rel": rng.random() < 0.3,
                        "faults": iocase.benign(rng, rng.choice([0, 0, 1, 3]))})
            saved.append((f, live[io]))
        elif r < 0.84 and saved:
            f, c = rng.choice(saved[-3:])
            if live.get(io) != c and rng.random() < 0.8:
                m = [k for k in live if live[k] == c]
                if m:
                    io = rng.choice(m)
                else:
                    ops.append({"op": "new", "io": io, "cfg": c, "seed": rng.randrange(10**6)})
                    live[io] = c
            ops.append({"op": "load", "io": io, "file": f, "rel": rng.random() < 0.3,
                        "faults": [{"at": rng.randrange(0, 12), "kind": "short", "op": "read",
                                    "arg": rng.choice([1, 500, 999])}
                                   for _ in range(rng.choice([0, 0, 1, 2]))]})
        elif r < 0.87 and saved:
            f, c = rng.choice(saved[-3:])      # backups put back, files renamed by the user
            g = rng.choice(files)
            if f != g:
                ops.append({"op": "copy", "file": f, "to": g, "keep": rng.random() < 0.5})
                saved.append((g, c))
        elif r < 0.90:
            ops.append({"op": "kill"})
            # a fresh process reopens objects of the same configurations
            for k in sorted(live):
                ops.append({"op": "new", "io": k, "cfg": live[k], "seed": rng.randrange(10**6)})
        elif r < 0.95 and cfgs[live[io]]["eul"]:
            ops.append({"op": "adde", "io": io, "fields": iocase.gen_fields(rng, iocase.ENAMES, 1),
                        "seed": rng.randrange(10**6)})
        else:
            ops.append({"op": "addl", "io": io, "pick": rng.randrange(10),
                        "fields": iocase.gen_fields(rng, iocase.LNAMES, rng.choice([1, 2])),
                        "connect": rng.random() < 0.2, "seed": rng.randrange(10**6)})
    return cfgs, ops


def plan(seed, i):
    rng = core.rng_for(seed, "C01", i)
    cfgs, ops = gen_ops(rng)
    return {"cfgs": cfgs, "ops": ops}


def groups(seed, tier):
    n, core_n = (400, 60) if tier == "quick" else (20000, 400)
    return [{"core": g < core_n, "plans": [plan(seed, 10 * g + j) for j in range(10)]} for g in range(n)]


def segments(ops):
    seg = [[]]
    for o in ops:
        if o["op"] == "kill":
            seg.append([])
        else:
            seg[-1].append(o)
    return seg


def run_segment(p, ops, files, root, log, st, last):
    worlds = {}
    for n, o in enumerate(ops):
        k = o["op"]
        where = f"op {n} {k}"
        if k == "copy":
            if o["file"] in files:
                to = os.path.join(root, o["to"])
                os.makedirs(os.path.dirname(to), exist_ok=True)
                (shutil.copy2 if o["keep"] else shutil.copy)(os.path.join(root, o["file"]), to)
                files[o["to"]] = files[o["file"]]
                if not o["keep"]:
                    seams.clock.stamp(to)
            continue
        if k == "new":
            worlds[o["io"]] = iocase.sut(where, iocase.World, p["cfgs"][o["cfg"]], o["seed"])
            continue
        w = worlds.get(o["io"])
        if w is None:
            continue
        if k == "fill":
            w.refill(o["seed"])
        elif k == "adde":
            if not w.cfg["eul"]:
                continue
            iocase.sut(where, w.add_eul, o["fields"])
            w.refill(o["seed"])
        elif k == "addl":
            if not w.gnames:
                continue
            g = w.gnames[o["pick"] % len(w.gnames)]
            iocase.sut(where, w.add_lag, {"name": g, "connect": o["connect"], "fields": o["fields"]}, existing=True)
            w.refill(o["seed"])
        elif k == "save":
            path = os.path.join(root, o["file"])
            os.makedirs(os.path.dirname(path), exist_ok=True)
            before = w.snapshot()
            disk = iocase.file_bytes(root)
            with seams.Disk(root, o["faults"]) as d:
                iocase.sut(where, w.io.save, o["file"] if o["rel"] else path, o["time"])
            for f, c in d.fired.items():
                st["faults"][f] = st["faults"].get(f, 0) + c
            st["stats"]["disk_ops"] += d.ops
            st["stats"]["saves"] += 1
            iocase.unchanged(before, w, where)
            files[o["file"]] = dict(w.state(), time=o["time"])
            iocase.stamp(root)
            mine = iocase.companions(o["file"], w.gnames)
            now = iocase.file_bytes(root)
            for f in disk:
                if f not in mine and now.get(f) != disk[f]:
                    raise Violation("foreign-file", f"{where}: saving {o['file']} changed {f}")
            log(k, o["file"], d.ops, sorted(d.fired.items()))
        elif k == "load":
            s = files.get(o["file"])
            if s is None or not w.compatible(s):
                continue
            path = os.path.join(root, o["file"])
            disk = iocase.file_bytes(root)
            keep = w.snapshot()
            with seams.Disk(root, o["faults"], reads=True) as d:
                t = iocase.sut(where, w.io.load, o["file"] if o["rel"] else path)
            for f, c in d.fired.items():
                st["faults"][f] = st["faults"].get(f, 0) + c
            st["stats"]["disk_ops"] += d.ops
            iocase.check_loaded(w, s, t, where)
            if iocase.file_bytes(root) != disk:
                raise Violation("load-wrote", f"{where}: loading {o['file']} changed the disk")
            st["evals"] += 1
            for key in s["data"]:
                if key not in w.arrays:
                    st["probes"]["subset load"] = st["probes"].get("subset load", 0) + 1
                    break
            log(k, o["file"], t, [core.hash_array(w.arrays[a]) for a in sorted(w.arrays)])
            # the restored object goes on: connectivity must survive for the next save
            for g in w.gnames:
                if s["connect"].get(g):
                    w.connect[g] = True
            del keep
    return files, st


def execute(p, env, work):
    root = seams.fresh_dir(work, "disk")
    files = {}
    st = {"evals": 0, "faults": {}, "stats": {"disk_ops": 0, "saves": 0, "processes": 0}, "probes": {}}
    dig = core.Log()
    segs = segments(p["ops"])
    cwd = os.getcwd()
    for n, ops in enumerate(segs):
        def child():
            os.chdir(root)
            log = core.Log()
            f, s = run_segment(p, ops, files, root, log, st, n == len(segs) - 1)
            return f, s, log.digest()

        code, out = seams.forked(child)
        st["stats"]["processes"] += 1
        if out is None:
            raise Violation("process-death", f"simulated process {n} ended with status {code}")
        if out[0] == "exc":
            name, msg, tb, cls, m2 = out[1]
            if cls:
                raise Violation(cls, f"process {n}: {m2}")
            raise core.HarnessError(tb)
        procs = st["stats"]["processes"]
        files, st, d = out[1]
        st["stats"]["processes"] = procs
        dig(n, d)
        if n:
            st["probes"]["continued after kill"] = st["probes"].get("continued after kill", 0) + 1
    os.chdir(cwd)
    return {"evals": st["evals"], "stats": st["stats"], "faults": st["faults"], "probes": st["probes"],
            "digest": dig.digest(), "nontrivial": st["evals"] > 0}


def shrink(p):
    yield from iocase.shrink_ops(p)
    for i, o in enumerate(p["ops"]):
        if o.get("faults"):
            yield dict(p, ops=p["ops"][:i] + [dict(o, faults=[])] + p["ops"][i + 1:])
        if o.get("rel"):
            yield dict(p, ops=p["ops"][:i] + [dict(o, rel=False)] + p["ops"][i + 1:])
    for i, c in enumerate(p["cfgs"]):
        for c2 in iocase.shrink_cfg(c):
            yield dict(p, cfgs=p["cfgs"][:i] + [c2] + p["cfgs"][i + 1:])
