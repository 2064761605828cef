"""C04: the XDMF companions describe exactly what the checkpoint holds."""
import os
import xml.etree.ElementTree as ET

from sim import core, iocase, seams
from sim.core import Violation

Env = iocase.Env
BUDGET = {"quick": 30, "thorough": 600}
RULE = ("a run is a history of saves to several names, registrations, restores and process deaths on a "
        "simulated disk with short writes and EINTR; after every save a viewer model resolves each "
        "companion file against the disk and compares everything it references with the arrays; "
        "non-trivial: at least one companion resolved; distinct: by plan hash")
COMPONENTS = {"real": ["sopht.utils.IO", "h5py", "libhdf5", "XDMF writer"],
              "simulated": ["libc file operations", "process lifetime"], "stub": ["XDMF viewer (reference model)"]}
ASSUMPTIONS = ["the viewer looks data files up relative to the XDMF file, as the XDMF format says"]


def plan(seed, i):
    rng = core.rng_for(seed, "C04", i)
    cfg = iocase.gen_cfg(rng)
    for g in cfg["lag"]:
        g["connect"] = rng.random() < 0.5
    files = rng.sample(iocase.FILES, rng.choice([1, 2, 3]))
    ops = []
    for _ in range(rng.choice([2, 3, 5, 8, 14])):
        r = rng.random()
        if ops and r < 0.2:
            # the same checkpoint again
            ops.append(dict(ops[-1] if ops[-1]["op"] == "save" else [o for o in ops if o["op"] == "save"][-1],
                            seed=rng.randrange(10**6), faults=iocase.benign(rng, rng.choice([0, 0, 1, 3]))))
            if rng.random() < 0.2:
                ops[-1]["time"] = rng.choice(iocase.TIMES)
        elif ops and r < 0.28:
            ops.append({"op": "tidy", "pick": rng.randrange(100), "how": rng.choice(["remove", "empty", "overwrite"])})
        elif ops and r < 0.36:
            ops.append({"op": "regrid", "seed": rng.randrange(10**6)})
        elif ops and r < 0.42:
            ops.append({"op": "other", "cfg": iocase.gen_cfg(rng, True), "file": rng.choice(files),
                        "time": rng.choice(iocase.TIMES), "seed": rng.randrange(10**6)})
        elif r < 0.6 or not ops:
            ops.append({"op": "save", "file": rng.choice(files), "time": rng.choice(iocase.TIMES),
                        "rel": rng.random() < 0.3, "seed": rng.randrange(10**6),
                        "faults": iocase.benign(rng, rng.choice([0, 0, 1, 3]))})
        elif r < 0.7:
            ops.append({"op": "restart", "seed": rng.randrange(10**6)})
        elif r < 0.85:
            ops.append({"op": "adde", "fields": iocase.gen_fields(rng, iocase.ENAMES, 1)})
        else:
            ops.append({"op": "addl", "pick": rng.randrange(10), "connect": rng.random() < 0.5,
                        "fields": iocase.gen_fields(rng, iocase.LNAMES, rng.choice([1, 2]))})
    return {"cfg": cfg, "seed": rng.randrange(10**6), "ops": ops}


def groups(seed, tier):
    n, c = (600, 40) if tier == "quick" else (20000, 400)
    return [{"core": g < c, "plans": [plan(seed, 10 * g + j) for j in range(10)]} for g in range(n)]


def ints(s):
    return [int(x) for x in s.split()]


def bad(msg):
    raise Violation("inconsistent", msg)


class Viewer:
    def __init__(self, root, rel):
        import h5py

        self.path = os.path.join(root, rel)
        self.rel = rel
        self.h5 = h5py

    def data(self, item, where):
        """Resolve an HDF data item -> array."""
        ref = item.text.strip()
        i = ref.rfind(":/")
        if i < 0:
            bad(f"{where}: unresolvable reference {ref!r}")
        f = os.path.join(os.path.dirname(self.path), ref[:i])
        if not os.path.exists(f):
            bad(f"{where}: {ref[:i]} does not exist next to {self.rel}")
        with self.h5.File(f, "r") as h:
            if ref[i + 1:] not in h:
                bad(f"{where}: no dataset {ref[i + 1:]}")
            a = h[ref[i + 1:]][...]
        dims = ints(item.get("Dimensions"))
        n = 1
        for d in dims:
            n *= d
        if n != a.size:
            bad(f"{where}: declares {dims}, the dataset has {a.shape}")
        return a, dims


def prec(item, a, real, where, kind="f"):
    p = int(item.get("Precision"))
    if kind == "f":
        if item.get("NumberType") != "Float":
            bad(f"{where}: number type {item.get('NumberType')}")
        if a.dtype.itemsize == real and p != a.dtype.itemsize:
            bad(f"{where}: declares precision {p}, the data has {a.dtype.itemsize} bytes")
    elif p != a.dtype.itemsize:
        bad(f"{where}: declares precision {p}, the data has {a.dtype.itemsize} bytes")


def same(want, got, where):
    np = seams.np
    want = np.ascontiguousarray(want)
    if want.shape != got.shape or want.tobytes() != np.ascontiguousarray(got).tobytes():
        bad(f"{where}: the data shown is not the data saved")


def parse(path, rel):
    if not os.path.exists(path):
        bad(f"{rel} was not written")
    with open(path, encoding="utf-8") as f:
        text = f.read()
    try:
        return ET.fromstring(text)
    except ET.ParseError as e:
        bad(f"{rel} is not well formed: {e}")


def view(root, name, st):
    """Check every companion of checkpoint `name` against the saved state."""
    np = seams.np
    stem = name[:-3] if name.endswith(".h5") else name
    real = np.dtype(st["real"]).itemsize
    d = st["dim"]
    n = 0
    ef = [k for k in st["kinds"] if k[0] == "e"]
    if ef:
        rel = stem + "_eulerian.xmf"
        v = Viewer(root, rel)
        x = parse(v.path, rel)
        e = st["eul"]
        pad = [] if d == 3 else [0.0]
        size = ([] if d == 3 else [1]) + e["size"]
        grids = x.findall("./Domain/Grid")
        if len(grids) != 1:
            bad(f"{rel}: {len(grids)} grids")
        g = grids[0]
        if float(g.find("Time").get("Value")) != float(st["time"]):
            bad(f"{rel}: time {g.find('Time').get('Value')}, saved {st['time']}")
        t = g.find("Topology")
        if t.get("TopologyType").lower() != "3dcorectmesh" or ints(t.get("Dimensions")) != size:
            bad(f"{rel}: topology {t.attrib}, grid {size}")
        gi = {i.get("Name"): i for i in g.findall("./Geometry/DataItem")}
        for nm, want, fill in (("Origin", e["origin"], 0.0), ("Spacing", e["dx"], 0.0)):
            got = [float(q) for q in gi[nm].text.split()]
            if ints(gi[nm].get("Dimensions")) != [3] or len(got) != 3:
                bad(f"{rel}: {nm} has {len(got)} entries declared as {gi[nm].get('Dimensions')}")
            # numpy prints 8 (single) or 16 decimals, or as many digits when the range is large
            if not all(abs(a - b) <= 1e-6 * abs(b) + min(1e-8, 1e-4 * abs(b))
                       for a, b in zip(got[3 - d:], want)):
                bad(f"{rel}: {nm} {got}, defined {want}")
        want = {}
        for k in ef:
            if st["kinds"][k] == "S":
                want.setdefault(k[1], []).append(st["data"][k])
            else:
                for i in range(d):
                    want.setdefault(f"{k[1]}_{i}", []).append(st["data"][k][i])
        seen = {}
        for a in g.findall("Attribute"):
            w = f"{rel}: attribute {a.get('Name')}"
            if a.get("AttributeType") != "Scalar" or a.get("Center") != "Node":
                bad(f"{w}: {a.attrib}")
            it = a.find("DataItem")
            data, dims = v.data(it, w)
            if dims != size:
                bad(f"{w}: dimensions {dims}, grid {size}")
            prec(it, data, real, w)
            seen.setdefault(a.get("Name"), []).append(data)
        if {k: len(q) for k, q in seen.items()} != {k: len(q) for k, q in want.items()}:
            bad(f"{rel}: shows {sorted(seen)}, saved {sorted(want)}")
        for k in want:
            ok = [any(q.astype(q.dtype).tobytes() == np.ascontiguousarray(s.reshape(size)).tobytes()
                      for s in seen[k]) for q in want[k]]
            if not all(ok):
                bad(f"{rel}: attribute {k} does not show the data saved")
        n += 1
    for gname in st["gnames"]:
        rel = f"{stem}_{gname}.xmf"
        v = Viewer(root, rel)
        x = parse(v.path, rel)
        pos = st["data"]["g", gname]
        num = pos.shape[1]
        g = x.find("./Domain/Grid")
        if float(g.find("Time").get("Value")) != float(st["time"]):
            bad(f"{rel}: time {g.find('Time').get('Value')}, saved {st['time']}")
        t = g.find("Topology")
        con = st["connect"].get(gname)
        if con:
            if t.get("TopologyType") != "Polyline":
                bad(f"{rel}: topology {t.get('TopologyType')} for a connected grid")
            it = t.find("DataItem")
            c, dims = v.data(it, f"{rel}: connectivity")
            if dims != [1, num] or c.tolist() != list(range(num)):
                bad(f"{rel}: connectivity {dims} {c.tolist()[:8]}")
            prec(it, c, real, f"{rel}: connectivity", "i")
        elif t.get("TopologyType") != "Polyvertex" or int(t.get("NumberOfElements")) != num:
            bad(f"{rel}: topology {t.attrib} for {num} unconnected nodes")
        if g.find("Geometry").get("GeometryType") != ("XYZ" if d == 3 else "XY"):
            bad(f"{rel}: geometry {g.find('Geometry').attrib}")
        it = g.find("./Geometry/DataItem")
        data, dims = v.data(it, f"{rel}: geometry")
        if dims != [num, d]:
            bad(f"{rel}: geometry dimensions {dims}")
        prec(it, data, real, f"{rel}: geometry")
        same(pos.T, data, f"{rel}: geometry")
        want = {k[2]: (st["kinds"][k], st["data"][k]) for k in st["kinds"] if k[0] == "l" and k[1] == gname}
        names = [a.get("Name") for a in g.findall("Attribute")]
        if sorted(names) != sorted(want):
            bad(f"{rel}: shows {sorted(names)}, saved {sorted(want)}")
        for a in g.findall("Attribute"):
            w = f"{rel}: attribute {a.get('Name')}"
            kind, arr = want[a.get("Name")]
            if a.get("AttributeType") != ("Scalar" if kind == "S" else "Vector") or a.get("Center") != "Node":
                bad(f"{w}: {a.attrib}")
            it = a.find("DataItem")
            data, dims = v.data(it, w)
            if dims != ([num] if kind == "S" else [num, d]):
                bad(f"{w}: dimensions {dims}")
            prec(it, data, real, w)
            same(arr if kind == "S" else arr.T, data, w)
        n += 1
    return n


def run(p, root, log, c):
    w = iocase.sut("create", iocase.World, p["cfg"], p["seed"])
    files = {}
    for n, o in enumerate(p["ops"]):
        where = f"op {n} {o['op']}"
        if o["op"] == "adde":
            if not w.cfg["eul"]:
                continue
            iocase.sut(where, w.add_eul, o["fields"])
        elif o["op"] == "addl":
            if w.gnames:
                g = w.gnames[o["pick"] % len(w.gnames)]
                iocase.sut(where, w.add_lag, {"name": g, "connect": o["connect"], "fields": o["fields"]}, existing=True)
        elif o["op"] == "tidy":
            # the user, or another program, touches the companions
            names = [f for f in sorted(files) if files[f] is not None]
            if not names:
                continue
            f = names[o["pick"] % len(names)]
            stem = f[:-3] if f.endswith(".h5") else f
            have = [stem + "_eulerian.xmf"] + [f"{stem}_{g}.xmf" for g in files[f]["gnames"]]
            have = [x for x in have if os.path.exists(os.path.join(root, x))]
            if not have:
                continue
            x = os.path.join(root, have[o["pick"] // 7 % len(have)])
            if o["how"] == "remove":
                os.remove(x)
            else:
                with open(x, "w") as fh:
                    fh.write("" if o["how"] == "empty" else "<other/>" * 2000)
            files[f] = None              # until it is saved again
        elif o["op"] == "regrid":
            if w.cfg["eul"]:
                iocase.sut(where, w.regrid, o["seed"])
        elif o["op"] == "other":
            w2 = iocase.sut(where, iocase.World, o["cfg"], o["seed"])
            path = os.path.join(root, o["file"])
            os.makedirs(os.path.dirname(path), exist_ok=True)
            iocase.sut(where, w2.io.save, path, o["time"])
            files[o["file"]] = dict(w2.state(), time=o["time"])
            c["evals"] += view(root, o["file"], files[o["file"]])
        elif o["op"] == "restart":
            # a fresh object registered like the first one continues from a checkpoint
            w2 = iocase.sut(where, iocase.World, p["cfg"], o["seed"])
            for f in sorted(files):
                if files[f] is not None and w2.compatible(files[f]):
                    iocase.sut(where, w2.io.load, os.path.join(root, f))
                    for g in w2.gnames:
                        if files[f]["connect"].get(g):
                            w2.connect[g] = True
                    c["probes"]["saved after restore"] = c["probes"].get("saved after restore", 0) + 1
                    break
            w = w2
        else:
            w.refill(o["seed"])
            path = os.path.join(root, o["file"])
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with seams.Disk(root, o["faults"]) as dk:
                iocase.sut(where, w.io.save, o["file"] if o["rel"] else path, o["time"])
            for f, k in dk.fired.items():
                c["faults"][f] = c["faults"].get(f, 0) + k
            c["disk"] += dk.ops
            iocase.stamp(root)
            files[o["file"]] = dict(w.state(), time=o["time"])
            for f in sorted(files):
                if files[f] is None:
                    continue
                c["evals"] += view(root, f, files[f])
            log(n, o["file"], dk.ops, sorted(dk.fired.items()), c["evals"])
    return c


def execute(p, env, work):
    root = seams.fresh_dir(work, "disk")

    def child():
        os.chdir(root)
        log = core.Log()
        c = run(p, root, log, {"evals": 0, "faults": {}, "probes": {}, "disk": 0})
        return c, log.digest()

    code, out = seams.forked(child)
    if out is None:
        raise Violation("process-death", f"the process ended with status {code}")
    if out[0] == "exc":
        name, msg, tb, cls, m2 = out[1]
        if cls:
            raise Violation(cls, m2)
        raise core.HarnessError(tb)
    c, dig = out[1]
    return {"evals": c["evals"], "stats": {"disk_ops": c["disk"]}, "faults": c["faults"], "probes": c["probes"],
            "digest": dig, "nontrivial": c["evals"] > 0}


def shrink(p):
    yield from iocase.shrink_ops(p)
    for i, o in enumerate(p["ops"]):
        if o.get("faults"):
            yield dict(p, ops=p["ops"][:i] + [dict(o, faults=[])] + p["ops"][i + 1:])
    for c in iocase.shrink_cfg(p["cfg"]):
        yield dict(p, cfg=c)
