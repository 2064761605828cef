"""Checkpoint worlds: configurations, arrays and the reference model of IO.

The reference model of one checkpoint file is the dictionary of everything the
saving object had registered, by value; nothing of the code under test is used."""
import os

from sim import core, seams

ENAMES = ["vorticity", "velocity", "u", "u_0", "char_func", "Scalar", "time", "x1", "Eulerian",
          "Grid", "psi", "buffer_0_1", "<u>", "p\"q", "mean u", "\u03c9"]
LNAMES = ["force", "velocity", "u", "Grid", "Vector", "strain", "x1", "mismatch", "Connection", "a & b", "f'", "\u0394x", "<f\u00b2>"]
GNAMES = ["rod", "sphere", "Lagrangian_grid_0", "Lagrangian_grid_1", "cyl_2", "Scalar", "rod_1", "rod & ball", "b\u00e9ton",
          None, None]
LAYOUTS = ["C", "F", "view", "strided", "rev"]
TIMES = [0.0, 0.1, 1.0 / 3.0, 1e-9, 12345.678901234567, 7, -2.5]
FILES = ["a.h5", "b.h5", "step_0010.h5", "d.h5/c.h5", "run.h5.d/a.h5", "plain", "x.h5.bak", "sub/a.h5",
         "noext.dat", "R&D.h5", "sub/<a> b.h5", "\u00e9t\u00e9.h5"]


def gen_fields(rng, names, n):
    out = []
    for name in rng.sample(names, n):
        out.append({"name": name, "kind": rng.choice("SV"), "dtype": rng.choice(["f8", "f8", "f4"]),
                    "layout": rng.choice(LAYOUTS) if rng.random() < 0.4 else "C"})
    return out


def gen_cfg(rng, small=False):
    dim = rng.choice([2, 3])
    cfg = {"dim": dim, "real": rng.choice(["f4", "f8"]), "eul": None, "lag": []}
    if rng.random() < 0.8:
        size = [rng.choice([1, 2, 3, 4, 5, 7]) for _ in range(dim)]
        if not small and rng.random() < 0.1:
            size = [rng.choice([16, 33]) for _ in range(dim)]
        if rng.random() < 0.3:
            size = [size[0]] * dim
        if not small and rng.random() < 0.06 and max(size) < 16:
            size[rng.randrange(dim)] = rng.choice([65, 100, 257, 1025])
        # lengths in any unit, and grids that start at zero
        unit = 10.0 ** rng.choice([-10, -7, -4, 3, 7]) if rng.random() < 0.3 else 1.0
        zero = rng.random() < 0.2
        cfg["eul"] = {"size": size,
                      "origin": [0.0 if zero else round(rng.uniform(-1, 1), 3) * unit for _ in range(dim)],
                      "dx": [round(rng.uniform(0.01, 1), 4) * unit for _ in range(dim)],
                      "fields": gen_fields(rng, ENAMES, rng.choice([0, 1, 1, 2, 3, 4]))}
    many = not small and rng.random() < 0.06       # two-digit default names
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3]) if not many else rng.randint(10, 13)):
        name = rng.choice(GNAMES) if not many or rng.random() < 0.1 else None
        taken = [g["name"] for g in cfg["lag"]]
        # adding to a name that is taken (also by an unnamed grid) is not a new grid
        if name is not None and (name in taken or (name.startswith("Lagrangian_grid_") and None in taken)):
            continue
        cfg["lag"].append({"name": name, "N": rng.choice([1, 2, 3, 4, 6, 11] if small or rng.random() < 0.9 else [64, 200, 1030]),
                           "connect": rng.random() < 0.4,
                           "dtype": rng.choice(["f8", "f8", "f4"]),
                           "layout": rng.choice(LAYOUTS) if rng.random() < 0.3 else "C",
                           "fields": gen_fields(rng, LNAMES, rng.choice([0, 1, 1, 2, 3]) if not many else rng.choice([0, 1]))})
    if not cfg["eul"] and not cfg["lag"]:
        return gen_cfg(rng, small)
    return cfg


def make(shape, dtype, layout):
    np = seams.np
    dt = np.dtype(dtype)
    if layout == "F":
        a = np.zeros(shape, dt, order="F")
    elif layout == "view":
        a = np.zeros([s + 2 for s in shape], dt)[tuple(slice(1, s + 1) for s in shape)]
    elif layout == "strided":
        a = np.zeros([2 * s for s in shape], dt)[tuple(slice(0, 2 * s, 2) for s in shape)]
    elif layout == "rev":
        a = np.zeros(shape, dt)[tuple(slice(None, None, -1) for s in shape)]
    else:
        a = np.zeros(shape, dt)
    return a


SPECIAL = [float("inf"), float("-inf"), float("nan"), -0.0, 5e-324, 1e308]


def fill(a, rng):
    np = seams.np
    v = rng.standard_normal(a.shape) * 10.0 ** rng.integers(-3, 4)
    n = v.size
    if n and rng.random() < 0.3:
        flat = v.reshape(-1)
        flat[rng.integers(0, n)] = SPECIAL[rng.integers(0, len(SPECIAL))]
    with np.errstate(all="ignore"):
        a[...] = v.astype(a.dtype)


class World:
    """One simulated process' registered state: an IO object and its arrays."""

    def __init__(self, cfg, seed):
        self.cfg = cfg
        self.arrays = {}          # key -> array; key: ("e", field) ("g", grid) ("l", grid, field)
        self.kinds = {}
        self.connect = {}
        self.gnames = []
        self.autos = 0
        from sopht.utils.IO import IO

        np = seams.np
        self.io = IO(dim=cfg["dim"], real_dtype=np.float32 if cfg["real"] == "f4" else np.float64)
        if cfg["eul"]:
            e = cfg["eul"]
            rt = np.dtype(cfg["real"])
            self.io.define_eulerian_grid(origin=np.array(e["origin"], rt), dx=np.array(e["dx"], rt),
                                         grid_size=np.array(e["size"]))
            self.add_eul(e["fields"])
        for g in cfg["lag"]:
            self.add_lag(g)
        self.refill(seed)

    def add_eul(self, fields):
        e = self.cfg["eul"]
        d = self.cfg["dim"]
        new = {}
        for f in fields:
            shape = tuple(e["size"]) if f["kind"] == "S" else (d, *e["size"])
            a = make(shape, f["dtype"], f["layout"])
            new[f["name"]] = a
            self.arrays["e", f["name"]] = a
            self.kinds["e", f["name"]] = f["kind"]
        if new:
            self.io.add_as_eulerian_fields_for_io(**new)
        return new

    def add_lag(self, g, existing=None):
        """Register a Lagrangian grid (or more fields on one already there)."""
        d = self.cfg["dim"]
        name = g["name"]
        eff = name
        if name is None:
            while f"Lagrangian_grid_{self.autos}" in self.gnames:
                self.autos += 1
            eff = f"Lagrangian_grid_{self.autos}"
            self.autos += 1
        if existing is None:
            pos = make((d, g["N"]), g["dtype"], g["layout"])
            self.arrays["g", eff] = pos
            self.gnames.append(eff)
        else:
            pos = self.arrays["g", eff]
        kw = {}
        n = pos.shape[1]
        for f in g["fields"]:
            a = make((n,) if f["kind"] == "S" else (d, n), f["dtype"], f["layout"])
            kw[f["name"]] = a
            self.arrays["l", eff, f["name"]] = a
            self.kinds["l", eff, f["name"]] = f["kind"]
        if g["connect"]:
            self.connect[eff] = True
        self.io.add_as_lagrangian_fields_for_io(lagrangian_grid=pos, lagrangian_grid_name=name,
                                                lagrangian_grid_connect=g["connect"], **kw)
        return eff

    def regrid(self, seed):
        """Same grid size, other geometry (a moved or rescaled domain)."""
        np = seams.np
        rng = np.random.default_rng(seed)
        e = self.cfg["eul"]
        q = 1 + rng.random()
        self.cfg = dict(self.cfg, eul=dict(e, origin=[float(v) + q for v in e["origin"]] if rng.random() < 0.7 else e["origin"],
                                           dx=[float(v) * q for v in e["dx"]] if rng.random() < 0.7 else e["dx"]))
        e, rt = self.cfg["eul"], np.dtype(self.cfg["real"])
        self.io.define_eulerian_grid(origin=np.array(e["origin"], rt), dx=np.array(e["dx"], rt), grid_size=np.array(e["size"]))

    def refill(self, seed):
        rng = seams.np.random.default_rng(seed)
        for k in sorted(self.arrays):
            fill(self.arrays[k], rng)

    def snapshot(self):
        np = seams.np
        return {k: np.array(v, order="C", copy=True) for k, v in self.arrays.items()}

    def state(self):
        """Reference content of a checkpoint saved now."""
        e = self.cfg["eul"]
        return {"dim": self.cfg["dim"], "real": self.cfg["real"],
                "eul": None if not e else {k: list(e[k]) for k in ("size", "origin", "dx")},
                "kinds": dict(self.kinds), "data": self.snapshot(),
                "connect": dict(self.connect), "gnames": list(self.gnames)}

    def compatible(self, st):
        """Does `st` hold everything this object wants to restore?"""
        e = self.cfg["eul"]
        if any(k[0] == "e" for k in self.arrays):
            if not st["eul"] or self.cfg["dim"] != st["dim"] or list(e["size"]) != st["eul"]["size"]:
                return False
            # parameters are stored in the saving object's precision
            for p in ("origin", "dx"):
                if self.cfg["real"] != st["real"] or list(e[p]) != st["eul"][p]:
                    return False
        for k, a in self.arrays.items():
            if k not in st["data"] or st["data"][k].shape != a.shape:
                return False
            if k in self.kinds and self.kinds[k] != st["kinds"][k]:
                return False
        return True


def same_bits(a, b):
    """Bitwise equality (NaN payloads and signed zeros included)."""
    np = seams.np
    a, b = np.ascontiguousarray(a), np.ascontiguousarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def restored(want, got):
    """`got` must be `want` converted to got's dtype."""
    np = seams.np
    with np.errstate(all="ignore"):
        w = want.astype(got.dtype)
    if w.shape != got.shape:
        return False
    # a NaN may lose its payload when precision changes
    if want.dtype == got.dtype:
        return same_bits(w, got)
    wi, gi = np.ascontiguousarray(w), np.ascontiguousarray(got)
    nan = np.isnan(wi)
    return bool((np.isnan(gi) == nan).all()) and same_bits(wi[~nan], gi[~nan])


def check_loaded(world, st, t, where):
    for k in sorted(world.arrays):
        if not restored(st["data"][k], world.arrays[k]):
            raise core.Violation("wrong-data", f"{where}: {k} differs from what was saved")
    if t != st["time"]:
        raise core.Violation("wrong-time", f"{where}: time {t!r}, saved {st['time']!r}")


def unchanged(before, world, where):
    for k in sorted(before):
        if not same_bits(before[k], world.arrays[k]):
            raise core.Violation("input-modified", f"{where}: {k} was modified in memory")


def file_bytes(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = core.hashlib.sha256(fh.read()).hexdigest()
    return out


def stamp(root):
    """The file server's clock, not this machine's, dates the files."""
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if seams.clock.rng.random() < 0.6:
                seams.clock.stamp(os.path.join(d, f))


def companions(fname, gnames):
    root = fname[:-3] if fname.endswith(".h5") else fname
    return {fname, root + "_eulerian.xmf"} | {f"{root}_{g}.xmf" for g in gnames}


def sut(where, fn, *a, **k):
    """A call that must succeed."""
    try:
        return fn(*a, **k)
    except (core.Violation, core.HarnessError, seams.Injected):
        raise
    except Exception as e:
        raise core.Violation("exception", f"{where} raised {type(e).__name__}: {str(e)[:300]}")


def benign(rng, n):
    """Disk behaviour every correct program must tolerate."""
    out = []
    for _ in range(n):
        k = rng.choice(["short", "short", "eintr"])
        out.append({"at": rng.randrange(0, 25), "kind": k, "op": "write",
                    "arg": rng.choice([1, 100, 500, 999])})
    return out


def shrink_ops(plan, key="ops"):
    """Candidates with fewer operations."""
    ops = plan[key]
    n = len(ops)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield dict(plan, **{key: ops[:i] + ops[i + size:]})
        size //= 2


def shrink_cfg(cfg):
    if cfg["eul"]:
        if cfg["lag"]:
            yield dict(cfg, eul=None)
        for i in range(len(cfg["eul"]["fields"])):
            f = cfg["eul"]["fields"]
            yield dict(cfg, eul=dict(cfg["eul"], fields=f[:i] + f[i + 1:]))
        if any(s > 2 for s in cfg["eul"]["size"]):
            yield dict(cfg, eul=dict(cfg["eul"], size=[min(s, 2) for s in cfg["eul"]["size"]]))
    for i in range(len(cfg["lag"])):
        if len(cfg["lag"]) > 1 or cfg["eul"]:
            yield dict(cfg, lag=cfg["lag"][:i] + cfg["lag"][i + 1:])
        g = cfg["lag"][i]
        for j in range(len(g["fields"])):
            g2 = dict(g, fields=g["fields"][:j] + g["fields"][j + 1:])
            yield dict(cfg, lag=cfg["lag"][:i] + [g2] + cfg["lag"][i + 1:])
        for ch in ({"connect": False}, {"layout": "C"}, {"N": 2}):
            if any(g[k] != v for k, v in ch.items()):
                yield dict(cfg, lag=cfg["lag"][:i] + [dict(g, **ch)] + cfg["lag"][i + 1:])
    for part in ("eul",):
        if cfg[part] and any(f["layout"] != "C" for f in cfg[part]["fields"]):
            yield dict(cfg, eul=dict(cfg["eul"], fields=[dict(f, layout="C") for f in cfg["eul"]["fields"]]))


class Env:
    """Imports and warms everything simulated processes are forked from."""

    def __init__(self, work):
        root = seams.fresh_dir(work, "warm")
        rng = core.rng_for("warm")
        for i in range(3):
            w = World(gen_cfg(rng), i)
            w.io.save(os.path.join(root, "w.h5"), 0.0)
            w.io.load(os.path.join(root, "w.h5"))
