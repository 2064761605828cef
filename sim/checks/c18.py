"""C18: refused or interrupted registrations leave a checkpoint writer as it was."""
import os

from sim import core, iocase, seams
from sim.core import Violation

Env = iocase.Env
BUDGET = {"quick": 20, "thorough": 600}
RULE = ("a run registers the grids and fields of one configuration call by call, with refused calls (arrays of a wrong "
        "shape or dimension alone or next to fitting ones, fields before their grid, invalid grids) and calls "
        "interrupted at a seeded line and then repeated in between, and saves and loads now and then; the files and restored "
        "values are compared with those of an object that only saw the accepted calls; non-trivial: a call was refused "
        "or interrupted; distinct: by plan hash")
COMPONENTS = {"real": ["sopht.utils.IO", "h5py", "libhdf5"], "simulated": ["asynchronous exceptions", "processes"], "stub": []}
ASSUMPTIONS = ["asynchronous exceptions surface between Python lines, as the interpreter delivers signals",
               "interrupted registrations of unnamed grids are not repeated (a repetition names a further grid)"]
BAD = ["e_shape", "e_shape", "e_perm", "e_early", "e_lead", "g_dim", "g_flat", "l_shape", "l_shape", "l_lead", "define", "dim"]


def gen_ops(rng, cfg):
    regs = []
    if cfg["eul"]:
        fs = list(cfg["eul"]["fields"])
        while fs:
            k = rng.randint(1, len(fs))
            regs.append({"op": "eul", "fields": fs[:k]})
            fs = fs[k:]
    for g in cfg["lag"]:
        fs = list(g["fields"])
        if g["name"] is not None and len(fs) > 1 and rng.random() < 0.5:
            regs.append({"op": "lag", "g": dict(g, fields=fs[:1])})
            regs.append({"op": "lag", "g": dict(g, fields=fs[1:]), "more": True})
        else:
            regs.append({"op": "lag", "g": g})
    ops = []
    for r in regs:
        if rng.random() < 0.3 and not (r["op"] == "lag" and r["g"]["name"] is None):
            r["at"] = rng.randrange(1000)
            r["exc"] = rng.choice(["interrupt", "memory"])
        while rng.random() < 0.5:
            ops.append(gen_bad(rng))
        if rng.random() < 0.15:
            ops.append({"op": "check", "seed": rng.randrange(10**6)})
        ops.append(r)
    while rng.random() < 0.6:
        ops.append(gen_bad(rng))
    ops.append({"op": "check", "seed": rng.randrange(10**6)})
    return ops


def gen_bad(rng):
    return {"op": "bad", "how": rng.choice(BAD), "pick": rng.randrange(10**6), "good": rng.choice([0, 0, 1, 2]),
            "reuse": rng.random() < 0.5, "last": rng.random() < 0.7}


def plan(seed, i):
    rng = core.rng_for(seed, "C18", i)
    cfg = iocase.gen_cfg(rng, small=True)
    return {"cfg": cfg, "seed": rng.randrange(10**6), "ops": gen_ops(rng, cfg)}


def groups(seed, tier):
    n, c = (400, 20) if tier == "quick" else (20000, 300)
    return [{"core": g < c, "plans": [plan(seed, 10 * g + j) for j in range(10)]} for g in range(n)]


def empty(cfg, eul):
    c = dict(cfg, lag=[])
    c["eul"] = dict(cfg["eul"], fields=[]) if cfg["eul"] and eul else None
    return c


def bad_call(w, op, twin):
    """A registration that must be refused -> callable, or None if there is no such call here."""
    np = seams.np
    io, d, pick, how = w.io, w.cfg["dim"], op["pick"], op["how"]
    e = w.cfg["eul"]

    def mix(bad, goods, taken, prefix):
        """keyword arguments: fitting arrays (under new or used names) around one that does not fit"""
        kw = {}
        for k in range(op["good"]):
            name = taken[(pick + k) % len(taken)] if taken and op["reuse"] else f"{prefix}{k}"
            kw[name] = goods(k)
        name = taken[pick // 7 % len(taken)] if taken and op["reuse"] else "misfit"
        kw.pop(name, None)
        return dict(list(kw.items()) + [(name, bad)]) if op["last"] else dict([(name, bad)] + list(kw.items()))

    if how == "dim":
        from sopht.utils.IO import IO

        return lambda: IO(dim=[0, 1, 4, -2][pick % 4])
    if how == "define":
        kw = {"origin": np.zeros(d), "dx": np.ones(d), "grid_size": np.array([7] * d)}
        k = list(kw)[pick % 3]
        kw[k] = [list(kw[k]), tuple(kw[k]), 3.0, None][pick // 3 % 4]
        return lambda: io.define_eulerian_grid(**kw)
    if how == "e_early":
        if e:
            return None
        return lambda: io.add_as_eulerian_fields_for_io(u=np.zeros([3] * d))
    if how in ("e_shape", "e_perm", "e_lead"):
        if not e:
            return None
        size = list(e["size"])
        fits = [tuple(size), (d, *size)]
        if how == "e_perm":
            shape = size[1:] + size[:1] if pick % 2 else [d] + size[1:] + size[:1]
        elif how == "e_lead":
            shape = [[d + 1] + size, [1] + size, [d - 1] + size, size + [d], size[:-1], [d] + size[:-1], [d, d] + size, []][pick % 8]
        else:
            s2 = list(size)
            s2[pick % d] += [1, 2, -1][pick // 3 % 3]
            shape = s2 if pick // 9 % 2 else [d] + s2
        if tuple(shape) in fits or min(shape, default=1) < 0:
            return None
        kw = mix(np.full(shape, 7.0), lambda k: np.full(size if k % 2 else [d] + size, 8.0), [k[1] for k in sorted(w.arrays) if k[0] == "e"], "x_")
        return lambda: io.add_as_eulerian_fields_for_io(**kw)
    grids = [k[1] for k in sorted(w.arrays) if k[0] == "g"]
    name = grids[pick % len(grids)] if grids and op["reuse"] else [None, "elsewhere"][pick % 2]
    con = pick // 2 % 2 == 0
    n = 2 + pick % 5
    if how == "g_dim":
        grid = np.full(([d + 1, d - 1, 2 * d][pick // 5 % 3], n), 3.0)
        return lambda: io.add_as_lagrangian_fields_for_io(lagrangian_grid=grid, lagrangian_grid_name=name, lagrangian_grid_connect=con)
    if how == "g_flat":
        grid = np.full([(n,), (d, n, 1), (d * n,)][pick // 5 % 3], 3.0)
        return lambda: io.add_as_lagrangian_fields_for_io(lagrangian_grid=grid, lagrangian_grid_name=name, lagrangian_grid_connect=con,
                                                          f=np.zeros(n))
    if name in grids and pick // 11 % 2:
        grid = w.arrays["g", name]
        n = grid.shape[1]
    else:
        grid = np.full((d, n), 3.0)
    if how == "l_shape":
        shape = [(n + 1,), (n + 2, d), (d, n + 1), (n - 1,), (d, n - 1), (n + 3,)][pick // 13 % 6]
    else:
        shape = [(d + 1, n), (d - 1, n), (1, n), (d, 1, n), ()][pick // 13 % 5]
    if shape == (d, n) or (shape and shape[0] == n):
        return None
    taken = [k[2] for k in sorted(w.arrays) if k[0] == "l" and k[1] == name]
    kw = mix(np.full(shape, 7.0), lambda k: np.full((n,) if k % 2 else (d, n), 8.0), taken, "y_")
    return lambda: io.add_as_lagrangian_fields_for_io(lagrangian_grid=grid, lagrangian_grid_name=name, lagrangian_grid_connect=con, **kw)


def register(w, op, inject=True):
    """An accepted registration; when interrupted, the caller repeats it.  -> interrupts"""
    if op["op"] == "eul":
        w.cfg["eul"]["fields"] = w.cfg["eul"]["fields"] + op["fields"]
        do = lambda: w.add_eul(op["fields"])
    else:
        g = op["g"]
        # a later call for the same grid may meet it unregistered (minimised plans)
        there = g["name"] in w.gnames
        do = lambda: w.add_lag(g, existing=True if there else None)
    if not inject or "at" not in op:
        iocase.sut(f"registration {op}", do)
        return 0
    name = "add_as_eulerian_fields_for_io" if op["op"] == "eul" else "add_as_lagrangian_fields_for_io"
    real = getattr(w.io, name)
    fired = [0]

    def interrupted(**k):
        total = [0]
        # how many lines: counted on a scratch object of the same state
        import copy

        scratch = copy.copy(w.io)
        for a, v in vars(w.io).items():
            if isinstance(v, (dict, list)):
                setattr(scratch, a, copy.deepcopy(v))
        total[0], _, _, err = seams.lines(lambda: getattr(type(scratch), name)(scratch, **k))
        if err:
            raise err
        _, hit, _, err = seams.lines(lambda: real(**k), op["at"] * total[0] // 1000, op["exc"])
        if hit and err is None:
            raise Violation("swallowed-interrupt", "an interrupt inside a registration disappeared")
        if err is not None:
            if not hit:
                raise err
            fired[0] = 1
            real(**k)

    setattr(w.io, name, interrupted)
    try:
        iocase.sut(f"registration {op}", do)
    finally:
        delattr(w.io, name)
    return fired[0]


def execute(p, env, work):
    from sim.checks import c14

    d = seams.fresh_dir(work, "c18")
    a, b, c = (os.path.join(d, n) for n in "abc")
    for x in (a, b, c):
        os.mkdir(x)
    log = core.Log()
    defined = p["cfg"]["eul"] is not None
    w, twin = (iocase.World(empty(p["cfg"], defined), 1) for _ in range(2))
    n_bad = n_int = checks = 0
    kinds = {}
    for i, op in enumerate(p["ops"]):
        where = f"call {i} ({op['op']} {op.get('how', '')})"
        if op["op"] == "bad":
            call = bad_call(w, op, twin)
            if call is None:
                continue
            try:
                call()
            except Exception as e:
                log(i, op["how"], type(e).__name__)
            else:
                raise Violation("accepted-misfit", f"{where}: {op} was accepted")
            n_bad += 1
            kinds[op["how"]] = kinds.get(op["how"], 0) + 1
        elif op["op"] in ("eul", "lag"):
            n_int += register(w, op)
            register(twin, op, False)
        else:
            checks += 1
            w.refill(op["seed"])
            twin.refill(op["seed"])
            t = 0.25 * checks
            for x, o in ((a, w), (b, twin)):
                iocase.sut(f"{where}: save", o.io.save, os.path.join(x, "s.h5"), t)
            st = w.state()
            st["time"] = t
            fa, fb = c14.iodump(os.path.join(a, "s.h5")), c14.iodump(os.path.join(b, "s.h5"))
            diff = sorted(k for k in set(fa) | set(fb) if fa.get(k) != fb.get(k))
            if diff:
                raise Violation("refused-call-left-traces", f"{where}: the files differ in {diff[:5]} from those of an object that "
                                                             "saw only the accepted registrations")
            for o, who in ((w, "the object itself"), (twin, "an object that saw only the accepted calls")):
                for v in o.arrays.values():
                    v[...] = 0
                t2 = iocase.sut(f"{where}: load by {who}", o.io.load, os.path.join(a, "s.h5"))
                iocase.check_loaded(o, st, t2, f"{where}: load by {who}")
            log(i, sorted(fa))
    return {"evals": checks, "stats": {"registrations": sum(o["op"] in ("eul", "lag") for o in p["ops"]), "refused calls": n_bad},
            "faults": {k: v for k, v in {"interrupted registration": n_int, "misfit registration": n_bad}.items() if v},
            "probes": kinds, "sigs": [], "digest": log.digest(), "nontrivial": n_bad + n_int > 0, "distinct": core.canon(p)}


def shrink(p):
    yield from iocase.shrink_ops(p)
    for i, op in enumerate(p["ops"]):
        if "at" in op:
            yield dict(p, ops=p["ops"][:i] + [{k: v for k, v in op.items() if k not in ("at", "exc")}] + p["ops"][i + 1:])
        if op.get("good"):
            yield dict(p, ops=p["ops"][:i] + [dict(op, good=0)] + p["ops"][i + 1:])
