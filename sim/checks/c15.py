"""C15: boundary penalisation and Laplacian filters that keep buffers between calls
depend on their current input only."""
from sim import core, gridrun, kernels, seams
from sim.core import Violation

BUDGET = {"quick": 40, "thorough": 1200}
RULE = ("a run is a history of calls of one to three operators (filters of different order, type and field kind "
        "sharing one pair of buffers; boundary penalisations of different width sharing coordinate arrays) on fresh "
        "fields, each under a seeded thread schedule, some interrupted at a seeded line, with buffers dirtied by "
        "others in between; non-trivial: at least two calls on one instance were judged; distinct: by plan hash")
COMPONENTS = {"real": ["penalise_field_boundary and laplacian_filter kernels and everything below them"],
              "simulated": ["OpenMP runtime and threads", "asynchronous exceptions", "array memory"], "stub": []}
ASSUMPTIONS = ["asynchronous exceptions surface between Python lines, as the interpreter delivers signals"]
DETERMINISM = {"quick": 3, "thorough": 24}


class Env(gridrun.Env):
    def get(self, p):
        c, size = p["cfg"], tuple(p["size"])
        key = core.canon([c, p["size"]])
        if key in self.cache:
            return self.cache[key]
        np = seams.np
        d = c["dim"]
        seams.build_mode(c["mode"], self.work)
        dt = np.float32 if c["real"] == "f4" else np.float64
        fixed = size if c["fixed"] else None
        ks = []
        if c["what"] == "filter":
            keep = [np.zeros(size, dt), np.zeros(size, dt)]
            for o in c["inst"]:
                s = kernels.CAT["laplacian_filter_3d"]
                ks.append((s, o, kernels.generate(s, o, c["real"], c["nt"], fixed,
                                                  {"filter_flux_buffer": keep[0], "field_buffer": keep[1]})))
        else:
            x = [np.array(c["start"][i] + c["dx"] * (np.arange(size[d - 1 - i]) + 0.5), dt) for i in range(d)]
            mesh = np.meshgrid(*x[::-1], indexing="ij")
            keep = [np.ascontiguousarray(m) for m in mesh[::-1]]
            ex = {f"{n}_grid_field": keep[i] for i, n in enumerate("xyz"[:d])}
            for o in c["inst"]:
                s = kernels.CAT[f"penalise_boundary_{d}d"]
                o2 = dict(o, _grid=[np.array(q, float) for q in x], _dx=c["dx"])
                ks.append((s, o2, kernels.generate(s, o2, c["real"], c["nt"], fixed, dict(ex, dx=c["dx"]))))
        self.cache[key] = (ks, keep)
        return self.cache[key]


end_group = gridrun.end_group


def gen_cfg(rng, i):
    what = ["filter", "penalise", "filter", "penalise", "penalise"][i % 5]
    if what == "filter":
        dim = 3
        inst = [{"filter_order": [0, 1, 2, 3, 1, 2, 4][(i // 5 + k) % 7], "field_type": ["vector", "scalar"][(i // 10 + k) % 2],
                 "filter_type": ["multiplicative", "convolution"][(i // 5 + i // 20 + k) % 2]} for k in range(rng.choice([1, 2, 2, 3]))]
    else:
        dim = 2 if i % 5 == 1 else 3
        inst = []
        for k in range(rng.choice([1, 1, 2])):
            o = {"width": [2, 1, 3, 0, 2, 4][(i // 5 + k) % 6]}
            if dim == 3:
                o["field_type"] = ["scalar", "vector"][(i // 5 + i // 25 + k) % 2]
            inst.append(o)
    L = rng.choice([1, 1, 1, 1e-5, 1e4])
    return {"what": what, "dim": dim, "inst": inst, "real": rng.choice(["f4", "f8"]), "nt": gridrun.gen_nt(rng),
            "mode": rng.choice(["fine", "coarse"]), "fixed": rng.random() < 0.4,
            "start": [L * round(rng.uniform(-1, 1), 3) for _ in range(dim)], "dx": L * round(rng.uniform(0.02, 0.2), 4)}


def gen_op(rng, cfg):
    o = {"k": rng.randrange(len(cfg["inst"])), "seed": rng.randrange(10**9), "style": rng.choice(kernels.STYLES),
         "sched": gridrun.gen_sched(rng, cfg["mode"]), "at": None, "poison": rng.random() < 0.3}
    if rng.random() < 0.4:
        o["at"] = rng.randrange(1000)
        o["exc"] = rng.choice(["interrupt", "memory"])
    return o


def min_size(cfg):
    return 3 if cfg["what"] == "filter" else max(2, max(2 * o["width"] for o in cfg["inst"]))


def groups(seed, tier):
    out = []
    n, c = (160, 20) if tier == "quick" else (5000, 100)
    for g in range(n):
        rng = core.rng_for(seed, "C15", g)
        cfg = gen_cfg(rng, g)
        lo = min_size(cfg)
        top = (22 if cfg["dim"] == 2 else 10)
        size = [rng.randint(lo, max(lo, top if rng.random() < 0.5 else lo + 3)) for _ in range(cfg["dim"])]
        if rng.random() < 0.08:
            size = gridrun.long_size(rng, lo, cfg["dim"])
        out.append({"core": g < c, "plans": [{"cfg": cfg, "size": size, "seed": rng.randrange(10**9),
                                              "ops": [gen_op(rng, cfg) for _ in range(rng.choice([2, 3, 5, 5, 14]))]}
                                             for _ in range(8)]})
    return out


def execute(p, env, work):
    np = seams.np
    ks, keep = env.get(p)
    c, size, d = p["cfg"], tuple(p["size"]), p["cfg"]["dim"]
    dt = np.dtype(c["real"])
    arena = seams.Arena(p["seed"])
    rng = np.random.default_rng(p["seed"])
    scalar, vector = arena.array(size, dt), arena.array((d, *size), dt)
    other = {False: arena.array(size, dt), True: arena.array((d, *size), dt)}
    if c["what"] == "filter":
        for b in keep:
            b[...] = rng.uniform(-1e3, 1e3)
    grids = None if c["what"] == "filter" else [g.tobytes() for g in keep]
    env.sched.zero()
    log = core.Log()
    faults, sigs, evals, lines = {}, [], 0, 0
    for n, op in enumerate(p["ops"]):
        s, o, kern = ks[op["k"] % len(ks)]
        oshow = {k: v for k, v in o.items() if k[0] != "_"}
        where = (f"call {n} ({s['name']} {oshow} {c['real']} threads {c['nt']} {c['mode']} "
                 f"{'fixed' if c['fixed'] else 'flexible'} size {list(size)})")
        vec = o.get("field_type") == "vector"
        field = vector if vec else scalar
        name = s["args"](o)[0][0]
        frng = np.random.default_rng(op["seed"])
        field[...] = kernels.field(frng, field.shape, op["style"]).astype(dt)
        if op["poison"] and c["what"] == "filter":
            for b in keep:
                b[...] = np.nan
        exp = s["ref"]({name: np.array(field, float)}, o)[name]
        at = None
        if op["at"] is not None:
            f2 = other[vec]
            f2[...] = field
            gridrun.set_sched(env, dict(op["sched"], pol="serial"))
            total, _, _, err = seams.lines(lambda: kern(**{name: f2}))
            if err:
                raise err
            at = op["at"] * total // 1000
        gridrun.set_sched(env, op["sched"])
        cnt, fired, _, err = seams.lines(lambda: kern(**{name: field}), at, op.get("exc", "interrupt"))
        lines += cnt
        if err is not None and not fired:
            raise err
        if fired and err is None:
            raise Violation("swallowed-interrupt", f"{where}: an interrupt at line event {at} disappeared")
        gridrun.judge_memory(env, arena, where)
        sigs.append(env.sched.sig())
        if grids and [g.tobytes() for g in keep] != grids:
            raise Violation("input-modified", f"{where}: the coordinate fields were modified")
        if fired:
            faults[op["exc"]] = faults.get(op["exc"], 0) + 1
        else:
            kernels.compare(field, exp, c["real"], where)
            evals += 1
        log(n, s["name"], bool(fired), core.hash_array(field), sigs[-1])
    st = env.sched.stats()
    if st["preemptions"]:
        faults["preemption"] = st["preemptions"]
    if st["capped"]:
        faults["team smaller than requested"] = st["capped"]
    return {"evals": evals, "stats": dict({k: st[k] for k in ("regions", "teams", "accesses")}, line_events=lines),
            "faults": faults, "probes": {c["what"]: 1}, "sigs": sigs, "digest": log.digest(), "nontrivial": evals > 1}


def shrink(p):
    ops = p["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(p, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        for ch in ({"at": None}, {"poison": False}, {"style": "uniform"}, {"sched": dict(o["sched"], pol="serial", cap=0)}):
            if any(o[k] != v for k, v in ch.items()):
                yield dict(p, ops=ops[:i] + [dict(o, **ch)] + ops[i + 1:])
    lo = min_size(p["cfg"])
    for i, n in enumerate(p["size"]):
        for m in (lo, n - 1):
            if lo <= m < n:
                z = list(p["size"])
                z[i] = m
                yield dict(p, size=z)
    if p["cfg"]["nt"]:
        yield dict(p, cfg=dict(p["cfg"], nt=False))
    if len(p["cfg"]["inst"]) > 1:
        n = len(p["cfg"]["inst"])
        used = sorted({o["k"] % n for o in ops})
        if len(used) < n:
            m = {k: i for i, k in enumerate(used)}
            yield dict(p, cfg=dict(p["cfg"], inst=[p["cfg"]["inst"][k] for k in used]),
                       ops=[dict(o, k=m[o["k"] % n]) for o in ops])
