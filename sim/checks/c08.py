"""C08: interrupted time steps leave every component either untouched or advanced,
and nothing left in shared scratch memory changes a later step."""
from sim import core, gridrun, kernels, seams
from sim.core import Violation

BUDGET = {"quick": 30, "thorough": 1200}
RULE = ("a run is a history of advection, diffusion and stretching steps on one evolving field that share "
        "scratch buffers, each under a seeded thread schedule, some interrupted at a seeded line of the step "
        "by KeyboardInterrupt or MemoryError and followed by further steps; non-trivial: a fault fired or a "
        "team of two or more threads ran; distinct: by plan hash")
COMPONENTS = {"real": ["time-step kernels and everything below them", "gcc-compiled kernels"],
              "simulated": ["OpenMP runtime and threads", "asynchronous exceptions", "array memory"], "stub": []}
ASSUMPTIONS = ["asynchronous exceptions surface between Python lines, as the interpreter delivers signals"]
DETERMINISM = {"quick": 3, "thorough": 24}


class Env(gridrun.Env):
    def get(self, p):
        key = core.canon([p["cfg"], p["size"]])
        if key not in self.cache:
            np = seams.np
            c = p["cfg"]
            seams.build_mode(c["mode"], self.work)
            dt = np.float32 if c["real"] == "f4" else np.float64
            mid = np.zeros((3, *p["size"]), dt) if c["dim"] == 3 else None
            ks = []
            for name in c["kernels"]:
                s = kernels.CAT[name]
                o = {"field_type": c["ft"]} if "field_type" in s["opts"] else {}
                extra = {"midstep_buffer_vector_field": mid} if s.get("stateful") == "ssprk3" else None
                ks.append((s, o, kernels.generate(s, o, c["real"], c["nt"], p["size"] if c["fixed"] else None, extra)))
            self.cache[key] = (ks, mid)
        return self.cache[key]


end_group = gridrun.end_group


def gen_cfg(rng, i):
    dim = [2, 3, 3][i % 3]
    ft = "scalar" if dim == 2 else ["vector", "vector", "scalar"][(i // 3) % 3]
    ks = [f"advection_step_{dim}d", f"diffusion_step_{dim}d"]
    if ft == "vector":
        ks += [["stretching_ssprk3_3d"], ["stretching_step_3d"], ["stretching_step_3d", "stretching_ssprk3_3d"]][(i // 9) % 3]
    return {"dim": dim, "ft": ft, "kernels": ks, "real": rng.choice(["f4", "f8"]), "nt": gridrun.gen_nt(rng),
            "mode": rng.choice(["fine", "coarse"]), "fixed": rng.random() < 0.4}


def gen_op(rng, cfg):
    o = {"k": rng.randrange(len(cfg["kernels"])), "dt": round(rng.uniform(0.01, 0.15), 4) * rng.choice([1, 1, -1]),
         "sched": gridrun.gen_sched(rng, cfg["mode"]), "at": None, "poison": rng.random() < 0.3,
         "vel": rng.randrange(10**6) if rng.random() < 0.3 else None}
    if rng.random() < 0.55:
        o["at"] = rng.randrange(1000)
        o["exc"] = rng.choice(["interrupt", "memory"])
    return o


def groups(seed, tier):
    out = []
    n, c = (120, 18) if tier == "quick" else (4000, 90)
    for g in range(n):
        rng = core.rng_for(seed, "C08", g)
        cfg = gen_cfg(rng, g)
        top = 20 if cfg["dim"] == 2 else 9
        size = [rng.randint(4 + rng.choice([0, 1, 1]), top) for _ in range(cfg["dim"])]
        if rng.random() < 0.08:
            size = gridrun.long_size(rng, 5, cfg["dim"])
        plans = []
        for _ in range(10):
            plans.append({"cfg": cfg, "size": size, "seed": rng.randrange(10**9), "style": rng.choice(kernels.STYLES),
                          "ops": [gen_op(rng, cfg) for _ in range(rng.choice([2, 4, 6, 8, 8, 20]))]})
        out.append({"core": g < c, "plans": plans})
    return out


def execute(p, env, work):
    np = seams.np
    ks, mid = env.get(p)
    c, size, d = p["cfg"], tuple(p["size"]), p["cfg"]["dim"]
    dt = np.dtype(c["real"])
    arena = seams.Arena(p["seed"])
    rng = np.random.default_rng(p["seed"])
    vec = c["ft"] == "vector"
    shape = (d, *size) if vec else size
    field = arena.array(shape, dt, kernels.field(rng, shape, p["style"]).astype(dt))
    vel = arena.array((d, *size), dt, kernels.field(rng, (d, *size), "uniform").astype(dt))
    scratch = arena.array((d, *size), dt)
    f2 = arena.array(shape, dt)
    if mid is not None:
        mid[...] = rng.uniform(-1e3, 1e3)
    scratch[...] = np.nan
    env.sched.zero()
    log = core.Log()
    faults, probes, sigs, evals, lines = {}, {}, [], 0, 0
    for n, op in enumerate(p["ops"]):
        s, o, kern = ks[op["k"] % len(ks)]
        where = f"step {n} ({s['name']} {o} {c['real']} threads {c['nt']} {c['mode']} size {list(size)})"
        if op["vel"] is not None:
            vel[...] = kernels.field(np.random.default_rng(op["vel"]), vel.shape, "uniform")
        if op["poison"]:
            scratch[...] = np.nan
            if mid is not None:
                mid[...] = np.nan
        kw, ref = {}, {}
        for name, kind, role in s["args"](o):
            if role == "m":
                kw[name], ref[name], fname = field, np.array(field, float), name
            elif role == "b":
                kw[name] = scratch if kind == "W" else scratch[0]
                ref[name] = None
            elif kind == "W":
                kw[name], ref[name] = vel, np.array(vel, float)
            else:
                kw[name] = dt.type(op["dt"])
                ref[name] = float(kw[name])
        exp = s["ref"](ref, o)[fname]
        keep = vel.tobytes()
        at = None
        if op["at"] is not None:
            f2[...] = field
            gridrun.set_sched(env, dict(op["sched"], pol="serial"))
            total, _, _, err = seams.lines(lambda: kern(**dict(kw, **{fname: f2})))
            if err:
                raise err
            at = op["at"] * total // 1000
            if op["poison"]:
                scratch[...] = np.nan
        gridrun.set_sched(env, op["sched"])
        old = [x.tobytes() for x in kernels.comps(field, vec)]
        cnt, fired, _, err = seams.lines(lambda: kern(**kw), at, op.get("exc", "interrupt"))
        lines += cnt
        if err is not None and not fired:
            raise err
        if fired and err is None:
            raise Violation("swallowed-interrupt", f"{where}: an interrupt at line event {at} disappeared")
        gridrun.judge_memory(env, arena, where)
        sigs.append(env.sched.sig())
        if vel.tobytes() != keep:
            raise Violation("input-modified", f"{where}: the velocity was modified")
        evals += 1
        out = []
        for i, (x, e) in enumerate(zip(kernels.comps(field, vec), kernels.comps(exp, vec))):
            if fired and x.tobytes() == old[i]:
                out.append("old")
                continue
            w = where if not fired else f"{where} interrupted at line event {at}: component {i} is neither untouched nor advanced"
            kernels.compare(x, e, c["real"], w)
            out.append("new")
        if fired:
            faults[op["exc"]] = faults.get(op["exc"], 0) + 1
            k = "-".join(sorted(set(out)))
            probes[f"interrupted leaving {k}"] = probes.get(f"interrupted leaving {k}", 0) + 1
        log(n, s["name"], out, core.hash_array(field), sigs[-1])
        m = float(np.max(np.abs(field)))
        if m > 4:          # keep magnitudes moderate, as a CFL-limited run would
            field[...] = field / dt.type(m)
    st = env.sched.stats()
    if st["preemptions"]:
        faults["preemption"] = st["preemptions"]
    if st["capped"]:
        faults["team smaller than requested"] = st["capped"]
    return {"evals": evals, "stats": dict({k: st[k] for k in ("regions", "teams", "accesses")}, line_events=lines),
            "faults": faults, "probes": probes, "sigs": sigs, "digest": log.digest(),
            "nontrivial": st["teams"] > 0 or bool(faults)}


def shrink(p):
    ops = p["ops"]
    size = len(ops) // 2
    while size >= 1:
        for i in range(0, len(ops), size):
            if ops[:i] + ops[i + size:]:
                yield dict(p, ops=ops[:i] + ops[i + size:])
        size //= 2
    for i, o in enumerate(ops):
        for ch in ({"at": None}, {"poison": False}, {"vel": None}, {"sched": dict(o["sched"], pol="serial", cap=0)}):
            if any(o[k] != v for k, v in ch.items()):
                yield dict(p, ops=ops[:i] + [dict(o, **ch)] + ops[i + 1:])
    for i, n in enumerate(p["size"]):
        for m in (4, 5, n - 1):
            if 4 <= m < n:
                z = list(p["size"])
                z[i] = m
                yield dict(p, size=z)
    if p["cfg"]["nt"]:
        yield dict(p, cfg=dict(p["cfg"], nt=False))
    if len(p["cfg"]["kernels"]) > 1:
        used = sorted({o["k"] % len(p["cfg"]["kernels"]) for o in ops})
        if len(used) < len(p["cfg"]["kernels"]):
            m = {k: i for i, k in enumerate(used)}
            n = len(p["cfg"]["kernels"])
            yield dict(p, cfg=dict(p["cfg"], kernels=[p["cfg"]["kernels"][k] for k in used]),
                       ops=[dict(o, k=m[o["k"] % n]) for o in ops])
