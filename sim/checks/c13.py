"""C13: Lagrangian Brinkmann feedback drives node velocities towards the body exactly by
the implicit penalisation law and hands the same flux to the grid."""
from sim import core, gridrun, ib, kernels, seams
from sim.checks import c11
from sim.core import Violation

BUDGET = {"quick": 40, "thorough": 1200}
RULE = ("a run is a history of feedback evaluations (accumulating or resetting) of one to three moving bodies on one grid "
        "with varying time steps, under seeded thread schedules of the resetting kernels, with interrupted evaluations "
        "that are repeated, and dirty memory; every value is compared with a double-precision model; "
        "non-trivial: at least one evaluation was judged; distinct: by plan hash")
COMPONENTS = {"real": ["BrinkmannBoundaryForcing, the communicators below it and the resetting kernels"],
              "simulated": ["OpenMP runtime and threads", "asynchronous exceptions", "array memory"],
              "stub": ["numba (functions run as Python)"]}
ASSUMPTIONS = c11.ASSUMPTIONS
DETERMINISM = {"quick": 3, "thorough": 24}
TOL = {"f8": 1e-10, "f4": 5e-4}


class Env(gridrun.Env):
    def __init__(self, work):
        super().__init__(work)
        from sopht.numeric.immersed_boundary_ops.experimental.BrinkmannBoundaryForcing import BrinkmannBoundaryForcing

        self.cls = BrinkmannBoundaryForcing


def gen_op(rng, cfg, nb):
    o = {"op": rng.choice(["eval", "eval", "eval", "move", "drift", "flow"]), "b": rng.randrange(nb), "seed": rng.randrange(10**9),
         "dt": round(10 ** rng.uniform(-3, 0), 5), "sched": gridrun.gen_sched(rng, cfg["mode"]), "poison": rng.random() < 0.3,
         "pos": rng.choice(ib.POS_STYLES), "style": rng.choice(kernels.STYLES), "rel": rng.choice(kernels.RELATED), "at": None}
    if rng.random() < 0.3:
        o["at"], o["exc"] = rng.randrange(1000), rng.choice(["interrupt", "memory"])
    return o


def groups(seed, tier):
    out = []
    n, c = (200, 20) if tier == "quick" else (5000, 100)
    for g in range(n):
        rng = core.rng_for(seed, "C13", g)
        d = 2 + g % 2
        cfg = {"dim": d, "real": ["f4", "f8"][(g // 2) % 2], "dx": round(10 ** rng.uniform(-1.5, 0.3), 5),
               "off": [0.5, 0.5, 0.0, 0.3][(g // 4) % 4], "nt": gridrun.gen_nt(rng), "mode": rng.choice(["fine", "coarse"])}
        L, cfg["vs"] = ib.gen_units(rng, cfg["real"])
        cfg["dx"] *= L
        plans = []
        for _ in range(8):
            nb = rng.choice([1, 1, 2, 3])
            bodies = [{"n": rng.choice([1, 2, 3, 3, 6, 6, rng.randint(7, 70)]), "lam": rng.choice([0.0, 0.7, 10.0, 1e4]),
                       "reset": rng.random() < (0.6 if i == 0 else 0.25)} for i in range(nb)]
            top = 12 if d == 2 else 7
            size = gridrun.long_size(rng, 4, d) if rng.random() < 0.06 else [rng.randint(4, top) for _ in range(d)]
            plans.append({"cfg": cfg, "size": size, "bodies": bodies, "seed": rng.randrange(10**9),
                          "ops": [gen_op(rng, cfg, nb) for _ in range(rng.choice([3, 6, 9, 9, 30]))]})
        out.append({"core": g < c, "plans": plans})
    return out


def execute(p, env, work):
    np = seams.np
    c, size, d = p["cfg"], tuple(p["size"]), p["cfg"]["dim"]
    T = np.float32 if c["real"] == "f4" else np.float64
    tol = TOL[c["real"]]
    dx = T(c["dx"])
    vs = c["vs"]
    dxr, sr = float(dx), float(T(c["dx"] * c["off"]))
    seams.build_mode(c["mode"], env.work)
    seams.dirty.seed(p["seed"])
    arena = seams.Arena(p["seed"])
    rng = np.random.default_rng(p["seed"])
    flux = arena.array((d, *size), T, rng.uniform(-1, 1, (d, *size)))
    flow = arena.array((d, *size), T, vs * kernels.field(rng, (d, *size), "uniform"))
    env.sched.zero()
    log = core.Log()
    faults, probes, sigs, evals, lines = {}, {}, [], 0, 0

    def count(k):
        faults[k] = faults.get(k, 0) + 1

    bodies = []
    for b in p["bodies"]:
        f = env.cls(brinkmann_coeff=T(b["lam"]), grid_dim=d, dx=dx, eul_grid_coord_shift=T(c["dx"] * c["off"]),
                    num_lag_nodes=b["n"], interp_kernel_width=2, real_t=T, enable_eul_grid_flux_reset=b["reset"],
                    num_threads=c["nt"])
        bodies.append((b, f, arena.array((d, b["n"]), T, ib.positions(rng, b["n"], size, dxr, sr, "uniform", T)),
                       arena.array((d, b["n"]), T, vs * rng.uniform(-1, 1, (d, b["n"])))))
    for m, op in enumerate(p["ops"]):
        bi = op["b"] % len(bodies)
        b, f, pos, vel = bodies[bi]
        r = np.random.default_rng(op["seed"])
        where = (f"{d}D {c['real']} grid {list(size)} threads {c['nt']}, step {m} {op['op']} of body {bi} "
                 f"({b['n']} nodes, coefficient {b['lam']}, {'resetting' if b['reset'] else 'accumulating'})")
        probes[op["op"]] = probes.get(op["op"], 0) + 1
        if op["op"] == "move":
            pos[...] = ib.positions(r, b["n"], size, dxr, sr, op["pos"], T)
            vel[...] = vs * r.uniform(-1, 1, vel.shape)
            continue
        if op["op"] == "drift":
            pos[...] = ib.drift(r, pos, size, dxr, sr)
            continue
        if op["op"] == "flow":
            flow[...] = kernels.related(r, flow, op["rel"]) if op["rel"] else vs * kernels.field(r, flow.shape, op["style"])
            continue
        dt = T(op["dt"])
        w = ib.weights(np.array(pos, float), size, dxr, sr, "cosine")
        U = ib.gather(w, np.array(flow, float))
        a = float(T(b["lam"])) * float(dt)
        pen = (U + a * np.array(vel, float)) / (1 + a)
        q = pen - U
        force = dxr ** d * q / float(dt)
        peak = vs + float(np.max(np.abs(flow)))
        if b["reset"] and op["poison"]:
            flux[...] = np.nan
            count("NaN left in the flux field")
        before = np.array(flux)
        held = [(x, x.tobytes()) for x in (flow, pos, vel)]
        others = [[x.tobytes() for x in (o[1].lag_grid_penalisation_forcing, o[1].lag_grid_flow_velocity_field)]
                  for j, o in enumerate(bodies) if j != bi]

        def go():
            f.compute_interaction_forcing(eul_grid_penalisation_flux=flux, eul_grid_velocity_field=flow,
                                          lag_grid_position_field=pos, lag_grid_velocity_field=vel, dt=dt)

        if op["at"] is not None:
            gridrun.set_sched(env, dict(op["sched"], pol="serial"))
            total, _, _, err = seams.lines(go)
            if err:
                raise err
            flux[...] = before
            gridrun.set_sched(env, op["sched"])
            _, fired, _, err = seams.lines(go, op["at"] * total // 1000, op["exc"])
            if fired and err is None:
                raise Violation("swallowed-interrupt", f"{where}: an interrupt disappeared")
            if err is not None and not fired:
                raise err
            lines += total
            if fired:
                count(op["exc"])
            if not (fired and b["reset"]):
                flux[...] = before
        gridrun.set_sched(env, op["sched"])
        go()
        gridrun.judge_memory(env, arena, where)
        sigs.append(env.sched.sig())
        for x, h in held:
            if x.tobytes() != h:
                raise Violation("input-modified", f"{where}: an input was modified")
        now = [[x.tobytes() for x in (o[1].lag_grid_penalisation_forcing, o[1].lag_grid_flow_velocity_field)]
               for j, o in enumerate(bodies) if j != bi]
        if now != others:
            raise Violation("cross-talk", f"{where}: another body's state changed")
        ib.close(f.lag_grid_flow_velocity_field, U, tol, peak, "wrong-interpolation", f"{where}: flow velocity")
        ib.close(f.lag_grid_penalised_velocity_field, pen, tol, peak, "wrong-penalisation", f"{where}: penalised velocity")
        ib.close(f.lag_grid_penalisation_flux, q, tol, peak, "wrong-flux", f"{where}: node flux")
        ib.close(f.lag_grid_penalisation_forcing, force, tol, peak * dxr ** d / float(dt), "wrong-force", f"{where}: node force")
        base = np.zeros(before.shape) if b["reset"] else before.astype(float)
        add = ib.scatter(w, q, dxr) * dxr ** d
        ib.close(flux, base + add, tol, b["n"] * peak + float(np.max(np.abs(base))), "wrong-grid-flux", f"{where}: grid flux")
        evals += 1
        log(m, bi, core.hash_array(flux), core.hash_array(f.lag_grid_penalisation_forcing), sigs[-1])
        if float(np.max(np.abs(flux))) > 1e3 * vs:
            flux[...] = 0
    st = env.sched.stats()
    if st["preemptions"]:
        faults["preemption"] = st["preemptions"]
    if st["capped"]:
        faults["team smaller than requested"] = st["capped"]
    return {"evals": evals, "stats": dict({k: st[k] for k in ("regions", "teams", "accesses")}, line_events=lines),
            "faults": faults, "probes": probes, "sigs": sigs, "digest": log.digest(), "nontrivial": evals > 0}


def shrink(p):
    for q in c11.shrink(dict(p, bodies=[dict(b, k=0.0, c=0.0, t0=None) for b in p["bodies"]])):
        yield dict(q, bodies=[{k: b[k] for k in ("n", "lam", "reset")} for b in q["bodies"]])
