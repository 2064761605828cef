"""C11: virtual-boundary feedback keeps an exact history integral for every body and
delivers exactly the force of the feedback law to nodes and grid."""
import copy

from sim import core, gridrun, ib, kernels, seams
from sim.core import Violation

BUDGET = {"quick": 40, "thorough": 1200}
RULE = ("a run is a history of force evaluations (node-only, accumulating or resetting), time steps, body motions and "
        "process restarts of one to three bodies on one grid, under seeded thread schedules of the resetting kernels, "
        "with interrupted evaluations and steps and dirty memory; every value is compared with a double-precision "
        "model and a twin continues from saved state after each restart; non-trivial: at least two force evaluations "
        "were judged; distinct: by plan hash")
COMPONENTS = {"real": ["VirtualBoundaryForcing, the communicators below it and the resetting kernels"],
              "simulated": ["OpenMP runtime and threads", "asynchronous exceptions", "process restarts", "array memory"],
              "stub": ["numba (functions run as Python)"]}
ASSUMPTIONS = ["the whole support of every node lies inside the grid (documented limitation)",
               "asynchronous exceptions surface between Python lines"]
DETERMINISM = {"quick": 3, "thorough": 24}
TOL = {"f8": 1e-10, "f4": 5e-4}


class Env(gridrun.Env):
    def __init__(self, work):
        super().__init__(work)
        from sopht.numeric.immersed_boundary_ops import VirtualBoundaryForcing

        self.cls = VirtualBoundaryForcing


def gen_op(rng, cfg, nb):
    o = {"op": rng.choice(["force", "force", "force", "lag", "step", "step", "step", "move", "drift", "flow", "restart"]),
         "b": rng.randrange(nb), "seed": rng.randrange(10**9), "dt": round(10 ** rng.uniform(-3, 0), 5) * rng.choice([1, 1, 1, 0]),
         "sched": gridrun.gen_sched(rng, cfg["mode"]), "poison": rng.random() < 0.3,
         "pos": rng.choice(ib.POS_STYLES), "style": rng.choice(kernels.STYLES), "rel": rng.choice(kernels.RELATED), "at": None}
    if rng.random() < 0.3:
        o["at"], o["exc"] = rng.randrange(1000), rng.choice(["interrupt", "memory"])
    return o


def groups(seed, tier):
    out = []
    n, c = (200, 20) if tier == "quick" else (5000, 100)
    for g in range(n):
        rng = core.rng_for(seed, "C11", g)
        d = 2 + g % 2
        cfg = {"dim": d, "real": ["f4", "f8"][(g // 2) % 2], "dx": round(10 ** rng.uniform(-1.5, 0.3), 5),
               "off": [None, 0.5, 0.0, 0.3][(g // 4) % 4], "nt": gridrun.gen_nt(rng), "mode": rng.choice(["fine", "coarse"])}
        L, cfg["vs"] = ib.gen_units(rng, cfg["real"])
        cfg["dx"] *= L
        plans = []
        for _ in range(8):
            nb = rng.choice([1, 1, 2, 3])
            bodies = [{"n": rng.choice([1, 2, 3, 3, 6, 6, rng.randint(7, 70)]), "k": rng.choice([-40.0, -3.0, 0.0, 11.5]), "c": rng.choice([-5.0, 0.0, -0.7, 2.5]),
                       "reset": rng.random() < (0.6 if i == 0 else 0.25), "t0": rng.choice([None, 0.0, 1.75])} for i in range(nb)]
            top = 12 if d == 2 else 7
            size = gridrun.long_size(rng, 4, d) if rng.random() < 0.06 else [rng.randint(4, top) for _ in range(d)]
            plans.append({"cfg": cfg, "size": size, "bodies": bodies, "seed": rng.randrange(10**9),
                          "ops": [gen_op(rng, cfg, nb) for _ in range(rng.choice([4, 8, 12, 16, 16, 60]))]})
        out.append({"core": g < c, "plans": plans})
    return out


class Body:
    pass


def execute(p, env, work):
    np = seams.np
    c, size, d = p["cfg"], tuple(p["size"]), p["cfg"]["dim"]
    T = np.float32 if c["real"] == "f4" else np.float64
    tol = TOL[c["real"]]
    dx = T(c["dx"])
    dxr = float(dx)
    vs = c["vs"]
    sr = float(T(dx / 2)) if c["off"] is None else float(T(c["dx"] * c["off"]))
    seams.build_mode(c["mode"], env.work)
    seams.dirty.seed(p["seed"])
    arena = seams.Arena(p["seed"])
    rng = np.random.default_rng(p["seed"])
    forcing = arena.array((d, *size), T, rng.uniform(-1, 1, (d, *size)))
    flow = arena.array((d, *size), T, vs * kernels.field(rng, (d, *size), "uniform"))
    env.sched.zero()
    log = core.Log()
    faults, probes, sigs, evals, lines = {}, {}, [], 0, 0

    def make(b, t0):
        kw = {}
        if c["off"] is not None:
            kw = {"eul_grid_coord_shift": T(c["dx"] * c["off"]), "interp_kernel_width": 2}
        if t0 is not None:
            kw["start_time"] = t0
        return env.cls(virtual_boundary_stiffness_coeff=T(b["k"]), virtual_boundary_damping_coeff=T(b["c"]), grid_dim=d, dx=dx,
                       num_lag_nodes=b["n"], real_t=T, enable_eul_grid_forcing_reset=b["reset"], num_threads=c["nt"], **kw)

    def count(k):
        faults[k] = faults.get(k, 0) + 1

    bodies = []
    for i, b in enumerate(p["bodies"]):
        B = Body()
        B.spec, B.f = b, make(b, b["t0"])
        B.pos = arena.array((d, b["n"]), T, ib.positions(rng, b["n"], size, dxr, sr, "uniform", T))
        B.vel = arena.array((d, b["n"]), T, vs * rng.uniform(-1, 1, (d, b["n"])))
        B.P, B.V, B.t = np.zeros((d, b["n"])), np.zeros((d, b["n"])), b["t0"] or 0.0
        B.scale, B.twin = vs, None
        bodies.append(B)

    def state(B, where, f=None):
        """The instance agrees with the model."""
        f = f or B.f
        ib.close(f.lag_grid_position_mismatch_field, B.P, tol, B.scale, "wrong-integral", f"{where}: position mismatch")
        ib.close(f.lag_grid_velocity_mismatch_field, B.V, tol, B.scale, "wrong-mismatch", f"{where}: velocity mismatch")
        if not abs(float(f.time) - B.t) <= 1e-6 * (1 + abs(B.t)):
            raise Violation("wrong-time", f"{where}: time is {float(f.time)!r}, expected {B.t!r}")

    def call(fn, op, where, back):
        nonlocal lines
        if op["at"] is not None:
            gridrun.set_sched(env, dict(op["sched"], pol="serial"))
            f2 = copy.copy(op)
            total, _, _, err = seams.lines(fn)
            if err:
                raise err
            back()
            gridrun.set_sched(env, op["sched"])
            _, fired, _, err = seams.lines(fn, f2["at"] * total // 1000, f2["exc"])
            if fired and err is None:
                raise Violation("swallowed-interrupt", f"{where}: an interrupt disappeared")
            if err is not None and not fired:
                raise err
            lines += total
            if fired:
                count(f2["exc"])
                return True
            back()
        gridrun.set_sched(env, op["sched"])
        fn()
        return False

    for m, op in enumerate(p["ops"]):
        bi = op["b"] % len(bodies)
        B = bodies[bi]
        b = B.spec
        r = np.random.default_rng(op["seed"])
        where = (f"{d}D {c['real']} grid {list(size)} threads {c['nt']}, step {m} {op['op']} of body {bi} "
                 f"({b['n']} nodes, {'resetting' if b['reset'] else 'accumulating'})")
        if op["op"] == "move":
            B.pos[...] = ib.positions(r, b["n"], size, dxr, sr, op["pos"], T)
            B.vel[...] = vs * r.uniform(-1, 1, B.vel.shape)
        elif op["op"] == "drift":
            B.pos[...] = ib.drift(r, B.pos, size, dxr, sr)
        elif op["op"] == "flow":
            flow[...] = kernels.related(r, flow, op["rel"]) if op["rel"] else vs * kernels.field(r, flow.shape, op["style"])
        elif op["op"] == "step":
            dt = T(op["dt"])
            newP = B.P + float(dt) * B.V
            targets = [B.f] + ([B.twin] if B.twin is not None else [])
            for f in targets:
                o = np.array(f.lag_grid_position_mismatch_field, float)
                t = f.time

                def back(f=f, o=o, t=t):
                    f.lag_grid_position_mismatch_field[...] = o
                    f.time = t

                if call(lambda f=f: f.time_step(dt=dt), op, where, back):
                    # every node is either where it was or fully advanced
                    now = np.array(f.lag_grid_position_mismatch_field, float)
                    okay = (np.abs(now - newP) <= tol * B.scale * 2) | (now == o)
                    if not okay.all():
                        raise Violation("torn-step", f"{where}: interrupted step left a mismatch neither old nor advanced")
                    back()
                    f.time_step(dt=dt)
            B.P = newP
            B.scale = max(B.scale, vs + float(np.max(np.abs(newP))), vs + float(np.max(np.abs(B.V))))
            B.t += float(dt)
            for f in targets:
                state(B, where, f)
            evals += 1
        elif op["op"] == "restart":
            # the process dies; a new one is built from what a checkpoint holds
            saved = np.array(B.f.lag_grid_position_mismatch_field)
            f = make(b, B.f.time)
            f.lag_grid_position_mismatch_field[...] = saved
            B.twin, B.f = B.f, f
            # the velocity mismatch is rebuilt from the flow by the next evaluation
            B.f.compute_interaction_force_on_lag_grid(flow, B.pos, B.vel)
            B.twin.compute_interaction_force_on_lag_grid(flow, B.pos, B.vel)
            w = ib.weights(np.array(B.pos, float), size, dxr, sr, "cosine")
            B.V = ib.gather(w, np.array(flow, float)) - np.array(B.vel, float)
            count("restart")
            state(B, where)
        else:
            full = op["op"] == "force"
            w = ib.weights(np.array(B.pos, float), size, dxr, sr, "cosine")
            U = ib.gather(w, np.array(flow, float))
            V = U - np.array(B.vel, float)
            F = float(T(b["k"])) * B.P + float(T(b["c"])) * V
            peak = vs + float(np.max(np.abs(flow)))
            fs = (abs(b["k"]) * B.scale + abs(b["c"]) * peak) + vs
            if full and b["reset"] and op["poison"]:
                forcing[...] = np.nan
                count("NaN left in the force field")
            before = np.array(forcing)
            held = [(a, a.tobytes()) for a in (flow, B.pos, B.vel)]

            def go(f=B.f):
                if full:
                    f.compute_interaction_forcing(forcing, flow, B.pos, B.vel) if r_pos else f.compute_interaction_forcing(
                        eul_grid_forcing_field=forcing, eul_grid_velocity_field=flow,
                        lag_grid_position_field=B.pos, lag_grid_velocity_field=B.vel)
                else:
                    f.compute_interaction_force_on_lag_grid(eul_grid_velocity_field=flow, lag_grid_position_field=B.pos,
                                                            lag_grid_velocity_field=B.vel)

            r_pos = op["seed"] % 2 == 0

            def back():
                forcing[...] = before

            if call(go, op, where, back):
                ib.close(B.f.lag_grid_position_mismatch_field, B.P, tol, B.scale, "wrong-integral",
                         f"{where}: position mismatch after an interrupted evaluation")
                if not (full and b["reset"]):      # a resetting evaluation needs no help
                    back()
                gridrun.set_sched(env, op["sched"])
                go()
            gridrun.judge_memory(env, arena, where)
            sigs.append(env.sched.sig())
            for a, h in held:
                if a.tobytes() != h:
                    raise Violation("input-modified", f"{where}: an input was modified")
            B.V = V
            B.scale = max(B.scale, peak + vs)
            state(B, where)
            ib.close(B.f.lag_grid_flow_velocity_field, U, tol, peak, "wrong-interpolation", f"{where}: flow velocity")
            ib.close(B.f.lag_grid_forcing_field, F, tol, fs, "wrong-force", f"{where}: node force")
            if full:
                add = ib.scatter(w, F, dxr)
                base = np.zeros_like(before, dtype=float) if b["reset"] else before.astype(float)
                sc = b["n"] * fs / dxr ** d + float(np.max(np.abs(base)))
                ib.close(forcing, base + add, tol, sc, "wrong-grid-force", f"{where}: grid force")
            elif forcing.tobytes() != before.tobytes():
                raise Violation("input-modified", f"{where}: grid force changed by a node-only evaluation")
            if B.twin is not None:
                mine = (B.f.lag_grid_forcing_field.tobytes(), forcing.tobytes())
                forcing[...] = before
                gridrun.set_sched(env, op["sched"])
                go(B.twin)
                if (B.twin.lag_grid_forcing_field.tobytes(), forcing.tobytes()) != mine:
                    raise Violation("restart-differs", f"{where}: the restarted body and the original disagree")
            evals += 1
            if float(np.max(np.abs(np.nan_to_num(forcing)))) > 1e6 * max(1, vs / dxr ** d):
                forcing[...] = 0
        for j, q in enumerate(bodies):        # nobody else moved
            if j != bi:
                state(q, f"{where}: body {j}")
        probes[op["op"]] = probes.get(op["op"], 0) + 1
        log(m, op["op"], bi, core.hash_array(forcing), core.hash_array(B.f.lag_grid_position_mismatch_field), sigs[-1:])
    st = env.sched.stats()
    if st["preemptions"]:
        faults["preemption"] = st["preemptions"]
    if st["capped"]:
        faults["team smaller than requested"] = st["capped"]
    return {"evals": evals, "stats": dict({k: st[k] for k in ("regions", "teams", "accesses")}, line_events=lines),
            "faults": faults, "probes": probes, "sigs": sigs, "digest": log.digest(), "nontrivial": evals > 1}


def shrink(p):
    ops = p["ops"]
    size = len(ops) // 2
    while size >= 1:
        for i in range(0, len(ops), size):
            if ops[:i] + ops[i + size:]:
                yield dict(p, ops=ops[:i] + ops[i + size:])
        size //= 2
    nb = len(p["bodies"])
    if nb > 1:
        for i in range(nb):
            keep = [b for j, b in enumerate(p["bodies"]) if j != i]
            left = [dict(o, b=(o["b"] % nb) - (o["b"] % nb > i)) for o in ops if o["b"] % nb != i]
            if left:
                yield dict(p, bodies=keep, ops=left)
    for i, b in enumerate(p["bodies"]):
        for ch in ({"n": 1}, {"k": 0.0}, {"c": 0.0}, {"reset": False}, {"t0": None}):
            if any(b[k] != v for k, v in ch.items()):
                yield dict(p, bodies=p["bodies"][:i] + [dict(b, **ch)] + p["bodies"][i + 1:])
    for i, o in enumerate(ops):
        for ch in ({"at": None}, {"poison": False}, {"rel": None}, {"pos": "uniform"}, {"style": "uniform"},
                   {"sched": dict(o["sched"], pol="serial", cap=0)}):
            if any(o[k] != v for k, v in ch.items()):
                yield dict(p, ops=ops[:i] + [dict(o, **ch)] + ops[i + 1:])
    for i, s in enumerate(p["size"]):
        if s > 4:
            z = list(p["size"])
            z[i] = s - 1
            yield dict(p, size=z)
    if p["cfg"]["nt"]:
        yield dict(p, cfg=dict(p["cfg"], nt=False))
