"""C12: interpolation and spreading are the two faces of one regularised delta sum,
independent of buffer contents, history and node order."""
from sim import core, gridrun, ib, kernels, seams
from sim.core import Violation

BUDGET = {"quick": 40, "thorough": 1200}
RULE = ("a run is a history of node placements, interpolations and spreadings by one or two communicators that "
        "share buffers, with buffers dirtied, nodes permuted, and steps interrupted at a seeded line and repeated in "
        "between; non-trivial: at least one interpolation or spreading was judged; distinct: by plan hash")
COMPONENTS = {"real": ["EulerianLagrangianGridCommunicator2D/3D and all their kernels"],
              "simulated": ["asynchronous exceptions", "array memory", "placement of work between instances"],
              "stub": ["numba (functions run as Python)"]}
ASSUMPTIONS = ["asynchronous exceptions surface between Python lines",
               "the whole support of every node lies inside the grid (documented limitation)"]
DETERMINISM = {"quick": 3, "thorough": 24}
TOL = {"f8": 1e-11, "f4": 2e-4}


class Env:
    def __init__(self, work):
        self.work = work
        import sopht.numeric.immersed_boundary_ops as m

        self.cls = {2: m.EulerianLagrangianGridCommunicator2D, 3: m.EulerianLagrangianGridCommunicator3D}


def gen_cfg(rng, i):
    d = 2 + i % 2
    real = ["f4", "f8"][(i // 2) % 2]
    return {"dim": d, "real": real, "nc": [1, d][(i // 4) % 2],
            "dx": round(10 ** rng.uniform(-2, 0.5), 5) * ib.gen_units(rng, real)[0], "off": rng.choice([0.5, 0.5, 0.0, 0.3, -1.7])}


def gen_op(rng, cfg):
    o = {"op": rng.choice(["place", "interp", "spread", "interp", "spread", "both"]), "seed": rng.randrange(10**9),
         "who": rng.randrange(2), "pos": rng.choice(ib.POS_STYLES), "style": rng.choice(kernels.STYLES),
         "zero": rng.random() < 0.3, "perm": rng.random() < 0.25, "poison": rng.random() < 0.4, "at": None}
    if rng.random() < 0.3:
        o["at"], o["exc"] = rng.randrange(1000), rng.choice(["interrupt", "memory"])
    return o


def groups(seed, tier):
    out = []
    n, c = (400, 24) if tier == "quick" else (8000, 100)
    for g in range(n):
        rng = core.rng_for(seed, "C12", g)
        cfg = gen_cfg(rng, g)
        plans = []
        for _ in range(10):
            top = 14 if cfg["dim"] == 2 else 8
            plans.append({"cfg": cfg, "size": [rng.randint(4, top) for _ in range(cfg["dim"])] if rng.random() < 0.94 else gridrun.long_size(rng, 4, cfg["dim"]),
                          "n": rng.choice([1, 1, 2, 3, 5, 8, cfg["dim"], rng.randint(9, 130)]), "seed": rng.randrange(10**9),
                          "kinds": [rng.choice(["cosine", "peskin"]) for _ in range(2)],
                          "pad": rng.random() < 0.3, "contig": rng.random() < 0.7,
                          "ops": [gen_op(rng, cfg) for _ in range(rng.choice([2, 3, 5, 8, 8, 16]))]})
        out.append({"core": g < c, "plans": plans})
    return out


def execute(p, env, work):
    np = seams.np
    c, size, n, d = p["cfg"], tuple(p["size"]), p["n"], p["cfg"]["dim"]
    T = np.float32 if c["real"] == "f4" else np.float64
    tol = TOL[c["real"]]
    dx, shift = T(c["dx"]), T(c["dx"] * c["off"])
    dxr, sr = float(dx), float(shift)
    arena = seams.Arena(p["seed"])
    rng = np.random.default_rng(p["seed"])
    seams.dirty.seed(p["seed"])
    vec = c["nc"] > 1
    comm = [env.cls[d](dx=dx, eul_grid_coord_shift=shift, num_lag_nodes=n, interp_kernel_width=2, real_t=T,
                       n_components=c["nc"], interp_kernel_type=k) for k in p["kinds"]]
    sup = arena.array((d,) + (4,) * d + (n,), T)
    wts = arena.array((4,) * d + (n,), T)
    near = arena.array((d, n), int)
    eshape = (c["nc"], *size) if vec else size
    lshape = (c["nc"], n) if vec else (n,)
    pad = ([0] * vec + [rng.integers(0, 3) for _ in size]) if p["pad"] else None
    eul = arena.array(eshape, T, pad=pad)
    acc = arena.array(eshape, T, pad=pad)
    lag = arena.array(lshape, T)
    out = arena.array(lshape, T)
    pos = arena.array((d, n), T)
    placed = None                    # (instance, kind) whose weights are in the buffers
    log = core.Log()
    faults, probes, evals, lines = {}, {}, 0, 0
    where0 = f"{d}D {c['real']} grid {list(size)} nodes {n} dx {c['dx']} offset {c['off']} components {c['nc']}"

    def run(fn, reset, op, what):
        """Run fn, possibly interrupted first; after an interrupt the caller restores its
        inputs and repeats the step."""
        nonlocal lines
        if op["at"] is not None:
            total, _, _, err = seams.lines(fn)
            if err:
                raise err
            reset()
            _, fired, _, err = seams.lines(fn, op["at"] * total // 1000, op["exc"])
            if fired and err is None:
                raise Violation("swallowed-interrupt", f"{what}: an interrupt disappeared")
            if err is not None and not fired:
                raise err
            if fired:
                faults[op["exc"]] = faults.get(op["exc"], 0) + 1
            lines += total
            reset()
        fn()
        if not arena.intact():
            raise Violation("out-of-bounds", f"{what}: memory outside the arrays was written")

    def poison():
        for a in (sup, wts, out):
            a[...] = np.nan
        near[...] = -7
        faults["dirty buffers"] = faults.get("dirty buffers", 0) + 1

    def place(i, op):
        nonlocal placed, evals
        kind = p["kinds"][i]
        where = f"{where0} {kind}, nodes placed '{op['pos']}'"
        r = np.random.default_rng(op["seed"])
        if placed and op["seed"] % 4 == 0:
            q = ib.drift(r, pos, size, dxr, sr)
        elif op["perm"]:
            q = pos[:, r.permutation(n)] if placed else ib.positions(r, n, size, dxr, sr, op["pos"], T)
        else:
            q = ib.positions(r, n, size, dxr, sr, op["pos"], T)
        pos[...] = q
        arg = pos if p["contig"] else np.asfortranarray(pos)
        if op["poison"]:
            poison()

        def step():
            comm[i].local_eulerian_grid_support_of_lagrangian_grid_kernel(
                local_eul_grid_support_of_lag_grid=sup, nearest_eul_grid_index_to_lag_grid=near, lag_positions=arg)
            comm[i].interpolation_weights_kernel(interp_weights=wts, local_eul_grid_support_of_lag_grid=sup)

        run(step, poison if op["poison"] else lambda: None, op, where)
        if pos.tobytes() != np.ascontiguousarray(q).tobytes() or np.ascontiguousarray(arg).tobytes() != pos.tobytes():
            raise Violation("input-modified", f"{where}: node positions were modified")
        w = ib.weights(np.array(pos, float), size, dxr, sr, kind)
        cells = (np.array(pos, float) - sr) / dxr
        eps = 1e-9 if c["real"] == "f8" else 1e-3
        bad = ~((near <= cells + eps) & (cells < near + 1 + eps))
        if bad.any():
            k, j = (int(x[0]) for x in np.nonzero(bad))
            raise Violation("wrong-cell", f"{where}: node at cell coordinate {cells[k, j]} is given cell {int(near[k, j])}")
        # the local weights, laid out on the grid, are the delta function
        full = np.zeros((n, *size))
        for j in range(n):
            sl = tuple(slice(int(near[d - 1 - k, j]) - 1, int(near[d - 1 - k, j]) + 3) for k in range(d))
            full[(j, *sl)] = wts[..., j]
        ib.close(full * dxr ** d, w, tol, 1.0, "wrong-weights", f"{where}: weight")
        s = full.reshape(n, -1).sum(1) * dxr ** d
        ib.close(s, np.ones(n), tol, 1.0, "not-conservative", f"{where}: sum of weights")
        placed = (i, w)
        evals += 1

    for m, op in enumerate(p["ops"]):
        if placed is None or op["op"] == "place" or placed[0] != op["who"]:
            place(op["who"], op)
        i, w = placed
        where = f"{where0} {p['kinds'][i]}, step {m} {op['op']}"
        r = np.random.default_rng(op["seed"] + 1)
        keep = (wts.tobytes(), near.tobytes())
        if op["op"] in ("interp", "both"):
            eul[...] = 0.7 if op["zero"] else kernels.field(r, eshape, op["style"])
            e0 = eul.tobytes()
            if op["poison"]:
                out[...] = np.nan
            run(lambda: comm[i].eulerian_to_lagrangian_grid_interpolation_kernel(
                lag_grid_field=out, eul_grid_field=eul, interp_weights=wts, nearest_eul_grid_index_to_lag_grid=near),
                lambda: out.fill(np.nan), op, where)
            if eul.tobytes() != e0:
                raise Violation("input-modified", f"{where}: the Eulerian field was modified")
            sc = 1 + float(np.max(np.abs(eul)))
            ib.close(out, ib.gather(w, np.array(eul, float)), tol, sc, "wrong-interpolation", f"{where}: node value")
            if op["zero"]:
                ib.close(out, np.full(lshape, float(T(0.7))), tol, 2.0, "constant-not-kept", f"{where}: node value of a constant")
            evals += 1
            log(m, "i", core.hash_array(out))
        if op["op"] in ("spread", "both"):
            lag[...] = kernels.field(r, lshape, "uniform")
            if op["zero"]:
                acc[...] = 0
            a0 = np.array(acc)
            l0 = lag.tobytes()

            def back():
                acc[...] = a0

            run(lambda: comm[i].lagrangian_to_eulerian_grid_interpolation_kernel(
                eul_grid_field=acc, lag_grid_field=lag, interp_weights=wts, nearest_eul_grid_index_to_lag_grid=near),
                back, op, where)
            if lag.tobytes() != l0:
                raise Violation("input-modified", f"{where}: the Lagrangian field was modified")
            add = ib.scatter(w, np.array(lag, float), dxr)
            peak = max(float(np.max(np.abs(a0))), n * float(np.max(np.abs(lag))) / dxr ** d)
            ib.close(np.array(acc, float), a0.astype(float) + add, tol, peak + 1e-30, "wrong-spreading", f"{where}: grid value")
            ax = tuple(range(acc.ndim - d, acc.ndim))
            tot = (np.array(acc, float) - a0).sum(ax) * dxr ** d
            ib.close(np.atleast_1d(tot), np.atleast_1d(np.array(lag, float).sum(-1)), tol * 20,
                     1e-30 + peak * dxr ** d * acc[0].size, "not-conservative", f"{where}: total")
            if op["op"] == "both":
                g = (np.array(acc, float) - a0)
                one = float((g * np.array(eul, float)).sum() * dxr ** d)
                two = float((np.array(lag, float) * np.array(out, float)).sum())
                sc = (1e-30 + peak * dxr ** d * acc.size) * (1 + float(np.max(np.abs(eul))))
                if not abs(one - two) <= tol * 20 * sc:
                    raise Violation("not-adjoint", f"{where}: power on the grid {one!r}, at the nodes {two!r}")
            evals += 1
            log(m, "s", core.hash_array(acc))
            if np.max(np.abs(acc)) > 1e6 * max(1, dxr ** -d):
                acc[...] = 0
        if (wts.tobytes(), near.tobytes()) != keep:
            raise Violation("input-modified", f"{where}: weights or cells were modified")
        probes[op["op"]] = probes.get(op["op"], 0) + 1
        log(m, op["op"], i)
    return {"evals": evals, "stats": {"line_events": lines}, "faults": faults, "probes": probes, "sigs": [],
            "digest": log.digest(), "nontrivial": evals > 0}


def shrink(p):
    ops = p["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(p, ops=ops[:i] + ops[i + 1:])
    if p["n"] > 1:
        yield dict(p, n=1)
        yield dict(p, n=p["n"] - 1)
    if p["pad"]:
        yield dict(p, pad=False)
    if not p["contig"]:
        yield dict(p, contig=True)
    for i, o in enumerate(ops):
        for ch in ({"at": None}, {"poison": False}, {"perm": False}, {"pos": "uniform"}, {"style": "uniform"}, {"zero": False}, {"who": 0}):
            if any(o[k] != v for k, v in ch.items()):
                yield dict(p, ops=ops[:i] + [dict(o, **ch)] + ops[i + 1:])
    for i, s in enumerate(p["size"]):
        if s > 4:
            z = list(p["size"])
            z[i] = s - 1
            yield dict(p, size=z)
