"""C09: the unbounded Poisson solvers return the free-space Green's function sum of the
current right-hand side, whatever was solved, interrupted or left in memory before."""
from sim import core, gridrun, kernels, seams
from sim.core import Violation

BUDGET = {"quick": 45, "thorough": 1500}
RULE = ("a run is a history of scalar, vector, in-place and interrupted solves by one or two solver instances (and forward/"
        "backward transforms) under seeded schedules of the kernel and FFTW teams, with dirty allocations; "
        "non-trivial: at least one solve was judged against the direct sum; distinct: by plan hash")
COMPONENTS = {"real": ["UnboundedPoissonSolverPYFFTW2D/3D, FFTPyFFTW2D/3D, scipy FFT kernels, FFTW, elementwise kernels"],
              "simulated": ["OpenMP runtime and threads (kernels and FFTW)", "FFTW planning clock", "asynchronous exceptions",
                            "array memory"], "stub": []}
ASSUMPTIONS = ["FFTW itself is not instrumented for races: only the order of its work is simulated",
               "asynchronous exceptions surface between Python lines"]
DETERMINISM = {"quick": 3, "thorough": 24}
TOL = {"f8": 2e-12, "f4": 4e-4}


class Env(gridrun.Env):
    def __init__(self, work):
        super().__init__(work)
        import sopht.numeric.eulerian_grid_ops as m

        self.m = m
        self.green = {}

    def matrix(self, size, dx):
        """Dense Green's matrix times dx**dim."""
        np = seams.np
        key = (tuple(size), dx)
        if key not in self.green:
            if len(self.green) > 3:
                self.green.clear()
            d = len(size)
            pts = np.stack(np.meshgrid(*[np.arange(n) * dx for n in size], indexing="ij"), -1).reshape(-1, d)
            r = np.sqrt(((pts[:, None, :] - pts[None, :, :]) ** 2).sum(-1))
            with np.errstate(divide="ignore"):
                g = -np.log(r) / (2 * np.pi) if d == 2 else 1 / (4 * np.pi * r)
            i = np.arange(len(pts))
            g[i, i] = -(2 * np.log(dx / np.sqrt(np.pi)) - 1) / (4 * np.pi) if d == 2 else 1 / (4 * np.pi * dx)
            self.green[key] = g * dx ** d
        return self.green[key]


def end_group(env):
    env.cache.clear()
    env.green.clear()


def gen_op(rng, cfg):
    o = {"op": rng.choice(["solve", "solve", "solve", "inplace", "vector" if cfg["dim"] == 3 else "solve", "fft", "raw"]),
         "who": rng.randrange(2), "seed": rng.randrange(10**9), "style": rng.choice(kernels.STYLES),
         "sched": gridrun.gen_sched(rng, cfg["mode"]), "mag": rng.choice([1, 1, 1e3, 1e-3]),
         "pad": rng.random() < 0.3, "reuse": rng.random() < 0.4, "rel": rng.choice(kernels.RELATED), "at": None}
    if rng.random() < 0.35:
        o["at"], o["exc"] = rng.randrange(1000), rng.choice(["interrupt", "memory"])
    return o


def groups(seed, tier):
    out = []
    n, c = (160, 24) if tier == "quick" else (5000, 100)
    for g in range(n):
        rng = core.rng_for(seed, "C09", g)
        d = 2 + g % 2
        cfg = {"dim": d, "real": ["f4", "f8"][(g // 2) % 2], "nt": rng.choice([1, 1, 2, 3, 4, 8]), "mode": rng.choice(["fine", "coarse"])}
        top = (20 if d == 2 else 7) if cfg["mode"] == "fine" else (28 if d == 2 else 9)
        inst = []
        for _ in range(2):
            size = [rng.randint(2, top) if rng.random() < 0.8 else rng.choice([1, 2, 3]) for _ in range(d)]
            if rng.random() < 0.08:
                size = [rng.randint(2, 4) for _ in range(d)]
                size[rng.randrange(d)] = rng.randint(24, 130 if d == 2 else 50)
            inst.append({"size": size, "x_range": rng.choice([1.0, 1.0, 2.0, 0.37, 7.3, 1e-5, 1e4])})
        plans = []
        for _ in range(6):
            plans.append({"cfg": cfg, "inst": inst, "seed": rng.randrange(10**9),
                          "ops": [gen_op(rng, cfg) for _ in range(rng.choice([2, 3, 5, 7, 7, 14]))]})
        out.append({"core": g < c, "plans": plans})
    return out


def execute(p, env, work):
    np = seams.np
    c, d = p["cfg"], p["cfg"]["dim"]
    T = np.float32 if c["real"] == "f4" else np.float64
    C = np.complex64 if c["real"] == "f4" else np.complex128
    tol = TOL[c["real"]]
    seams.build_mode(c["mode"], env.work)
    seams.dirty.seed(p["seed"])
    arena = seams.Arena(p["seed"])
    env.sched.zero()
    gridrun.set_sched(env, {"sseed": p["seed"], "pol": "serial", "den": 16, "cap": 0})
    names = ["grid_size_z", "grid_size_y", "grid_size_x"][3 - d:]
    solver, scipy_fft = (env.m.UnboundedPoissonSolverPYFFTW2D, env.m.fft_ifft_via_scipy_kernel_2d) if d == 2 else (
        env.m.UnboundedPoissonSolverPYFFTW3D, env.m.fft_ifft_via_scipy_kernel_3d)
    ffts = env.m.FFTPyFFTW2D if d == 2 else env.m.FFTPyFFTW3D
    # instances live as long as the group: their history spans its runs
    S, F = env.cache.setdefault(core.canon([c, p["inst"]]), ({}, {}))
    log = core.Log()
    last, before = {}, {}
    faults, probes, sigs, evals, lines = {}, {}, [], 0, 0
    import pyfftw

    for m, op in enumerate(p["ops"]):
        k = op["who"]
        I = p["inst"][k]
        size = tuple(I["size"])
        if op["op"] in ("fft", "raw"):
            size = size[:-1] + (max(2, size[-1]),)
        sizes = dict(zip(names, size))
        where = f"{d}D {c['real']} grid {list(size)} range {I['x_range']} threads {c['nt']} {c['mode']}, step {m} {op['op']}"
        r = np.random.default_rng(op["seed"])
        gridrun.set_sched(env, op["sched"])
        probes[op["op"]] = probes.get(op["op"], 0) + 1
        if op["op"] in ("fft", "raw"):
            if k not in F:
                F[k] = ffts(num_threads=c["nt"], real_t=T, **sizes)
            f = F[k]
            field = pyfftw.empty_aligned(size, T)
            inv = pyfftw.empty_aligned(size, T)
            four = pyfftw.empty_aligned(size[:-1] + (size[-1] // 2 + 1,), C)
            field[...] = kernels.field(r, size, op["style"]) * op["mag"]
            inv[...] = np.nan
            four[...] = np.nan
            h = field.tobytes()
            sc = 1e-30 + float(np.abs(field).sum())
            exp = np.fft.rfftn(np.array(field, float))
            if op["op"] == "raw":
                f.fft_plan(input_array=field, output_array=four)
                if not np.abs(four - exp).max() <= tol * sc:
                    raise Violation("wrong-transform", f"{where}: forward transform is off by {np.abs(four - exp).max():.3g}")
                f.ifft_plan(input_array=four.copy(), output_array=inv)
                g, i2 = np.full_like(four, np.nan), np.full_like(inv, np.nan)
                scipy_fft(fourier_field=g, inv_fourier_field=i2, field=field, num_threads=1)
                if not (np.abs(g - exp).max() <= tol * sc and np.abs(i2 - field).max() <= tol * sc):
                    raise Violation("wrong-transform", f"{where}: reference transforms are off")
            else:
                f.fft_ifft_plan_kernel(fourier_field=four, inv_fourier_field=inv, field=field)
            if field.tobytes() != h:
                raise Violation("input-modified", f"{where}: the field was modified")
            if not np.abs(inv - field).max() <= tol * sc:
                raise Violation("wrong-transform", f"{where}: round trip is off by {np.abs(inv - field).max():.3g}")
            log(m, op["op"], core.hash_array(inv))
            sigs.append(env.sched.sig())
            evals += 1
            continue
        if k not in S:
            S[k] = solver(x_range=I["x_range"], num_threads=c["nt"], real_t=T, **sizes)
            gridrun.set_sched(env, op["sched"])
        s = S[k]
        vec = op["op"] == "vector"
        shape = (3, *size) if vec else size
        pad = ([0] * vec + [int(x) for x in r.integers(0, 3, d)]) if op["pad"] else None
        b0 = kernels.field(r, shape, op["style"]) * op["mag"]
        if op["rel"] and (k, shape) in before:
            b0 = kernels.related(r, before[k, shape], op["rel"])
        before[k, shape] = b0
        key = (k, shape, op["op"] == "inplace")
        if op["reuse"] and key in last:      # the caller's arrays of an earlier solve, with new sources
            rhs, sol = last[key]
            rhs[...] = b0
        else:
            rhs = arena.array(shape, T, b0, pad=pad)
            sol = rhs if op["op"] == "inplace" else arena.array(shape, T, np.full(shape, np.nan))
            last[key] = rhs, sol
        data = np.array(rhs)
        go = (lambda: s.vector_field_solve(solution_vector_field=sol, rhs_vector_field=rhs)) if vec else (
            lambda: s.solve(solution_field=sol, rhs_field=rhs))
        if op["at"] is not None:
            gridrun.set_sched(env, dict(op["sched"], pol="serial"))
            total, _, _, err = seams.lines(go)
            if err:
                raise err
            rhs[...] = data
            gridrun.set_sched(env, op["sched"])
            _, fired, _, err = seams.lines(go, op["at"] * total // 1000, op["exc"])
            if fired and err is None:
                raise Violation("swallowed-interrupt", f"{where}: an interrupt disappeared")
            if err is not None and not fired:
                raise err
            lines += total
            if fired:
                faults[op["exc"]] = faults.get(op["exc"], 0) + 1
                # most of the time the caller gives up and goes on with something else
                if op["seed"] % 3:
                    gridrun.judge_memory(env, arena, where)
                    log(m, "interrupted")
                    continue
            rhs[...] = data
        go()
        gridrun.judge_memory(env, arena, where)
        sigs.append(env.sched.sig())
        if sol is not rhs and rhs.tobytes() != data.tobytes():
            raise Violation("input-modified", f"{where}: the right-hand side was modified")
        dx = float(T(I["x_range"] / size[-1]))
        G = env.matrix(size, dx)
        aG = float(np.abs(G).max())
        for j in range(3 if vec else 1):
            b = (data[j] if vec else data).astype(float).reshape(-1)
            x = np.array(sol[j] if vec else sol, float).reshape(-1)
            e = G.dot(b)
            sc = 1e-30 + max(aG * float(np.abs(b).max()), float(np.abs(G).dot(np.abs(b)).max()))
            bad = ~(np.abs(x - e) <= tol * sc)
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                raise Violation("wrong-solution", f"{where}: component {j} point {[int(q) for q in np.unravel_index(i, size)]}: "
                                                  f"{x[i]!r}, expected {e[i]!r}")
        evals += 1
        log(m, op["op"], core.hash_array(sol), sigs[-1])
    st = env.sched.stats()
    if st["preemptions"]:
        faults["preemption"] = st["preemptions"]
    if st["capped"]:
        faults["team smaller than requested"] = st["capped"]
    return {"evals": evals, "stats": dict({k: st[k] for k in ("regions", "teams", "accesses")}, line_events=lines),
            "faults": faults, "probes": probes, "sigs": sigs, "digest": log.digest(), "nontrivial": evals > 0}


def shrink(p):
    ops = p["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(p, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        for ch in ({"at": None}, {"pad": False}, {"reuse": False}, {"rel": None}, {"mag": 1}, {"style": "uniform"}, {"who": 0},
                   {"sched": dict(o["sched"], pol="serial", cap=0)}):
            if any(o[k] != v for k, v in ch.items()):
                yield dict(p, ops=ops[:i] + [dict(o, **ch)] + ops[i + 1:])
        if o["op"] in ("vector", "inplace"):
            yield dict(p, ops=ops[:i] + [dict(o, op="solve")] + ops[i + 1:])
    for k in (0, 1):
        I = p["inst"][k]
        for i, n in enumerate(I["size"]):
            for v in (2, n // 2, n - 1):
                if 1 <= v < n:
                    z = list(I["size"])
                    z[i] = v
                    yield dict(p, inst=[dict(I, size=z) if q == k else p["inst"][q] for q in (0, 1)])
        if I["x_range"] != 1.0:
            yield dict(p, inst=[dict(I, x_range=1.0) if q == k else p["inst"][q] for q in (0, 1)])
    if p["cfg"]["nt"] > 1:
        yield dict(p, cfg=dict(p["cfg"], nt=1))
