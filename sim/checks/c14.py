"""C14: independently constructed objects stay independent when several threads of the
caller use them in any interleaving, or one of them is interrupted."""
import os

from sim import core, gridrun, ib, iocase, kernels, seams
from sim.core import Violation

BUDGET = {"quick": 45, "thorough": 1500}
RULE = ("a run constructs two to four solvers, forcings, communicators, kernels or checkpoint writers (most of them twins that "
        "differ in nothing or one parameter), lets one caller thread per object work through several rounds under seeded "
        "line-by-line interleavings, with some threads interrupted, and compares every array and file with a pristine process "
        "in which only that object exists; non-trivial: threads were switched inside library code; distinct: by switch sequence")
COMPONENTS = {"real": ["Poisson solvers, FFT wrappers, forcings, communicators, grid kernels, IO, h5py, libhdf5, FFTW"],
              "simulated": ["caller threads (real threads, one at a time, switched by a seeded scheduler at source lines)",
                            "OpenMP runtime and threads", "asynchronous exceptions", "array memory", "processes"],
              "stub": ["numba (functions run as Python)"]}
ASSUMPTIONS = ["threads switch between Python lines of the library, not inside native code",
               "values are compared to rounding, files and checkpoints exactly"]
DETERMINISM = {"quick": 3, "thorough": 24}
TOL = {"f8": 1e-11, "f4": 1e-4}
KINDS = ["poisson", "poisson", "vbf", "vbf", "fastdiag", "fft", "brink", "comm", "kernel", "kernel", "io", "io"]
# kernels that are closures over buffers or over other kernels
KNAMES = ["advection_step_3d", "diffusion_step_2d", "diffusion_step_3d", "penalise_boundary_2d", "penalise_boundary_3d",
          "stretching_step_3d", "stretching_ssprk3_3d", "laplacian_filter_3d", "laplacian_filter_3d", "vorticity_from_penalised_3d",
          "set_boundary_2d", "diffusion_flux_3d", "curl_3d", "char_func_2d", "set_fixed_3d", "advection_step_2d"]


class Env(gridrun.Env):
    def __init__(self, work):
        super().__init__(work)
        iocase.Env(work)


def gen_job(rng, kind, fine, names=KNAMES):
    d = rng.choice([2, 3])
    real = rng.choice(["f4", "f8"])
    top = 10 if d == 2 else 6
    j = {"kind": kind, "dim": d, "real": real, "size": [rng.randint(4, top) for _ in range(d)], "nt": rng.choice([1, 2, 3, False])}
    if kind == "poisson":
        j["x"], j["nt"] = rng.choice([1.0, 2.0, 0.37]), int(j["nt"]) or 1
    elif kind == "fastdiag":
        j["dx"] = rng.choice([1.0, 0.37])
    elif kind == "fft":
        j["nt"] = int(j["nt"]) or 1
    elif kind in ("vbf", "brink", "comm"):
        j.update(dx=rng.choice([0.1, 0.5]), n=rng.choice([1, 2, 3, 5]), k=rng.choice([-4.0, -0.5]), c=rng.choice([-1.0, -0.2]),
                 reset=rng.random() < 0.4)
        if kind == "comm":
            j.update(nc=rng.choice([1, d]), ker=rng.choice(["cosine", "peskin"]))
    elif kind == "kernel":
        name = rng.choice(names)
        s = kernels.CAT[name]
        o = rng.choice(kernels.option_sets(s))
        j.update(k=name, opts=o, dim=s["dim"], dx=rng.choice([0.1, 0.5]))
        lo = kernels.min_size(s, o)
        j["size"] = [lo + rng.randint(0, 4) for _ in range(s["dim"])]
        j["fixed"] = rng.random() < 0.3 and s["fixed"] is not None
    elif kind == "io":
        j["cfg"] = iocase.gen_cfg(rng, small=True)
        j["file"] = rng.choice(["a.h5", "b.h5", "run.h5"])
    return j


def twin(rng, j):
    """The same object again, or one that differs in one parameter."""
    j = dict(j)
    keys = [k for k in ("x", "dx", "real", "nt", "k2", "c", "size", "n", "reset", "ker", "file", "opts") if k in j]
    if rng.random() < 0.5 and keys:
        k = rng.choice(keys)
        if k in ("x", "dx"):
            j[k] = j[k] * 2
        elif k == "real":
            j[k] = "f8" if j[k] == "f4" else "f4"
        elif k == "size":
            z = list(j[k])
            i = rng.randrange(len(z))
            z[i] += 1
            j[k] = z
        elif k == "nt":
            j[k] = 2 if j[k] != 2 else 1
        elif k == "n":
            j[k] += 1
        elif k == "c":
            j[k] = j[k] * 3
        elif k == "reset":
            j[k] = not j[k]
        elif k == "ker":
            j[k] = "peskin" if j[k] == "cosine" else "cosine"
        elif k == "file":
            j[k] = "other.h5"
        elif k == "opts":
            o = rng.choice(kernels.option_sets(kernels.CAT[j["k"]]))
            lo = kernels.min_size(kernels.CAT[j["k"]], o)
            j[k], j["size"] = o, [max(lo, s) for s in j["size"]]
    return j


def groups(seed, tier):
    out = []
    n, c = (200, 24) if tier == "quick" else (6000, 120)
    for g in range(n):
        rng = core.rng_for(seed, "C14", g)
        mode = rng.choice(["fine", "coarse", "coarse"])
        kind = KINDS[(g * 5) % len(KINDS)]
        base = gen_job(rng, kind, mode == "fine")
        plans = []
        for _ in range(2):
            jobs = [base, twin(rng, base)]
            while rng.random() < 0.35 and len(jobs) < 4:
                jobs.append(twin(rng, base) if rng.random() < 0.5 else gen_job(rng, rng.choice(["vbf", "io", "fastdiag", "comm", "fft"]), False))
            rounds = []
            for _ in range(rng.choice([4, 6, 8])):
                r = {"seed": rng.randrange(10**9), "den": rng.choice([1, 1, 2, 4, 12]), "ops": [rng.choice([1, 1, 2, 3]) for _ in jobs],
                     "sched": gridrun.gen_sched(rng, mode), "inject": {}}
                if rng.random() < 0.3:
                    r["inject"][str(rng.randrange(len(jobs)))] = [rng.choice([1, 2, 3, 5, 8, 13, 20, 40, 80]), rng.choice(["interrupt", "memory"])]
                rounds.append(r)
            # some objects come into being after the others have worked for a while
            start = [0] + [rng.choice([0, 0, 1, 2, len(rounds) - 1]) for _ in jobs[1:]]
            plans.append({"mode": mode, "jobs": jobs, "rounds": rounds, "start": start, "seed": rng.randrange(10**9), "late": rng.random() < 0.5,
                          "rev": rng.random() < 0.3})
        out.append({"core": g < c, "plans": plans})
    return out


class Job:
    """One independent user of the library."""

    def __init__(self, j, idx, root):
        np = seams.np
        self.j, self.idx = j, idx
        self.T = np.float32 if j["real"] == "f4" else np.float64
        self.dir = os.path.join(root, f"job{idx}")
        os.makedirs(self.dir, exist_ok=True)
        self.obj = self.bufs = None

    def build(self):
        np = seams.np
        j, d, T = self.j, self.j["dim"], self.T
        import sopht.numeric.eulerian_grid_ops as e
        import sopht.numeric.immersed_boundary_ops as m

        sizes = dict(zip(["grid_size_z", "grid_size_y", "grid_size_x"][3 - d:], j["size"]))
        if j["kind"] == "poisson":
            cls = e.UnboundedPoissonSolverPYFFTW2D if d == 2 else e.UnboundedPoissonSolverPYFFTW3D
            self.obj = cls(x_range=j["x"], num_threads=j["nt"], real_t=T, **sizes)
        elif j["kind"] == "fastdiag":
            cls = e.FastDiagPoissonSolver2D if d == 2 else e.FastDiagPoissonSolver3D
            self.obj = cls(dx=T(j["dx"]), real_t=T, **sizes)
        elif j["kind"] == "fft":
            self.obj = (e.FFTPyFFTW2D if d == 2 else e.FFTPyFFTW3D)(num_threads=j["nt"], real_t=T, **sizes)
        elif j["kind"] == "vbf":
            self.obj = m.VirtualBoundaryForcing(virtual_boundary_stiffness_coeff=T(j["k"]), virtual_boundary_damping_coeff=T(j["c"]),
                                                grid_dim=d, dx=T(j["dx"]), num_lag_nodes=j["n"], real_t=T,
                                                enable_eul_grid_forcing_reset=j["reset"], num_threads=j["nt"])
            self.eul = np.zeros((d, *j["size"]), T)
        elif j["kind"] == "brink":
            self.obj = m.BrinkmannBoundaryForcing(brinkmann_coeff=T(-j["k"]), grid_dim=d, dx=T(j["dx"]), eul_grid_coord_shift=T(j["dx"] / 2),
                                                  num_lag_nodes=j["n"], interp_kernel_width=2, real_t=T,
                                                  enable_eul_grid_flux_reset=j["reset"], num_threads=j["nt"])
        elif j["kind"] == "comm":
            cls = m.EulerianLagrangianGridCommunicator2D if d == 2 else m.EulerianLagrangianGridCommunicator3D
            self.obj = cls(dx=T(j["dx"]), eul_grid_coord_shift=T(j["dx"] / 2), num_lag_nodes=j["n"], interp_kernel_width=2, real_t=T,
                           n_components=j["nc"], interp_kernel_type=j["ker"])
        elif j["kind"] == "kernel":
            s, o = kernels.CAT[j["k"]], j["opts"]
            extra = {}
            if s.get("stateful") == "filter":
                extra = {"filter_flux_buffer": np.empty(j["size"], T), "field_buffer": np.empty(j["size"], T)}
            elif s.get("stateful") == "ssprk3":
                extra = {"midstep_buffer_vector_field": np.empty((3, *j["size"]), T)}
            elif s.get("stateful") == "penalise":
                ax = [np.array(j["dx"] * (np.arange(j["size"][d - 1 - i]) + 0.5), T) for i in range(d)]
                mesh = [np.ascontiguousarray(g) for g in np.meshgrid(*ax[::-1], indexing="ij")][::-1]
                extra = dict({f"{n}_grid_field": mesh[i] for i, n in enumerate("xyz"[:d])}, dx=T(j["dx"]))
            self.obj = kernels.generate(s, o, j["real"], j["nt"], j["size"] if j["fixed"] else None, extra)
        else:
            self.obj = iocase.World(j["cfg"], 1)

    def act(self, r, n, out):
        """One round of work; appends (label, value) to out."""
        np = seams.np
        j, d, T = self.j, self.j["dim"], self.T
        size = tuple(j["size"])
        k = j["kind"]
        if self.obj is None:
            self.build()
        o = self.obj
        for step in range(n):
            g = np.random.default_rng([r["seed"], self.idx, step])
            if k in ("poisson", "fastdiag"):
                vec = d == 3 and step % 2 == 1
                shape = (3, *size) if vec else size
                b = g.uniform(-1, 1, shape).astype(T)
                x = np.full(shape, np.nan, T)
                if vec:
                    o.vector_field_solve(solution_vector_field=x, rhs_vector_field=b)
                else:
                    o.solve(solution_field=x, rhs_field=b)
                out.append(("solution", x))
                out.append(("right-hand side", b))
            elif k == "fft":
                import pyfftw

                if self.bufs is None:       # (under PyPy aligned arrays are never freed)
                    self.bufs = [pyfftw.empty_aligned(size, T), pyfftw.empty_aligned(size, T),
                                 pyfftw.empty_aligned(size[:-1] + (size[-1] // 2 + 1,), np.complex64 if T is np.float32 else np.complex128)]
                f, inv, four = self.bufs
                f[...] = g.uniform(-1, 1, size)
                o.fft_ifft_plan_kernel(fourier_field=four, inv_fourier_field=inv, field=f)
                out.append(("round trip", np.array(inv)))
            elif k in ("vbf", "brink", "comm"):
                pos = ib.positions(g, j["n"], size, float(T(j["dx"])), float(T(j["dx"] / 2)), "uniform", T)
                if k == "comm":
                    sup = np.full((d,) + (4,) * d + (j["n"],), np.nan, T)
                    w = np.full((4,) * d + (j["n"],), np.nan, T)
                    near = np.full((d, j["n"]), -9)
                    o.local_eulerian_grid_support_of_lagrangian_grid_kernel(
                        local_eul_grid_support_of_lag_grid=sup, nearest_eul_grid_index_to_lag_grid=near, lag_positions=pos)
                    o.interpolation_weights_kernel(interp_weights=w, local_eul_grid_support_of_lag_grid=sup)
                    lead = (j["nc"],) if j["nc"] > 1 else ()
                    f, lag = g.uniform(-1, 1, lead + size).astype(T), np.full(lead + (j["n"],), np.nan, T)
                    o.eulerian_to_lagrangian_grid_interpolation_kernel(lag_grid_field=lag, eul_grid_field=f, interp_weights=w,
                                                                       nearest_eul_grid_index_to_lag_grid=near)
                    o.lagrangian_to_eulerian_grid_interpolation_kernel(eul_grid_field=f, lag_grid_field=lag, interp_weights=w,
                                                                       nearest_eul_grid_index_to_lag_grid=near)
                    out += [("interpolated", lag), ("spread", f)]
                    continue
                u = g.uniform(-1, 1, (d, *size)).astype(T)
                v = g.uniform(-1, 1, (d, j["n"])).astype(T)
                if k == "vbf":
                    o.compute_interaction_forcing(eul_grid_forcing_field=self.eul, eul_grid_velocity_field=u, lag_grid_position_field=pos,
                                                  lag_grid_velocity_field=v)
                    out.append(("node forcing", np.array(o.lag_grid_forcing_field)))
                    o.time_step(dt=T(0.1))
                    out += [("grid forcing", np.array(self.eul)), ("history integral", np.array(o.lag_grid_position_mismatch_field)),
                            ("time", np.array(float(o.time)))]
                    if not j["reset"]:
                        self.eul[...] = 0
                else:
                    e = np.zeros((d, *size), T)
                    o.compute_interaction_forcing(eul_grid_penalisation_flux=e, eul_grid_velocity_field=u, lag_grid_position_field=pos,
                                                  lag_grid_velocity_field=v, dt=T(0.1))
                    out.append(("penalisation flux", e))
                    out.append(("node forcing", np.array(o.lag_grid_penalisation_forcing)))
            elif k == "kernel":
                s = kernels.CAT[j["k"]]
                plan = {"real": j["real"], "size": size, "style": "uniform", "dirty": True}
                kw, _, roles = kernels.make_args(s, j["opts"], plan, Heap, g)
                gridrun.rim_init(s, j["opts"], kw, roles, True)
                o(**kw)
                out += [(n2, a) for n2, a in sorted(kw.items()) if roles[n2][1] != "b" and isinstance(a, np.ndarray)
                        and not (roles[n2][1] == "r" and gridrun.keep_rim(s, j["opts"]))]
            else:
                o.refill(r["seed"] + step)
                st = o.snapshot()
                t = float(g.uniform(0, 9))
                path = os.path.join(self.dir, j["file"])
                o.io.save(path, t)
                out.append(("checkpoint", iodump(path)))
                for a in o.arrays.values():
                    a[...] = 0
                out.append(("time", np.array(float(o.io.load(path)))))
                out += [(f"restored {a}", v) for a, v in sorted(o.snapshot().items())]
                for a in st:
                    o.arrays[a][...] = st[a]


def iodump(path):
    """Files of one checkpoint by content."""
    import h5py

    np = seams.np
    res = {}
    d = os.path.dirname(path)
    for f in sorted(os.listdir(d)):
        if f.endswith(".xmf"):
            with open(os.path.join(d, f)) as fh:
                res[f] = fh.read()
    h = h5py.File(path, "r")
    try:
        def visit(n, o):
            res["h5 " + n] = [sorted((k, repr(v)) for k, v in o.attrs.items())] + (
                [str(o.dtype), o.shape, core.hash_array(np.array(o[...]))] if isinstance(o, h5py.Dataset) else [])

        h.visititems(visit)
        res["h5 /"] = sorted((k, repr(v)) for k, v in h.attrs.items())
    finally:
        h.close()
    return res


class Heap:
    """Plain arrays where the arena is not needed."""

    @staticmethod
    def array(shape, dtype, data=None, pad=None):
        a = seams.np.zeros(shape, dtype)
        if data is not None:
            a[...] = data
        return a


STATELESS = ("poisson", "fastdiag", "fft", "brink", "comm", "kernel", "io")


def world(p, env, only, root):
    """All jobs interleaved, or one alone.  Runs in its own process."""
    seams.dirty.seed(p["seed"] + (0 if only is None else 7 + only))
    seams.build_mode(p["mode"], env.work)
    idx = list(range(len(p["jobs"]))) if only is None else [only]
    js = {i: Job(p["jobs"][i], i, root) for i in idx}
    order = idx[::-1] if p["rev"] else idx
    res = {i: [] for i in idx}
    trace, switches, fired = [], 0, {}
    for m, r in enumerate(p["rounds"]):
        gridrun.set_sched(env, {"sseed": 1, "pol": "serial", "den": 16, "cap": 0})
        for i in order:
            # what needs no kernel generation may also be constructed by its own thread
            if p["start"][i] == m and not (p["late"] and only is None and p["jobs"][i]["kind"] in ("io", "comm", "fft", "fastdiag")):
                js[i].build()
        run = [i for i in idx if p["start"][i] <= m]
        gridrun.set_sched(env, r["sched"])
        outs = {i: [] for i in idx}
        err = {}
        if only is None:
            b = seams.Baton(r["seed"], r["den"], {int(i): tuple(v) for i, v in r["inject"].items()})
            b.run([(lambda i=i: js[i].act(r, r["ops"][i], outs[i])) if i in run else (lambda: None) for i in idx])
            for i, e in b.errors.items():
                if i not in b.fired:
                    raise e
                err[i] = True
            for i, kind in b.fired.items():
                fired[kind] = fired.get(kind, 0) + 1
                if i not in err:
                    raise Violation("swallowed-interrupt", f"round {r['seed']}: an interrupt in thread {i} disappeared")
            trace.append(core.hashlib.sha256(repr(b.trace).encode()).hexdigest()[:12])
            switches += b.switches
        elif run:
            js[only].act(r, r["ops"][only], outs[only])
        for i in idx:
            res[i].append(None if i in err else outs[i])
        if env.sched.faults():
            raise Violation("race", env.sched.faults()[0])
        if any(p["jobs"][i]["kind"] not in STATELESS for i in err):
            for i in err:
                if p["jobs"][i]["kind"] not in STATELESS:
                    js[i].build()                # the owner starts over
                    js[i].gone = True
        for i in idx:
            if getattr(js[i], "gone", False):
                res[i][-1] = None
    return res, trace, switches, fired


def describe(j):
    return " ".join(f"{k}={v}" for k, v in sorted(j.items()) if k not in ("cfg",))


def execute(p, env, work):
    np = seams.np

    def child(only):
        root = seams.fresh_dir(work, f"c14-{'all' if only is None else only}")
        code, out = seams.forked(lambda: world(p, env, only, root))
        who = "all threads together" if only is None else f"{describe(p['jobs'][only])} alone"
        if out is None:
            raise Violation("process-death", f"{who}: process ended with status {code}")
        if out[0] == "exc":
            n, s, tb, cls, msg = out[1]
            if cls:
                raise Violation(cls, f"{who}: {msg}")
            if seams.SRC in tb:
                raise Violation("exception", f"{who}: {n}: {s} {tb[-500:]}")
            raise core.HarnessError(tb)
        return out[1]

    log = core.Log()
    res, trace, switches, fired = child(None)
    evals = 0
    probes = {}
    for i, j in enumerate(p["jobs"]):
        alone = child(i)[0][i]
        probes[j["kind"]] = probes.get(j["kind"], 0) + 1
        for m, (got, exp) in enumerate(zip(res[i], alone)):
            where = f"{describe(j)} (thread {i} of {len(p['jobs'])}), round {m}"
            if got is None:
                log(i, m, "interrupted")
                continue
            if [a for a, _ in got] != [a for a, _ in exp]:
                raise Violation("interference", f"{where}: other results than alone: {[a for a, _ in got]}")
            for (name, a), (_, b) in zip(got, exp):
                evals += 1
                if not isinstance(b, np.ndarray) or j["kind"] == "io":
                    same = a == b if not isinstance(b, np.ndarray) else iocase.same_bits(a, b)
                    if not same:
                        diff = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k)) if isinstance(b, dict) else ""
                        raise Violation("interference", f"{where}: {name} differs from the same work alone {diff}")
                    continue
                nan = np.isnan(b)
                sc = 1e-3 + (float(np.abs(b[~nan]).max()) if (~nan).any() else 0)
                if a.shape != b.shape or (np.isnan(a) != nan).any() or not (np.abs(a[~nan] - b[~nan]) <= TOL[j["real"]] * sc).all():
                    raise Violation("interference", f"{where}: {name} differs from the same work alone")
                log(i, m, name, core.hash_array(a))
    log(trace)
    return {"evals": evals, "stats": {"thread_switches": switches, "rounds": len(p["rounds"]), "processes": 1 + len(p["jobs"])},
            "faults": fired, "probes": probes, "sigs": trace, "digest": log.digest(), "nontrivial": switches > 0,
            "distinct": core.canon([p["jobs"], trace])}


def shrink(p):
    for i in range(len(p["rounds"])):
        if len(p["rounds"]) > 1:
            yield dict(p, rounds=p["rounds"][:i] + p["rounds"][i + 1:], start=[s - (s > i) for s in p["start"]])
    n = len(p["jobs"])
    if n > 1:
        for i in range(n):
            yield dict(p, jobs=p["jobs"][:i] + p["jobs"][i + 1:], start=p["start"][:i] + p["start"][i + 1:],
                       rounds=[dict(r, ops=r["ops"][:i] + r["ops"][i + 1:],
                                    inject={str(int(k) - (int(k) > i)): v for k, v in r["inject"].items() if int(k) != i})
                               for r in p["rounds"]])
    for i, r in enumerate(p["rounds"]):
        if r["inject"]:
            yield dict(p, rounds=p["rounds"][:i] + [dict(r, inject={})] + p["rounds"][i + 1:])
        if max(r["ops"]) > 1:
            yield dict(p, rounds=p["rounds"][:i] + [dict(r, ops=[1] * len(r["ops"]))] + p["rounds"][i + 1:])
        if r["sched"]["pol"] != "serial":
            yield dict(p, rounds=p["rounds"][:i] + [dict(r, sched=dict(r["sched"], pol="serial"))] + p["rounds"][i + 1:])
        if r["den"] < 12:
            yield dict(p, rounds=p["rounds"][:i] + [dict(r, den=12)] + p["rounds"][i + 1:])
    for i, s in enumerate(p["start"]):
        if s:
            yield dict(p, start=p["start"][:i] + [0] + p["start"][i + 1:])
    if p["mode"] == "fine":
        yield dict(p, mode="coarse")
    for k in ("late", "rev"):
        if p[k]:
            yield dict(p, **{k: False})
