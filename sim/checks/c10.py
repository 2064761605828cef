"""C10: the fast-diagonalisation Poisson solvers return the zero-mean solution of the
discrete Neumann problem for the current right-hand side, whatever happened before."""
from sim import core, gridrun, kernels, seams
from sim.core import Violation

BUDGET = {"quick": 35, "thorough": 900}
RULE = ("a run is a history of scalar, vector, in-place and interrupted solves by two solver instances interleaved, on fresh "
        "right-hand sides, with dirty allocations; non-trivial: at least one solve was judged; distinct: by plan hash")
COMPONENTS = {"real": ["FastDiagPoissonSolver2D/3D, numpy linear algebra"],
              "simulated": ["asynchronous exceptions", "array memory", "placement of work between instances"], "stub": []}
ASSUMPTIONS = ["asynchronous exceptions surface between Python lines"]
DETERMINISM = {"quick": 3, "thorough": 24}
TOL = {"f8": 1e-11, "f4": 5e-4}


class Env:
    def __init__(self, work):
        import sopht.numeric.eulerian_grid_ops as m

        self.m = m
        self.cache = {}


def end_group(env):
    env.cache.clear()


def gen_op(rng, cfg):
    o = {"op": rng.choice(["solve", "solve", "inplace", "vector" if cfg["dim"] == 3 else "solve", "back"]),
         "who": rng.randrange(2), "seed": rng.randrange(10**9), "style": rng.choice(kernels.STYLES),
         "mag": rng.choice([1, 1, 1e3, 1e-3]), "pad": rng.random() < 0.3, "reuse": rng.random() < 0.4, "rel": rng.choice(kernels.RELATED), "at": None}
    if rng.random() < 0.4:
        o["at"], o["exc"] = rng.randrange(1000), rng.choice(["interrupt", "memory"])
    return o


def groups(seed, tier):
    out = []
    n, c = (600, 30) if tier == "quick" else (6000, 100)
    for g in range(n):
        rng = core.rng_for(seed, "C10", g)
        d = 2 + g % 2
        cfg = {"dim": d, "real": ["f4", "f8"][(g // 2) % 2]}
        top = 24 if d == 2 else 10
        inst = [{"size": [rng.randint(2, top) if rng.random() < 0.8 else rng.choice([2, 3]) for _ in range(d)],
                 "dx": rng.choice([1.0, 0.05, 0.37, 2.5, 1e-5, 1e4])} for _ in range(2)]
        if rng.random() < 0.1:
            z = inst[0]["size"] = [rng.randint(2, 6) for _ in range(d)]
            z[rng.randrange(d)] = rng.randint(30, 150)
        out.append({"core": g < c, "plans": [{"cfg": cfg, "inst": inst, "seed": rng.randrange(10**9),
                                              "ops": [gen_op(rng, cfg) for _ in range(rng.choice([2, 4, 7, 7, 16]))]} for _ in range(8)]})
    return out


def modes(n, dx):
    np = seams.np
    k = np.arange(n)
    q = np.cos(np.pi * np.outer(k + 0.5, k) / n)
    q /= np.sqrt((q * q).sum(0))
    return q, (2 - 2 * np.cos(np.pi * k / n)) / dx ** 2


def reference(b, dx):
    np = seams.np
    d = b.ndim
    qs, ls = zip(*[modes(n, dx) for n in b.shape])
    x = b
    for i in range(d):
        x = np.moveaxis(np.tensordot(qs[i].T, x, axes=(1, i)), 0, i)
    lam = sum(l.reshape([-1 if j == i else 1 for j in range(d)]) for i, l in enumerate(ls))
    lam[(0,) * d] = np.inf
    x = x / lam
    for i in range(d):
        x = np.moveaxis(np.tensordot(qs[i], x, axes=(1, i)), 0, i)
    lam[(0,) * d] = 1e300
    return x, 1 / float(lam.min())


def laplace(x, dx):
    """The Neumann operator applied directly (reflected ghost cells)."""
    np = seams.np
    p = np.pad(x, 1, mode="edge")
    c = (slice(1, -1),) * x.ndim
    out = np.zeros_like(x)
    for i in range(x.ndim):
        for s in (slice(0, -2), slice(2, None)):
            t = list(c)
            t[i] = s
            out += p[c] - p[tuple(t)]
    return out / dx ** 2


def execute(p, env, work):
    np = seams.np
    c, d = p["cfg"], p["cfg"]["dim"]
    T = np.float32 if c["real"] == "f4" else np.float64
    tol = TOL[c["real"]]
    seams.dirty.seed(p["seed"])
    arena = seams.Arena(p["seed"])
    names = ["grid_size_z", "grid_size_y", "grid_size_x"][3 - d:]
    cls = env.m.FastDiagPoissonSolver2D if d == 2 else env.m.FastDiagPoissonSolver3D
    S = env.cache.setdefault(core.canon([c, p["inst"]]), {})
    log = core.Log()
    last, before = {}, {}
    faults, probes, evals, lines = {}, {}, 0, 0
    for m, op in enumerate(p["ops"]):
        k = op["who"]
        I = p["inst"][k]
        size = tuple(I["size"])
        where = f"{d}D {c['real']} grid {list(size)} dx {I['dx']}, step {m} {op['op']}"
        r = np.random.default_rng(op["seed"])
        dx = T(I["dx"])
        if k not in S:
            S[k] = cls(dx=dx, real_t=T, **dict(zip(names, size)))
        s = S[k]
        probes[op["op"]] = probes.get(op["op"], 0) + 1
        vec = op["op"] == "vector"
        shape = (3, *size) if vec else size
        inplace = op["op"] == "inplace"
        pad = ([0] * vec + [int(x) for x in r.integers(0, 3, d)]) if op["pad"] and not (inplace and d == 2) else None
        b0 = kernels.field(r, shape, op["style"]) * op["mag"]
        if op["op"] == "back":           # manufacture the right-hand side from a known solution
            x0 = b0 - b0.mean()
            b0 = laplace(x0, float(dx))
        if op["rel"] and (k, shape) in before:
            b0 = kernels.related(r, before[k, shape], op["rel"])
        before[k, shape] = b0
        key = (k, shape, inplace)
        if op["reuse"] and key in last:      # the caller's arrays of an earlier solve, with new sources
            rhs, sol = last[key]
            rhs[...] = b0
        else:
            rhs = arena.array(shape, T, b0, pad=pad)
            sol = rhs if inplace else arena.array(shape, T, np.full(shape, np.nan), pad=pad if d == 3 else None)
            last[key] = rhs, sol
        data = np.array(rhs)
        go = (lambda: s.vector_field_solve(solution_vector_field=sol, rhs_vector_field=rhs)) if vec else (
            lambda: s.solve(solution_field=sol, rhs_field=rhs))
        if op["at"] is not None:
            total, _, _, err = seams.lines(go)
            if err:
                raise err
            rhs[...] = data
            _, fired, _, err = seams.lines(go, op["at"] * total // 1000, op["exc"])
            if fired and err is None:
                raise Violation("swallowed-interrupt", f"{where}: an interrupt disappeared")
            if err is not None and not fired:
                raise err
            lines += total
            if fired:
                faults[op["exc"]] = faults.get(op["exc"], 0) + 1
                if op["seed"] % 3:
                    log(m, "interrupted")
                    continue
            rhs[...] = data
        go()
        if not arena.intact():
            raise Violation("out-of-bounds", f"{where}: memory outside the arrays was written")
        if not inplace and rhs.tobytes() != data.tobytes():
            raise Violation("input-modified", f"{where}: the right-hand side was modified")
        for j in range(3 if vec else 1):
            b = (data[j] if vec else data).astype(float)
            x = np.array(sol[j] if vec else sol, float)
            e, amp = reference(b, float(dx))
            sc = 1e-30 + amp * float(np.abs(b).max())
            bad = ~(np.abs(x - e) <= tol * sc)
            if bad.any():
                i = tuple(int(q[0]) for q in np.nonzero(bad))
                raise Violation("wrong-solution", f"{where}: component {j} point {list(i)}: {float(x[i])!r}, expected {float(e[i])!r}")
            res = laplace(x, float(dx)) - (b - b.mean())
            if not np.abs(res).max() <= tol * 50 * sc / float(dx) ** 2:
                raise Violation("wrong-residual", f"{where}: component {j}: residual {np.abs(res).max():.3g}")
            if not abs(x.mean()) <= tol * sc:
                raise Violation("mean-not-zero", f"{where}: component {j}: mean of the solution is {x.mean():.3g}")
        evals += 1
        log(m, op["op"], core.hash_array(sol))
    return {"evals": evals, "stats": {"line_events": lines}, "faults": faults, "probes": probes, "sigs": [],
            "digest": log.digest(), "nontrivial": evals > 0}


def shrink(p):
    ops = p["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(p, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        for ch in ({"at": None}, {"pad": False}, {"reuse": False}, {"rel": None}, {"mag": 1}, {"style": "uniform"}, {"who": 0}):
            if any(o[k] != v for k, v in ch.items()):
                yield dict(p, ops=ops[:i] + [dict(o, **ch)] + ops[i + 1:])
        if o["op"] != "solve":
            yield dict(p, ops=ops[:i] + [dict(o, op="solve")] + ops[i + 1:])
    for k in (0, 1):
        I = p["inst"][k]
        for i, n in enumerate(I["size"]):
            for v in (2, n // 2, n - 1):
                if 2 <= v < n:
                    z = list(I["size"])
                    z[i] = v
                    yield dict(p, inst=[dict(I, size=z) if q == k else p["inst"][q] for q in (0, 1)])
        if I["dx"] != 1.0:
            yield dict(p, inst=[dict(I, dx=1.0) if q == k else p["inst"][q] for q in (0, 1)])
