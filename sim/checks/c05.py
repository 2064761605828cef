"""C05: a flow simulation killed anywhere and restarted from its newest readable
checkpoint ends in exactly the state of the undisturbed run."""
import errno
import os

from sim import core, flowsim, gridrun, seams
from sim.core import Violation

BUDGET = {"quick": 30, "thorough": 1500}
RULE = ("a run is one flow-body simulation with periodic checkpoints: an undisturbed execution, then an execution whose processes "
        "are killed at a seeded line of a step or before/after/in the middle of a file operation of a save, hit disk errors, or are "
        "interrupted and reload in place; each new process starts on dirty memory and resumes from the newest checkpoint that "
        "loads, possibly with another thread schedule or thread count; non-trivial: a fault fired; distinct: by plan hash")
COMPONENTS = {"real": ["Poisson solvers, curl, advection, diffusion, stretching, filter, sponge, penalisation, forcing and vorticity-update kernels",
                       "VirtualBoundaryForcing", "BrinkmannBoundaryForcing", "IO, h5py, libhdf5", "FFTW"],
              "simulated": ["process death and restart", "libc file operations", "OpenMP runtime and threads", "array memory",
                            "asynchronous exceptions"],
              "stub": ["numba (functions run as Python)", "the time loop is ours, written as users write it"]}
ASSUMPTIONS = ["process death keeps what the kernel accepted (no power loss)",
               "with an unchanged thread count results are compared bit for bit, with another one (or matrix products in "
               "the Poisson solver) to rounding"]
DETERMINISM = {"quick": 1, "thorough": 16}
TOL = {"f8": 1e-9, "f4": 2e-3}


class Env(gridrun.Env):
    def get(self, c, size, nt):
        key = core.canon([c, size, nt])
        if key not in self.cache:
            seams.build_mode(c["mode"], self.work)
            seams.dirty.seed(1)
            self.cache[key] = flowsim.kernels_for(c, size, nt)
        return self.cache[key]


end_group = gridrun.end_group


def gen_fault(rng, steps, every):
    k = rng.choice(["kill_step", "kill_step", "kill_save", "kill_save", "torn", "disk_error", "interrupt", "memory", "interrupt", "kill_between"])
    f = {"kind": k, "step": rng.randrange(1, steps + 1), "pos": rng.randrange(1000), "save": rng.randrange(steps // every + 1)}
    if k == "kill_save":
        f["how"] = rng.choice(["crash_before", "crash_after"])
    if k == "torn":
        f["arg"] = rng.choice([0, 1, 100, 500, 900, 999])
    if k == "disk_error":
        f["err"] = rng.choice(["ENOSPC", "EIO", "EDQUOT"])
        f["how"] = rng.choice(["errno", "errno_from"])
    return f


def groups(seed, tier):
    out = []
    n, c = (60, 8) if tier == "quick" else (2000, 60)
    for g in range(n):
        rng = core.rng_for(seed, "C05", g)
        d = 2 + g % 2
        bodies = []
        for i in range([1, 2, 0, 1, 2, 3][(g // 2) % 6]):
            bodies.append({"n": rng.choice([1, 2, d, 5]), "k": rng.choice([-20.0, -3.0]), "c": rng.choice([-2.0, -0.3]),
                           "name": ["cyl", "rod", "body_2"][i], "connect": rng.random() < 0.3,
                           "amp": round(rng.uniform(0.01, 0.05), 4), "freq": round(rng.uniform(1, 9), 3)})
        cfg = {"dim": d, "real": ["f4", "f8"][(g // 2) % 2], "fixed": rng.random() < 0.3, "dx": rng.choice([0.1, 0.25, 1 / 16]),
               "width": rng.choice([0, 1, 2, 2, 3]), "filter": rng.choice([0, 0, 1, 2]) if d == 3 else 0,
               "rk3": d == 3 and rng.random() < 0.4, "obstacle": rng.random() < 0.3, "fastdiag": rng.random() < 0.2,
               "brink": rng.random() < 0.3, "bodies": bodies, "dt": 0.02, "nu": rng.choice([0.05, 0.1]), "seed": rng.randrange(10**6),
               "mode": rng.choice(["fine", "coarse", "coarse"])}
        lo, top = (9, 16) if d == 2 else (7, 9)
        size = [rng.randint(lo, top) for _ in range(d)]
        nt = rng.choice([False, 2, 2, 3, 4])
        nt2 = nt if rng.random() < 0.7 else rng.choice([False, 2, 3])
        plans = []
        for _ in range(10):
            steps, every = rng.choice([(4, 1), (5, 2), (6, 3), (7, 2)])
            plans.append({"cfg": cfg, "size": size, "nt": nt, "nt2": nt2,
                          "steps": steps, "every": every, "seed": rng.randrange(10**9), "sched": gridrun.gen_sched(rng, cfg["mode"]),
                          "faults": [gen_fault(rng, steps, every) for _ in range(rng.choice([1, 1, 2, 3]))]})
        out.append({"core": g < c, "plans": plans})
    return out


def process(p, env, k, nt, life, d, ref, fault, where, exact):
    """One life of the simulation.  Runs in its own process."""
    np = seams.np
    c = p["cfg"]
    seams.dirty.seed(p["seed"] * 31 + life)
    # a different heap layout in every life
    ballast = [np.empty(97 * (life + 1) + i) for i in range(life % 5)]
    gridrun.set_sched(env, dict(p["sched"], sseed=p["sched"]["sseed"] + life, pol="serial" if life == 0 else p["sched"]["pol"]))
    res = {"loads": [], "fired": {}, "steps": 0, "lines": 0, "ops": 0, "saves": []}

    def same(got, n, what):
        for name in ref[n] if ref else ():
            e, g = ref[n][name], got[name]
            if g.shape != e.shape:
                raise Violation("diverged", f"{what}: {name} has another shape")
            if exact:
                if g.tobytes() != e.tobytes():
                    bad = np.nonzero(np.atleast_1d(g != e) | np.atleast_1d(g != g))
                    i = tuple(int(q[0]) for q in bad) if len(bad[0]) else ()
                    raise Violation("diverged", f"{what}: {name} at {list(i)} is {np.atleast_1d(g)[i]!r}, undisturbed {np.atleast_1d(e)[i]!r}")
            else:
                sc = 1e-3 + float(np.abs(e).max()) if e.size else 1
                if not (np.abs(g.astype(float) - e) <= TOL[c["real"]] * sc).all():
                    raise Violation("diverged", f"{what}: {name} differs from the undisturbed run by {float(np.abs(g.astype(float) - e).max()):.3g}")

    def build(t0):
        return flowsim.Flow(c, p["size"], k, nt, start_time=t0)

    def resume(F):
        """Newest checkpoint that loads -> number of steps done."""
        for n in sorted((int(f[4:8]) for f in os.listdir(d) if f.startswith("chk_") and f.endswith(".h5")), reverse=True):
            try:
                F.load(flowsim.name(d, n))
            except Exception as e:  # noqa: a checkpoint that says it is unusable
                res["loads"].append([n, type(e).__name__])
                continue
            res["loads"].append([n, "ok"])
            if float(F.t) != float(ref[n]["t"]) and exact:
                raise Violation("wrong-time", f"{where}: checkpoint of step {n} loads with time {F.t!r}, saved {ref[n]['t']!r}")
            same(F.state(), n, f"{where}: checkpoint of step {n} just loaded")
            return n
        F.start()
        F.t = F.T(0)
        for *_, f in F.bodies:
            f.lag_grid_position_mismatch_field[...] = 0
            f.time = 0.0
        return 0

    F = build(0.0)
    n = resume(F) if ref is not None else (F.start() or 0)
    if ref is not None and n:
        # a fresh process knows the time only after loading; half of the lives build the bodies afterwards
        if life % 2:
            G = build(F.t)
            m = resume(G)
            if m != n:
                raise Violation("load-unstable", f"{where}: loading again gives step {m} instead of {n}")
            F = G
    hist = [F.state()] if ref is None else None
    if ref is not None:
        same(F.state(), n, f"{where}: start at step {n}")
    saves = 0
    while n < p["steps"]:
        f = fault if fault and fault["kind"] in ("kill_step", "interrupt", "memory") and n + 1 >= fault["step"] and not res["fired"] else None
        if f:
            exc = {"kill_step": "kill", "interrupt": "interrupt", "memory": "memory"}[f["kind"]]
            at = f["pos"] * fault["lines"] // 1000
            cnt, fired, _, err = seams.lines(F.step, at, exc)
            res["lines"] += cnt
            if err is not None and not fired:
                raise err
            if fired and err is None:
                raise Violation("swallowed-interrupt", f"{where}: an interrupt in step {n + 1} disappeared")
            if fired:
                res["fired"][f["kind"]] = 1
                # carry on in the same process from the newest checkpoint
                n = resume(F)
                saves = 10**6
                continue
        else:
            F.step()
        n += 1
        res["steps"] += 1
        if ref is None:
            hist.append(F.state())
        else:
            same(F.state(), n, f"{where}: step {n}")
            if any(abs(x) > 1e-5 for x in F.clocks()):
                raise Violation("wrong-time", f"{where}: step {n}: clocks of the bodies are off by {F.clocks()}")
        if fault and fault["kind"] == "kill_between" and n >= fault["step"]:
            os._exit(200)
        if n % p["every"] == 0:
            fl = []
            if fault and fault["kind"] in ("kill_save", "torn", "disk_error") and saves == fault["save"] % max(1, p["steps"] // p["every"]):
                at = fault["pos"] * fault["nops"] // 1000
                fl = [{"at": at, "kind": fault.get("how", "torn"), "arg": getattr(errno, fault["err"]) if "err" in fault else fault.get("arg", 0)}]
            saves += 1
            res["saves"].append(n)
            with seams.Disk(d, fl) as dk:
                try:
                    F.save(flowsim.name(d, n))
                    err = None
                except Exception as e:  # noqa
                    err = e
            res["ops"] = max(res["ops"], dk.ops)
            for q, v in dk.fired.items():
                res["fired"][q] = res["fired"].get(q, 0) + v
            if err is not None:
                if not dk.fired:
                    raise err
                res["saves"].pop()
                os._exit(201)             # the user's script ends with a traceback
            if ref is not None:
                same(F.state(), n, f"{where}: step {n} after saving")
    res["n"] = n
    if ref is None:
        res["hist"] = hist
        res["lines"] = seams.lines(F.step)[0]
    g = [env.sched.faults()]
    if g[0]:
        raise Violation("race" if g[0][0].startswith("race") else "out-of-bounds", f"{where}: {g[0][0]}")
    return res


def execute(p, env, work):
    np = seams.np
    c = p["cfg"]
    k1 = env.get(c, p["size"], p["nt"])
    k2 = env.get(c, p["size"], p["nt2"])
    seams.build_mode(c["mode"], env.work)
    log = core.Log()
    what = (f"{c['dim']}D {c['real']} grid {p['size']} {len(c['bodies'])} bodies threads {p['nt']}/{p['nt2']}, "
            f"{p['steps']} steps, checkpoint every {p['every']}")

    def live(k, nt, life, d, ref, fault, where, exact=True):
        code, out = seams.forked(lambda: process(p, env, k, nt, life, d, ref, fault, where, exact))
        if out is not None and out[0] == "exc":
            n, s, tb, cls, msg = out[1]
            if cls:
                raise Violation(cls, msg)
            if seams.SRC in tb:
                raise Violation("exception", f"{where}: {n}: {s} {tb[-600:]}")
            raise core.HarnessError(tb)
        return code, out

    d0, d = seams.fresh_dir(work, "calm"), seams.fresh_dir(work, "storm")
    code, out = live(k1, p["nt"], 0, d0, None, None, f"{what}: undisturbed")
    if out is None:
        raise Violation("process-death", f"{what}: the undisturbed process ended with status {code}")
    ref, nlines, nops = out[1]["hist"], out[1]["lines"], out[1]["ops"]
    if not all(np.isfinite(v).all() for s in ref for v in s.values()):
        raise core.HarnessError(f"{what}: the undisturbed run is not finite")
    log("ref", [core.hash_array(ref[-1][q]) for q in sorted(ref[-1])])
    faults, probes = {}, {}
    lives, steps, resumed = 0, p["steps"], 0
    todo = list(p["faults"])
    done = False
    while not done:
        f = dict(todo.pop(0), lines=nlines, nops=nops) if todo else None
        lives += 1
        swap = lives % 2 == 0 and p["nt2"] != p["nt"]
        exact = p["nt2"] == p["nt"] and not c["fastdiag"]
        where = f"{what}: life {lives} ({f['kind'] if f else 'calm'})"
        code, out = live(k2 if swap else k1, p["nt2"] if swap else p["nt"], lives, d, ref, f, where, exact)
        if out is None:
            if f is None:
                raise Violation("process-death", f"{where}: process ended with status {code} without a fault")
            kind = {201: "disk error ends the run"}.get(code, f["kind"] if code == 200 else "died in libhdf5 after an injected error")
            if code not in (200, 201) and f["kind"] != "disk_error":
                raise Violation("process-death", f"{where}: process ended with status {code}")
            faults[kind] = faults.get(kind, 0) + 1
            log("life", lives, "dead", code)
            continue
        r = out[1]
        done = True
        steps += r["steps"]
        for q, v in r["fired"].items():
            faults[q] = faults.get(q, 0) + v
        for n, e in r["loads"]:
            probes[f"load {'ok' if e == 'ok' else 'refused'}"] = probes.get(f"load {'ok' if e == 'ok' else 'refused'}", 0) + 1
            resumed += e == "ok"
        log("life", lives, r["loads"], r["saves"], r["n"])
    if resumed:
        probes["finished from a checkpoint"] = 1
    # every checkpoint of the disturbed run that was saved without a fault is readable by a fresh process
    st = env.sched.stats()
    return {"evals": 1 + lives, "stats": {"processes": 1 + lives, "simulated_steps": steps, "regions": st["regions"]},
            "faults": faults, "probes": probes, "sigs": [], "digest": log.digest(), "nontrivial": bool(faults)}


def shrink(p):
    fs = p["faults"]
    for i in range(len(fs)):
        yield dict(p, faults=fs[:i] + fs[i + 1:])
    c = p["cfg"]
    for i in range(len(c["bodies"])):
        yield dict(p, cfg=dict(c, bodies=c["bodies"][:i] + c["bodies"][i + 1:]))
    for i, b in enumerate(c["bodies"]):
        if b["n"] > 1:
            yield dict(p, cfg=dict(c, bodies=c["bodies"][:i] + [dict(b, n=1)] + c["bodies"][i + 1:]))
    for ch in ({"width": 0}, {"filter": 0}, {"fixed": False}, {"rk3": False}, {"obstacle": False}, {"fastdiag": False},
               {"brink": False}):
        if any(c[k] != v for k, v in ch.items()):
            yield dict(p, cfg=dict(c, **ch))
    if p["nt2"] != p["nt"]:
        yield dict(p, nt2=p["nt"])
    if p["nt"]:
        yield dict(p, nt=False, nt2=False)
    if p["steps"] > 2:
        yield dict(p, steps=p["steps"] - 1)
    if p["sched"]["pol"] != "serial":
        yield dict(p, sched=dict(p["sched"], pol="serial"))
    for i, s in enumerate(p["size"]):
        if s > 7:
            z = list(p["size"])
            z[i] = s - 1
            yield dict(p, size=z)
