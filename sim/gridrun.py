"""Runs one grid kernel under a simulated thread schedule and judges the outcome."""
from sim import core, kernels, seams
from sim.core import Violation

POLICIES = ["serial", "reverse", "random", "preempt", "preempt", "preempt", "rr", "pct"]


class Env:
    def __init__(self, work):
        self.work = work
        self.cache = {}
        self.sched = seams.Sched()
        import sopht.numeric.eulerian_grid_ops  # noqa
        import sopht.numeric.immersed_boundary_ops  # noqa

    def kernel(self, plan, s, o):
        key = core.canon([plan["k"], plan["opts"], plan["real"], plan["fixed"], plan["nt"], plan["mode"]])
        if key not in self.cache:
            seams.build_mode(plan["mode"], self.work)
            self.cache[key] = kernels.generate(s, o, plan["real"], plan["nt"], plan["fixed"])
        return self.cache[key]


def end_group(env):
    env.cache.clear()


def gen_sched(rng, mode):
    return {"pol": rng.choice(POLICIES) if mode == "fine" else rng.choice(["reverse", "random", "random", "serial"]),
            "den": rng.choice([1, 2, 3, 7, 20, 60, 200]), "cap": rng.choice([0, 0, 0, 0, 1, 2, 3]),
            "sseed": rng.randrange(10**9)}


def long_size(rng, lo, dim, scale=1):
    """One axis far longer than the others."""
    size = [lo + rng.randint(0, 3) for _ in range(dim)]
    size[rng.randrange(dim)] = rng.randint(40, (280 if dim == 2 else 130) * scale)
    return size


def gen_size(rng, s, o, mode):
    lo = kernels.min_size(s, o)
    top = (24 if s["dim"] == 2 else 10) if mode == "fine" else (48 if s["dim"] == 2 else 16)
    r = rng.random()
    if r > 0.94:
        return long_size(rng, lo, s["dim"], 1 if mode == "fine" else 2)
    if r < 0.2:
        return [lo + rng.choice([0, 0, 1, 2]) for _ in range(s["dim"])]
    if r < 0.8:
        return [rng.randint(lo, max(lo, lo + top // 3)) for _ in range(s["dim"])]
    return [rng.randint(lo, max(lo, top)) for _ in range(s["dim"])]


def gen_nt(rng):
    return rng.choice([False, 1, 2, 2, 3, 4, 4, 8, True])


def config(rng, name, o, mode=None, real=None):
    s = kernels.CAT[name]
    mode = mode or rng.choice(["fine", "fine", "coarse"])
    fixed = gen_size(rng, s, o, mode) if s["fixed"] and rng.random() < 0.5 else None
    return {"k": name, "opts": o, "real": real or rng.choice(["f4", "f8"]), "fixed": fixed, "nt": gen_nt(rng), "mode": mode}


def call_plan(rng, cfg):
    s = kernels.CAT[cfg["k"]]
    p = dict(cfg)
    p["size"] = cfg["fixed"] or gen_size(rng, s, cfg["opts"], cfg["mode"])
    p["seed"] = rng.randrange(10**9)
    p["style"] = rng.choice(kernels.STYLES)
    p["mag"] = rng.choice([1.0, 1.0, 1.0, 1.0, 1e-3, 1e-6, 1e-10, 1e5])
    p["dirty"] = rng.random() < 0.7
    p["pad"] = None
    if cfg["fixed"] is None and rng.random() < 0.3:
        p["pad"] = [rng.choice([0, 1, 2, 5]) for _ in p["size"]]
    p["sched"] = gen_sched(rng, cfg["mode"])
    p["again"] = rng.randrange(10**9) if rng.random() < 0.5 else None
    p["sched2"] = dict(gen_sched(rng, cfg["mode"]), cap=p["sched"]["cap"])
    return p


def set_sched(env, sc):
    env.sched.set(sc["sseed"], sc["pol"], sc["den"], sc["cap"])


def judge_memory(env, arena, where):
    f = env.sched.faults()
    if f:
        raise Violation("race" if f[0].startswith("race") else "out-of-bounds", f"{where}: {f[0]}")
    if not arena.intact():
        raise Violation("out-of-bounds", f"{where}: memory outside the arrays was written")


def keep_rim(s, o):
    return s.get("keep_rim") or o.get("reset_ghost_zone") is False


def rim_init(s, o, kw, roles, dirty):
    """Contents of output arrays before the call."""
    np = seams.np
    for n, (kind, role) in roles.items():
        if role == "r" and dirty:
            a = kw[n]
            if not keep_rim(s, o):
                a[...] = np.nan
            else:
                for c in kernels.comps(a, kind == "W"):
                    m = kernels.rim(c, s["ghost"])
                    c[~m] = np.nan


def describe(p):
    return (f"{p['k']} {p['opts']} {p['real']} size {p['size']} "
            f"{'fixed' if p['fixed'] else 'flexible'} threads {p['nt']} {p['mode']}")


def execute(p, env, work):
    np = seams.np
    s, o = kernels.CAT[p["k"]], p["opts"]
    kern = env.kernel(p, s, o)
    arena = seams.Arena(p["seed"])
    rng = np.random.default_rng(p["seed"])
    kw, ref, roles = kernels.make_args(s, o, p, arena, rng)
    rim_init(s, o, kw, roles, p["dirty"])
    arrays = {n: v for n, v in kw.items() if isinstance(v, np.ndarray)}
    before = {n: v.tobytes() for n, v in arrays.items()}
    init = {n: v.copy() for n, v in arrays.items()}
    where = describe(p)
    env.sched.zero()
    sigs, outs = [], []
    exp = s["ref"](ref, o)
    for k in ("sched", "sched2"):
        for n in arrays:
            arrays[n][...] = init[n]
        set_sched(env, p[k])
        kern(**kw)
        judge_memory(env, arena, f"{where} under {p[k]['pol']}")
        sigs.append(env.sched.sig())
        for n, (kind, role) in roles.items():
            if role == "i" and n in arrays and arrays[n].tobytes() != before[n]:
                raise Violation("input-modified", f"{where}: argument {n} was modified")
        for n in exp:
            kernels.compare(arrays[n], exp[n], p["real"], f"{where}: {n}", kernels.scale(s, o, p["mag"]))
        outs.append({n: arrays[n].tobytes() for n in exp})
    if outs[0] != outs[1]:
        raise Violation("schedule-dependent", f"{where}: results of {p['sched']['pol']} and {p['sched2']['pol']} differ")
    if p["again"] is not None:
        # the same arrays with other contents and coefficients
        rng = np.random.default_rng(p["again"])
        kw2, ref2, _ = kernels.make_args(s, o, p, arena, rng)
        rim_init(s, o, kw2, roles, p["dirty"])
        for n in arrays:
            arrays[n][...] = kw2[n]
            kw2[n] = arrays[n]
        held = {n: v.tobytes() for n, v in arrays.items()}
        exp2 = s["ref"](ref2, o)
        kern(**kw2)
        judge_memory(env, arena, f"{where}, called again with other values")
        for n, (kind, role) in roles.items():
            if role == "i" and n in arrays and arrays[n].tobytes() != held[n]:
                raise Violation("input-modified", f"{where}, called again with other values: argument {n} was modified")
        for n in exp2:
            kernels.compare(arrays[n], exp2[n], p["real"], f"{where}, called again with other values: {n}", kernels.scale(s, o, p["mag"]))
        outs.append({n: arrays[n].tobytes() for n in exp2})
    st = env.sched.stats()
    log = core.Log()
    log(where, sigs, [core.hashlib.sha256(q[n]).hexdigest()[:12] for q in outs for n in sorted(q)], sorted(st.items()))
    faults = {"preemption": st["preemptions"], "team smaller than requested": st["capped"],
              "dirty output memory": sum(1 for r in roles.values() if r[1] in "obr") if p["dirty"] else 0}
    return {"evals": len(outs), "stats": {k: st[k] for k in ("regions", "teams", "accesses", "barriers")},
            "faults": {k: v for k, v in faults.items() if v}, "probes": {f"{p['mode']} {p['real']}": 1}, "sigs": sigs,
            "digest": log.digest(), "nontrivial": st["teams"] > 0,
            "distinct": f"{core.canon([p['k'], p['opts'], p['real'], bool(p['fixed']), p['mode'], p['nt']])}{sigs}"}


def shrink(p):
    s = kernels.CAT[p["k"]]
    lo = kernels.min_size(s, p["opts"])
    for ch in ({"pad": None}, {"style": "uniform"}, {"mag": 1.0}, {"dirty": False}, {"again": None}):
        if any(p[k] != v for k, v in ch.items()):
            yield dict(p, **ch)
    for k in ("sched", "sched2"):
        for ch in ({"pol": "serial"}, {"pol": "reverse"}, {"cap": 0}, {"den": 2}):
            if any(p[k][a] != b for a, b in ch.items()):
                yield dict(p, **{k: dict(p[k], **ch)})
    for i, n in enumerate(p["size"]):
        for m in (lo, (n + lo) // 2, n - 1):
            if lo <= m < n:
                size = list(p["size"])
                size[i] = m
                yield dict(p, size=size, fixed=size if p["fixed"] else None)
    for nt in (2,):
        if p["nt"] not in (nt, False):
            yield dict(p, nt=nt)


def catalog_groups(seed, tier, dim, names, tag):
    """Every kernel with every option set; sizes, precision, threads and schedules vary."""
    per = 8 if tier == "quick" else 10
    core_g, more = [], []
    rng = core.rng_for(seed, tag)
    jobs = [(n, o) for n in names for o in kernels.option_sets(kernels.CAT[n])]
    for r in range(12 if tier == "quick" else 400):
        for i, (n, o) in enumerate(jobs):
            # over the rounds every kernel is seen in both precisions and both builds
            real = ["f4", "f8"][(i + r + seed) % 2]
            mode = ["fine", "coarse", "fine", "fine"][((i // 2) + r + seed) % 4]
            cfg = config(rng, n, o, mode, real)
            (core_g if r == 0 else more).append({"core": r == 0, "plans": [call_plan(rng, cfg) for _ in range(per)]})
    rng.shuffle(core_g)
    rng.shuffle(more)
    return core_g + more
