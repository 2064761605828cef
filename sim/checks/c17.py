"""C17: operators never use more threads than they were asked to use."""
from sim import core, gridrun, kernels, seams
from sim.checks import c14
from sim.core import Violation

BUDGET = {"quick": 25, "thorough": 900}
RULE = ("a run constructs several solvers, forcings, communicators and kernels with different numbers of threads (or none) "
        "and uses them in a seeded order, some calls interrupted; the simulated OpenMP runtime and the FFT planner report the "
        "largest team asked for in every construction and call; non-trivial: a team of two or more threads was asked for; "
        "distinct: by plan hash")
COMPONENTS = {"real": ["Poisson solvers, FFT wrappers, forcings, communicators, all grid kernels", "gcc-compiled kernels", "FFTW"],
              "simulated": ["OpenMP runtime and threads", "asynchronous exceptions"], "stub": ["numba (functions run as Python)"]}
ASSUMPTIONS = ["threads inside BLAS, scipy and numba are not visible to the simulator",
               "FFTW asks OpenMP for a full team and uses as many members as planned; its plans are judged instead"]
DETERMINISM = {"quick": 3, "thorough": 24}
KINDS = ["poisson", "vbf", "brink", "fft", "kernel", "kernel", "kernel", "kernel", "kernel", "fastdiag", "comm"]


class Env(c14.Env):
    pass


def gen_nt(rng, kind):
    return rng.choice([1, 2, 3, 5, 7]) if kind in ("poisson", "fft") else rng.choice([False, False, 1, 2, 3, 5, 7])


def groups(seed, tier):
    out = []
    n, c = (200, 16) if tier == "quick" else (6000, 120)
    names = sorted(kernels.CAT)
    for g in range(n):
        rng = core.rng_for(seed, "C17", g)
        jobs = []
        for k in range(6):
            kind = KINDS[(g * 6 + k) % len(KINDS)]
            # over the groups every kernel is built
            j = c14.gen_job(rng, kind, False, [names[(g * 3 + k) % len(names)]])
            j["nt"] = gen_nt(rng, kind)
            jobs.append(j)
        plans = []
        for _ in range(3):
            ops = [{"j": rng.randrange(len(jobs)), "seed": rng.randrange(10**9), "at": rng.randrange(1000) if rng.random() < 0.2 else None,
                    "exc": rng.choice(["interrupt", "memory"])} for _ in range(12)]
            order = list(range(len(jobs)))
            rng.shuffle(order)
            for o, k in zip(ops, order):
                o["j"] = k              # each one at least once
            rng.shuffle(ops)
            plans.append({"jobs": jobs, "ops": ops, "sched": gridrun.gen_sched(rng, "coarse"), "first": rng.random() < 0.5})
        out.append({"core": g < c, "plans": plans})
    return out


def limit(j):
    if j["kind"] in ("comm", "fastdiag"):
        return 1
    return int(j["nt"]) or 1


def judge(j, where):
    used = seams.lib.simsched_stat(8)
    if used > limit(j):
        raise Violation("too-many-threads", f"{where}: asked the OpenMP runtime for a team of {used}, but was given num_threads={j['nt']}")
    plan = max(seams.fftw_threads, default=1)
    if plan > limit(j):
        raise Violation("too-many-threads", f"{where}: planned an FFT for {plan} threads, but was given num_threads={j['nt']}")
    return max(used, plan)


def execute(p, env, work):
    seams.build_mode("coarse", env.work)
    seams.dirty.seed(5)
    root = seams.fresh_dir(work, "c17")
    js = {}
    log = core.Log()
    env.sched.zero()
    evals, top, faults, probes = 0, 0, {}, {}

    def start():
        gridrun.set_sched(env, p["sched"])
        seams.fftw_threads.clear()

    def make(k):
        start()
        js[k] = c14.Job(p["jobs"][k], k, root)
        js[k].build()
        return judge(p["jobs"][k], f"constructing {c14.describe(p['jobs'][k])}")

    if p["first"]:
        for k in range(len(p["jobs"])):
            top = max(top, make(k))
    for n, op in enumerate(p["ops"]):
        k = op["j"]
        j = p["jobs"][k]
        if k not in js:
            top = max(top, make(k))
        where = f"call {n} of {c14.describe(j)}"
        start()
        r = {"seed": op["seed"]}
        at = None
        if op["at"] is not None:
            total, _, _, err = seams.lines(lambda: js[k].act(r, 1, []))
            if err:
                raise err
            at = op["at"] * total // 1000
        _, fired, _, err = seams.lines(lambda: js[k].act(r, 2, []), at, op["exc"])
        if err is not None and not fired:
            raise err
        got = judge(j, where)
        evals += 1
        top = max(top, got)
        log(n, k, got)
        probes[j["kind"] if j["kind"] != "kernel" else j["k"]] = 1
        if fired:
            faults[op["exc"]] = faults.get(op["exc"], 0) + 1
            js.pop(k)                   # the owner starts over
    st = env.sched.stats()
    return {"evals": evals, "stats": {k: st[k] for k in ("regions", "teams")}, "faults": faults, "probes": probes, "sigs": [],
            "digest": log.digest(), "nontrivial": top > 1, "distinct": core.canon(p)}


def shrink(p):
    for i in range(len(p["ops"])):
        if len(p["ops"]) > 1:
            yield dict(p, ops=p["ops"][:i] + p["ops"][i + 1:])
    for i, o in enumerate(p["ops"]):
        if o["at"] is not None:
            yield dict(p, ops=p["ops"][:i] + [dict(o, at=None)] + p["ops"][i + 1:])
    if p["first"]:
        yield dict(p, first=False)
    used = sorted({o["j"] for o in p["ops"]})
    if len(used) < len(p["jobs"]):
        yield dict(p, jobs=[p["jobs"][k] for k in used], ops=[dict(o, j=used.index(o["j"])) for o in p["ops"]])
