"""C19: long histories of calls accumulate no files, handles, threads or arrays and leave
process-wide settings alone."""
import gc
import os
import random
import signal
import sys
import warnings

from sim import core, gridrun, iocase, kernels, seams
from sim.checks import c14
from sim.core import Violation

BUDGET = {"quick": 30, "thorough": 1200}
RULE = ("a run lets one to three solvers, forcings, communicators, kernels or checkpoint writers work through 36 and more calls, with "
        "interrupted, refused and failing ones among them; after every call the open files, the files on the disk and the process-wide "
        "settings are compared with those before, and three times the live arrays and threads are counted; "
        "non-trivial: at least three counts were taken; distinct: by plan hash")
COMPONENTS = {"real": ["sopht.utils.IO", "Poisson solvers, FFT wrappers, forcings, communicators, grid kernels", "h5py", "libhdf5", "FFTW"],
              "simulated": ["OpenMP runtime and threads", "asynchronous exceptions", "missing and damaged files"],
              "stub": ["numba (functions run as Python)"]}
ASSUMPTIONS = ["memory is counted in live numpy arrays after garbage collection; growth over two successive intervals of twelve "
               "calls of the same kind is a leak, anything allocated once is not",
               "handles libhdf5 itself keeps after a failing disk are out of scope, so disks do not fail here"]
DETERMINISM = {"quick": 2, "thorough": 16}
KINDS = ["io", "vbf", "poisson", "io", "kernel", "brink", "io", "fft", "comm", "kernel", "io", "fastdiag", "vbf"]
STEPS = 12


class Env(c14.Env):
    pass


def groups(seed, tier):
    out = []
    n, c = (200, 16) if tier == "quick" else (6000, 120)
    names = sorted(kernels.CAT)
    for g in range(n):
        rng = core.rng_for(seed, "C19", g)
        plans = []
        for k in range(2):
            jobs = []
            for m in range(rng.choice([1, 2, 3])):
                kind = KINDS[(g * 2 + k + 5 * m) % len(KINDS)]
                jobs.append(c14.gen_job(rng, kind, False, [names[(g * 5 + k + m) % len(names)]]))
            plans.append({"jobs": jobs, "seed": rng.randrange(10**9), "fail": rng.choice([0, 0, 3, 6]), "sched": gridrun.gen_sched(rng, "coarse"),
                          "same": rng.random() < 0.3})
        out.append({"core": g < c, "plans": plans})
    return out


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[f] = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            pass
    return {k: v for k, v in out.items() if not v.startswith("/proc")}


def settings():
    np = seams.np
    st = np.random.get_state()
    return {"numpy random state": core.hash_array(st[1]) + str(st[2:]), "random state": hash(random.getstate()),
            "floating-point error handling": sorted(np.geterr().items()), "print options": repr(sorted(np.get_printoptions().items(), key=str)),
            "environment": dict(os.environ), "working directory": os.getcwd(), "module search path": list(sys.path),
            "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGALRM)],
            "warning filters": list(warnings.filters), "recursion limit": sys.getrecursionlimit(), "umask": umask(),
            "OpenMP threads": seams.lib.omp_get_max_threads(), "garbage collector": gc.isenabled()}


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def count():
    """(live arrays, their bytes, threads)"""
    np = seams.np
    for _ in range(3):
        gc.collect()
    a = [o.nbytes for o in gc.get_objects() if isinstance(o, np.ndarray)]
    return len(a), sum(a), len(os.listdir("/proc/self/task"))


def failing_io(job, r, rng):
    """A refused load or save; nothing may stay behind."""
    w = job.obj
    good = os.path.join(job.dir, "good.h5")
    how = r["how"]
    if not os.path.exists(good):
        w.io.save(good, 1.0)
    if how == "missing":
        w.io.load(os.path.join(job.dir, "missing.h5"))
    elif how == "nodir":
        w.io.save(os.path.join(job.dir, "nowhere", "a.h5"), 1.0)
    else:
        with open(good, "rb") as f:
            data = f.read()
        cut = os.path.join(job.dir, "cut.h5")
        with open(cut, "wb") as f:
            f.write(data[: len(data) * rng.randrange(100) // 100] if how == "cut" else b"no checkpoint" * 40)
        w.io.load(cut)


def mismatched(job, rng):
    """Load by an object that wants more than the file holds."""
    import copy

    good = os.path.join(job.dir, "good.h5")
    if not os.path.exists(good):
        job.obj.io.save(good, 1.0)
    cfg = copy.deepcopy(job.obj.cfg)
    cfg["lag"].append({"name": "not_there", "N": 3, "connect": False, "dtype": "f8", "layout": "C", "fields": []})
    iocase.World(cfg, 1).io.load(good)


def world(p, env, root):
    seams.dirty.seed(p["seed"])
    seams.build_mode("coarse", env.work)
    cwd = os.path.join(root, "cwd")
    os.makedirs(cwd)
    os.chdir(cwd)
    rng = random.Random(p["seed"])
    js = []
    for i, j in enumerate(p["jobs"]):
        gridrun.set_sched(env, {"sseed": 1, "pol": "serial", "den": 16, "cap": 0})
        js.append(c14.Job(j, i, root))
        before = settings()
        js[-1].build()
        compare(before, settings(), f"constructing {c14.describe(j)}")
    gridrun.set_sched(env, p["sched"])
    counts, n, faults = [], 0, {}
    warm = True
    for part in range(4):
        for step in range(STEPS):
            for j in js:
                seed = p["seed"] if p["same"] else p["seed"] + n
                n += 1
                kind = j.j["kind"]
                where = f"call {n} of {c14.describe(j.j)}"
                fired = False
                fail = not warm and p["fail"] and rng.randrange(p["fail"]) == 0
                f0, s0 = fds(), settings()
                t0 = files(cwd, root)
                err = None
                if fail and kind == "io" and rng.random() < 0.7:
                    how = rng.choice(["missing", "nodir", "cut", "foreign", "mismatch"])
                    where += f" ({how})"
                    faults[how] = faults.get(how, 0) + 1
                    try:
                        if how == "mismatch":
                            mismatched(j, rng)
                        else:
                            failing_io(j, {"how": how}, rng)
                    except Exception as e:
                        err = type(e).__name__
                    if err is None and how in ("missing", "nodir", "mismatch", "foreign"):
                        raise Violation("accepted", f"{where} returned normally")
                elif fail:
                    at = rng.randrange(60)
                    exc = rng.choice(["interrupt", "memory"])
                    _, fired, _, e = seams.lines(lambda: j.act({"seed": seed}, 1, []), at, exc)
                    if e is not None and not fired:
                        raise e
                    if fired:
                        faults[exc] = faults.get(exc, 0) + 1
                    e = None
                    if fired and kind not in c14.STATELESS:
                        j.build()
                        f0 = dict(f0, **{k: v for k, v in fds().items() if not v.startswith(root)})
                else:
                    j.act({"seed": seed}, 1, [])
                compare(s0, settings(), where)
                allowed = set()
                if kind == "io":
                    for name in (j.j["file"], "good.h5", "cut.h5"):
                        allowed |= {os.path.join(j.dir, c) for c in iocase.companions(name, j.obj.gnames)}

                def left():
                    new = [v for k, v in fds().items() if f0.get(k) != v and (v.startswith(root) or not warm)]
                    if new:
                        gc.collect()
                        new = [v for k, v in fds().items() if f0.get(k) != v and (v.startswith(root) or not warm)]
                    if new:
                        return "open-file", f"left open: {sorted(new)}", new
                    extra = sorted(files(cwd, root) - t0 - allowed)
                    return ("stray-file", f"left behind: {extra}", extra) if extra else None

                bad = left()
                if bad and fired:
                    # between the creation of a file and the statement that takes
                    # care of it there is a line no code can protect
                    places, f0all = 1, f0
                    for near in range(max(0, at - 7), at + 8):
                        tidy(bad)
                        f0 = dict(f0all, **fds())
                        bad2 = None
                        if near != at:
                            seams.lines(lambda: j.act({"seed": seed}, 1, []), near, exc)
                            bad2 = left()
                            places += bool(bad2)
                        tidy(bad2)
                    j.build()
                    if places < 5:
                        bad = None
                    else:
                        where += f", interrupted at any of {places} lines"
                if bad:
                    raise Violation(bad[0], f"{where}: {bad[1]}")
        warm = False
        counts.append(count())
    for k, what in ((0, "live arrays"), (1, "bytes in live arrays"), (2, "threads")):
        a = [c[k] for c in counts]
        if a[1] < a[2] < a[3] and (k != 0 or a[3] - a[1] >= STEPS // 2) and (k != 1 or counts[3][0] - counts[1][0] >= STEPS // 2 or a[3] - a[1] > 4096):
            raise Violation("leak", f"{[c14.describe(j.j) for j in js]}: {what} after every {STEPS} calls: {a}")
    return counts, n, faults


def tidy(bad):
    if bad and bad[0] == "stray-file":
        for f in bad[2]:
            if os.path.exists(f):
                os.remove(f)


def files(*roots):
    out = set()
    for r in roots:
        for d, ds, fs in os.walk(r):
            out |= {os.path.join(d, f) for f in fs}
    return out


def compare(a, b, where):
    for k in a:
        if a[k] != b[k]:
            raise Violation("process-state", f"{where}: {k} of the process changed")


def execute(p, env, work):
    root = seams.fresh_dir(work, "c19")
    code, out = seams.forked(lambda: world(p, env, root))
    if out is None:
        raise Violation("process-death", f"process ended with status {code}")
    if out[0] == "exc":
        n, s, tb, cls, msg = out[1]
        if cls:
            raise Violation(cls, msg)
        if seams.SRC in tb:
            raise Violation("exception", f"{n}: {s} {tb[-500:]}")
        raise core.HarnessError(tb)
    counts, n, faults = out[1]
    log = core.Log()
    log([c[0] - counts[0][0] for c in counts], n, sorted(faults.items()))
    return {"evals": n, "stats": {"calls": n}, "faults": faults, "probes": {j["kind"]: 1 for j in p["jobs"]}, "sigs": [],
            "digest": log.digest(), "nontrivial": len(counts) > 2, "distinct": core.canon(p)}


def shrink(p):
    n = len(p["jobs"])
    if n > 1:
        for i in range(n):
            yield dict(p, jobs=p["jobs"][:i] + p["jobs"][i + 1:])
    if p["fail"]:
        yield dict(p, fail=0)
    if not p["same"]:
        yield dict(p, same=True)
