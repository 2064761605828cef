"""Orchestrator: expands a seed into plans, runs them in worker processes,
minimises and replays failures, writes the evidence file."""
import argparse
import importlib
import json
import os
import queue
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from sim import core  # noqa: E402

PY = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")
if not os.path.exists(PY):
    PY = sys.executable
WORKERS = int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
PLAN_TIMEOUT = 300


class WorkerDied(Exception):
    def __init__(self, status, at, hung=False):
        self.status, self.at, self.hung = status, at, hung


class Worker:
    def __init__(self, check, base, hashseed, tag):
        self.check, self.base, self.hashseed, self.tag = check, base, hashseed, tag
        self.p = None
        self.gen = 0

    def start(self):
        self.gen += 1
        self.err_name = tempfile.mkdtemp(prefix=f"{self.tag}.{self.gen}-", dir=self.base)
        work = os.path.join(self.err_name, "w")
        os.makedirs(work)
        env = dict(os.environ)
        env.update(
            LD_PRELOAD=os.path.join(self.base, "libsim.so"),
            PYTHONHASHSEED=str(self.hashseed),
            PYTHONDONTWRITEBYTECODE="1",
            OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="4", MKL_NUM_THREADS="1",
            HDF5_USE_FILE_LOCKING="FALSE",
            PYTHONPATH=VERIF,
        )
        self.err = open(self.err_name + ".err", "wb")
        self.p = subprocess.Popen([PY, os.path.join(HERE, "worker.py"), self.check, work],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env, cwd=work)
        self.buf = b""
        self._read(None)

    def _read(self, at, timeout=PLAN_TIMEOUT):
        end = time.monotonic() + timeout
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                self.kill()
                raise WorkerDied("timeout", at, hung=True)
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                b = os.read(self.p.stdout.fileno(), 1 << 16)
                if not b:
                    st = self.p.wait()
                    self.p = None
                    raise WorkerDied(st, at)
                self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def run(self, plans):
        """-> list of result messages.  Raises WorkerDied(at=plan index)."""
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write((json.dumps({"plans": plans}) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            self.kill()
            raise WorkerDied("pipe", 0)
        res, at = [], 0
        while True:
            m = self._read(at)
            if "done" in m:
                return res
            if "start" in m:
                at = m["start"]
                continue
            res.append(m)

    def kill(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None

    def tail(self):
        try:
            with open(self.err.name, "rb") as f:
                return f.read()[-3000:].decode("utf8", "replace")
        except OSError:
            return ""


def build_native(base):
    src = os.path.join(HERE, "native")
    subprocess.run(["gcc", "-O2", "-g", "-fPIC", "-shared", "-fno-strict-aliasing",
                    "-o", os.path.join(base, "libsim.so"),
                    os.path.join(src, "disk.c"), os.path.join(src, "sched.c"), "-ldl"],
                   check=True)


def run_single(check, base, plans, tag, hashseed=0, before=()):
    """Run the groups of plans in `before`, then `plans`, in one fresh
    process; -> (kind, info) of the last plan."""
    w = Worker(check, base, hashseed, tag)
    last = False
    try:
        for g in before:
            w.run(g)
        last = True
        res = w.run(plans)
    except WorkerDied as d:
        if last and d.at == len(plans) - 1:
            cls = "hang" if d.hung else "process-death"
            return "violation", {"cls": cls, "message": f"the process ended with status {d.status}"}
        return "harness", {"cls": "death", "message": f"worker died early: {d.status}\n{w.tail()}"}
    finally:
        w.kill()
    m = res[-1]
    for k in ("violation", "harness"):
        if k in m:
            return k, m[k]
    return "ok", m["ok"]


class Run:
    def __init__(self, check, tier, seed, base):
        self.check, self.tier, self.seed, self.base = check, tier, seed, base
        self.mod = importlib.import_module(f"sim.checks.{check.lower()}")
        self.lock = threading.Lock()
        self.results = []          # (group index, plan index, plan, ok)
        self.failures = []         # (group index, plan index, group plans, kind, info)
        self.stop = threading.Event()
        self.digest_checked = 0
        self.digest_bad = []
        self.notes = []

    def go(self, groups, budget):
        q = queue.Queue()
        core_left = sum(1 for g in groups if g.get("core"))
        for gi, g in enumerate(groups):
            if g.get("core"):
                q.put(gi)
        for gi, g in enumerate(groups):
            if not g.get("core"):
                q.put(gi)
        t0 = time.monotonic()

        def loop(k):
            w = Worker(self.check, self.base, hashseed=k, tag=f"w{k}")
            w.hist = []
            try:
                while not self.stop.is_set():
                    try:
                        gi = q.get_nowait()
                    except queue.Empty:
                        return
                    g = groups[gi]
                    if not g.get("core") and time.monotonic() - t0 > budget:
                        return
                    self.do_group(w, gi, g["plans"])
                    w.hist.append(gi)
            except Exception as e:  # noqa
                import traceback
                with self.lock:
                    self.failures.append((-1, -1, [], "harness",
                                          {"cls": "orchestrator", "message": traceback.format_exc()}, []))
                self.stop.set()
            finally:
                w.kill()

        ts = [threading.Thread(target=loop, args=(k,)) for k in range(WORKERS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return core_left

    def do_group(self, w, gi, plans):
        start = 0
        while start < len(plans) and not self.stop.is_set():
            try:
                res = w.run(plans[start:])
            except WorkerDied as d:
                at = start + (d.at or 0)
                if d.at is None:
                    raise RuntimeError(f"worker failed to start: {d.status}\n{w.tail()}")
                with self.lock:
                    self.failures.append((gi, at, plans, "violation",
                                          {"cls": "hang" if d.hung else "process-death",
                                           "message": f"the process ended with status {d.status}",
                                           "stderr": w.tail()}, list(w.hist)))
                self.stop.set()
                return
            with self.lock:
                for m in res:
                    pi = start + m["i"]
                    if "ok" in m:
                        self.results.append((gi, pi, plans[pi], m["ok"]))
                    else:
                        kind = "violation" if "violation" in m else "harness"
                        self.failures.append((gi, pi, plans, kind, m[kind], list(w.hist)))
                        self.stop.set()
            return

    def determinism(self, groups, n):
        """Re-run a sample of executed groups in fresh processes under another
        hash seed and worker count; event-log digests must be identical."""
        by = {}
        for gi, pi, plan, ok in self.results:
            by.setdefault(gi, {})[pi] = ok.get("digest")
        gis = sorted(g for g in by if len(by[g]) == len(groups[g]["plans"]))
        rng = core.rng_for("determinism", self.seed)
        rng.shuffle(gis)
        gis = gis[:n]
        jobs = queue.Queue()
        for g in gis:
            jobs.put(g)

        def loop(k):
            w = Worker(self.check, self.base, hashseed=1000 + 7 * k, tag=f"d{k}")
            try:
                while True:
                    try:
                        g = jobs.get_nowait()
                    except queue.Empty:
                        return
                    plans = groups[g]["plans"][:12]
                    try:
                        res = w.run(plans)
                    except WorkerDied:
                        with self.lock:
                            self.digest_bad.append((g, 0, "died"))
                        return
                    with self.lock:
                        for m in res:
                            self.digest_checked += 1
                            d = m.get("ok", {}).get("digest")
                            if d != by[g][m["i"]]:
                                self.digest_bad.append((g, m["i"], f"{by[g][m['i']]} != {d}"))
            finally:
                w.kill()

        ts = [threading.Thread(target=loop, args=(k,)) for k in range(max(1, WORKERS // 2 + 1))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def minimise(run, plan, info, deadline):
    """Greedy reduction.  Candidates are tried in one process; one that fails
    with the same class is kept only if it also does so in a fresh process
    (the process of the attempts may carry state of earlier ones)."""
    if not hasattr(run.mod, "shrink"):
        return plan, info, 0
    tried, n = set(), 0
    improved = True
    w = Worker(run.check, run.base, 0, f"m{time.monotonic_ns()}")
    try:
        while improved and time.monotonic() < deadline:
            improved = False
            for cand in run.mod.shrink(plan):
                key = core.canon(cand)
                if key in tried or key == core.canon(plan):
                    continue
                tried.add(key)
                if time.monotonic() > deadline:
                    break
                n += 1
                try:
                    m = w.run([cand])[-1]
                except WorkerDied as d:
                    m = {"violation": {"cls": "hang" if d.hung else "process-death", "message": str(d.status)}}
                v = m.get("violation")
                if v and v["cls"] == info["cls"]:
                    k, v = run_single(run.check, run.base, [cand], f"f{n}")
                    if k == "violation" and v["cls"] == info["cls"]:
                        plan, info, improved = cand, v, True
                        break
                    w.kill()        # the next attempt starts a new process
    finally:
        w.kill()
    return plan, info, n


def minimise_history(run, before, plan, info, deadline):
    """Reduce the plans executed before a failing one, which it needs: drop
    halves, quarters, ... and finally single plans; every attempt runs in a
    fresh process.  -> (history as one list of plans, plan, info, attempts)."""
    n = 0

    def fails(hist, pl):
        nonlocal n
        n += 1
        k, i = run_single(run.check, run.base, [pl], f"h{n}", before=[[p] for p in hist])
        return i if k == "violation" and i["cls"] == info["cls"] else None

    hist = [p for g in before for p in g]
    size = len(hist)
    while size >= 1 and hist and time.monotonic() < deadline:
        at, cut = len(hist), False
        while at > 0 and time.monotonic() < deadline:
            lo = max(0, at - size)
            cand = hist[:lo] + hist[at:]
            i = fails(cand, plan)
            if i:
                hist, info, cut = cand, i, True
            at = lo
        if size == 1 and not cut:
            break
        size = max(1, size // 2) if size > 1 else (1 if cut else 0)
    improved = hasattr(run.mod, "shrink")
    while improved and time.monotonic() < deadline:
        improved = False
        for cand in run.mod.shrink(plan):
            if time.monotonic() > deadline:
                break
            i = fails(hist, cand)
            if i:
                plan, info, improved = cand, i, True
                break
    return hist, plan, info, n


def known_findings(check):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"]
                if k.get("property") == check and k.get("status") == "known"]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--digests", help="write every plan's digest here")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    base = tempfile.mkdtemp(prefix=f"sim-{a.check}-")
    try:
        return real_main(a, t0, base)
    finally:
        if not os.environ.get("SIM_KEEP"):
            shutil.rmtree(base, ignore_errors=True)


def say(*x):
    print(*x, flush=True)


def real_main(a, t0, base):
    build_native(base)
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        kind, info = run_single(r["property"], base, [r["plan"]], "r", before=r.get("before", ()))
        if kind == "violation":
            say(f"replayed: {info['cls']}: {info['message']}")
            say(f"VIOLATION property={r['property']} replay={a.replay}")
            return 1
        if kind == "harness":
            say(info["message"])
            return 2
        say("replay ran without a violation")
        return 0

    run = Run(a.check, a.tier, a.seed, base)
    mod = run.mod
    say(f"check {a.check} tier={a.tier} seed={a.seed} workers={WORKERS}")
    groups = mod.groups(a.seed, a.tier)
    budget = a.budget or mod.BUDGET[a.tier]
    run.go(groups, budget)
    t_explore = time.monotonic() - t0

    rc, violations, replay = 0, 0, None
    findings = known_findings(a.check)
    # failures: earliest group first, harness errors last
    fails = sorted(run.failures, key=lambda f: (f[3] != "violation", f[0], f[1]))
    for gi, pi, plans, kind, info, hist in fails:
        if kind == "harness":
            say(f"HARNESS ERROR ({info['cls']}): {info['message']}")
            rc = rc or 2
            continue
        say(f"group {gi} plan {pi}: {info['cls']}: {info['message'][:600]}")
        plan = plans[pi]
        # the history the failure needs: none, its own group, or everything
        # its process executed before
        own = [plans[:pi]] if pi else []
        full = [groups[h]["plans"] for h in hist] + own
        for before in ([], own, full, [], full):
            k, i2 = run_single(a.check, base, [plan], "c0", before=before)
            if k == "violation":
                break
        if k != "violation" and info["cls"] in ("process-death", "hang"):
            say("HARNESS ERROR: the failure did not reproduce in a fresh process "
                f"({k}); reported by {info}")
            rc = rc or 2
            continue
        if k != "violation":
            # the code depends on something outside the simulator (addresses,
            # the calendar); report what was seen, with the whole history
            say("the failure was seen once, and in none of the re-executions of its history")
            i2, steps = info, 0
        elif before:
            before, plan, i2, steps = minimise_history(run, before, plan, i2, time.monotonic() + 120)
            before = [[p] for p in before]
        else:
            plan, i2, steps = minimise(run, plan, i2, time.monotonic() + 90)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = os.path.join(VERIF, "replays", f"{a.check}-{core.plan_id(plan)}.json")
        rec = {"property": a.check, "seed": a.seed, "tier": a.tier, "group": gi, "index": pi,
               "violation": {"cls": i2["cls"], "message": i2["message"]},
               "minimiser_executions": steps, "plan": plan}
        if k != "violation":
            rec["reproduced"] = False
        if before:
            rec["before"] = before
        with open(replay, "w") as f:
            json.dump(rec, f, indent=1, sort_keys=True)
        violations += 1
        say(f"violated: {i2['cls']}: {i2['message'][:1500]}")
        say(f"plan: {core.canon(plan)[:1500]}")
        if before:
            say(f"after {len(before)} earlier plans of the same process, see the replay file")
        say(f"VIOLATION property={a.check} replay={replay}")
        rc = 1
        break

    if rc == 0:
        n_det = {"quick": 4, "thorough": 24}[a.tier]
        run.determinism(groups, getattr(mod, "DETERMINISM", {}).get(a.tier, n_det))
        if run.digest_bad:
            say(f"HARNESS ERROR: event logs differ between executions: {run.digest_bad[:5]}")
            rc = 2
    if a.digests:
        with open(a.digests, "w") as f:
            json.dump({f"{g}/{p}": ok.get("digest") for g, p, _, ok in run.results}, f, indent=0, sort_keys=True)
    evidence(a, run, groups, t0, t_explore, violations)
    # known findings are exercised by dedicated plans whose result says so
    hit = {}
    for _, _, _, ok in run.results:
        for k in ok.get("known", []):
            hit[k] = hit.get(k, 0) + 1
    for f in findings:
        if rc == 0 and f["key"] in hit:
            say(f"KNOWN-FINDING: property={a.check} {f['what']}")
    unlisted = [k for k in hit if k not in [f["key"] for f in findings]]
    if unlisted and rc == 0:
        say(f"HARNESS ERROR: finding keys not listed: {unlisted}")
        rc = 2
    say(f"{a.check}: {len(run.results)} simulated runs, {time.monotonic() - t0:.1f}s, rc={rc}")
    return rc


def evidence(a, run, groups, t0, t_explore, violations):
    tot, faults, probes, sigs, distinct = {}, {}, {}, set(), set()
    evals = 0
    samples = []
    for gi, pi, plan, ok in sorted(run.results, key=lambda r: (r[0], r[1])):
        evals += ok.get("evals", 1)
        for k, v in ok.get("stats", {}).items():
            tot[k] = tot.get(k, 0) + v
        for k, v in ok.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in ok.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + v
        sigs.update(ok.get("sigs", []))
        if ok.get("nontrivial", True):
            distinct.add(ok.get("distinct") or core.plan_id(plan))
    rs = sorted(run.results, key=lambda r: (r[0], r[1]))
    for k in range(0, len(rs), max(1, len(rs) // 3)):
        samples.append({"plan": rs[k][2], "digest": rs[k][3].get("digest")})
        if len(samples) == 3:
            break
    if not samples and run.failures:
        samples = [{"failed_plan": run.failures[0][2][run.failures[0][1]] if run.failures[0][2] else None}]
    hours = max(t_explore, 1e-9) / 3600
    mod = run.mod
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE,
        "samples": samples,
        "simulated_runs": len(run.results),
        "groups_planned": len(groups),
        "groups_executed": len({r[0] for r in run.results}),
        "runs_per_hour": round(len(run.results) / hours),
        "seed_note": "every run is driven by its own sub-seed of VERIF_SEED recorded in its plan, so runs per hour are seeds per hour",
        "simulated_time": "logical time; see the step, line event, disk operation and access counts under 'simulated'",
        "simulated": tot,
        "faults_injected": faults,
        "probes_hit": probes,
        "determinism_reexecutions": run.digest_checked,
        "determinism_mismatches": len(run.digest_bad),
        "components": mod.COMPONENTS,
    }
    if sigs:
        cov["distinct_interleavings"] = len(sigs)
        cov["interleaving_measure"] = getattr(mod, "MEASURE", "hash of the simulated scheduler's decision sequence")
    ev = {"property": a.check, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
          "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.monotonic() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{a.check}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)


if __name__ == "__main__":
    sys.exit(main())
