"""One simulated-world process: executes plans sent by the orchestrator."""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def classify(e):
    """Violation if the failure surfaced in the code under test, else harness."""
    from sim import core, seams

    if isinstance(e, core.Violation):
        return "violation", e.cls, e.message
    tb = traceback.extract_tb(e.__traceback__)
    if not isinstance(e, (core.HarnessError, seams.Injected)):
        for fr in tb:
            if fr.filename.startswith(seams.SRC):
                where = [f for f in tb if f.filename.startswith(seams.SRC)][-1]
                return ("violation", "exception",
                        f"{type(e).__name__}: {e} (in {os.path.basename(where.filename)})")
    return "harness", type(e).__name__, "".join(traceback.format_exception(type(e), e, e.__traceback__))


def main():
    check, work = sys.argv[1], sys.argv[2]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    from sim import core, seams

    seams.boot(work)
    mod = importlib.import_module(f"sim.checks.{check.lower()}")
    env = mod.Env(work) if hasattr(mod, "Env") else None
    out.write(json.dumps({"ready": 1}) + "\n")
    for line in sys.stdin:
        msg = json.loads(line)
        for i, plan in enumerate(msg["plans"]):
            out.write(json.dumps({"start": i}) + "\n")
            seams.reset(int(core.plan_id(plan), 16))
            try:
                r = mod.execute(plan, env, work)
                out.write(json.dumps({"i": i, "ok": r}) + "\n")
            except (SystemExit, GeneratorExit):
                raise
            except BaseException as e:  # noqa
                kind, cls, text = classify(e)
                out.write(json.dumps({"i": i, kind: {"cls": cls, "message": text[:4000]}}) + "\n")
        if hasattr(mod, "end_group"):
            mod.end_group(env)
        out.write(json.dumps({"done": 1}) + "\n")


if __name__ == "__main__":
    main()
    os._exit(0)
