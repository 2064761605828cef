"""Shared vocabulary of the simulator: violations, seeded choices, event logs."""
import hashlib
import json
import random


class Violation(Exception):
    """The property under check is broken.  `cls` names the failure class; the
    minimiser keeps a smaller plan only if it fails with the same class."""

    def __init__(self, cls, message):
        super().__init__(f"{cls}: {message}")
        self.cls = cls
        self.message = message


class HarnessError(Exception):
    """Something outside the code under test went wrong."""


class SimCrash(BaseException):
    """Injected process death at a Python-level point (never caught by the code)."""


def rng_for(*parts):
    return random.Random("/".join(str(p) for p in parts))


def canon(obj):
    return json.dumps(obj, sort_keys=True, separators=(",", ":"))


def plan_id(plan):
    return hashlib.sha256(canon(plan).encode()).hexdigest()[:12]


class Log:
    """Append-only event log of one simulated execution; only its digest leaves
    the worker.  Never draws random numbers, never reads a clock."""

    def __init__(self, keep=0):
        self.h = hashlib.sha256()
        self.n = 0
        self.keep = keep
        self.lines = []

    def __call__(self, *items):
        line = " ".join(str(i) for i in items)
        self.h.update(line.encode())
        self.h.update(b"\n")
        self.n += 1
        if len(self.lines) < self.keep:
            self.lines.append(line)

    def digest(self):
        return self.h.hexdigest()[:16]


def hash_array(a):
    import numpy as np

    a = np.ascontiguousarray(a)
    return hashlib.sha256(a.tobytes()).hexdigest()[:12]


def subset(rng, items, p=0.5):
    return [i for i in items if rng.random() < p]
