"""C06: every 2D grid kernel equals its documented operator under every thread schedule."""
from sim import gridrun, kernels

Env, execute, shrink, end_group = gridrun.Env, gridrun.execute, gridrun.shrink, gridrun.end_group
DIM = 2
BUDGET = {"quick": 40, "thorough": 1500}
RULE = ("a run is one generated kernel (every generator and option set, both precisions, fixed and flexible "
        "size, with and without threads) called on seeded fields under two seeded schedules of the "
        "simulated OpenMP team; non-trivial: at least one team of two or more threads ran; distinct: by "
        "kernel configuration and scheduling decisions")
COMPONENTS = {"real": ["kernel generators", "pystencils code generation", "gcc-compiled kernels (fine: -O1 with "
                       "access instrumentation; coarse: the shipped -Ofast flags)"],
              "simulated": ["OpenMP runtime and threads", "memory the arrays live in"], "stub": []}
ASSUMPTIONS = ["sequentially consistent memory: weaker orderings are covered through the race detector only"]
DETERMINISM = {"quick": 3, "thorough": 24}
NAMES = [n for n, s in kernels.CAT.items() if s["dim"] == DIM and not s.get("stateful")]


def groups(seed, tier):
    return gridrun.catalog_groups(seed, tier, DIM, NAMES, "C06")
