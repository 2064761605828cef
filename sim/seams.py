"""Everything nondeterministic the code under test can reach goes through here.

* disk          - libsim.so (LD_PRELOAD) numbers and faults libc file operations
* OpenMP        - libsim.so replaces libgomp: simulated threads, seeded schedule
* memory        - arrays come from an arena with red zones; np.empty and
                  pyfftw.empty_aligned hand out dirty memory
* clocks        - time.time & co. read a simulated clock that jumps; sleeping
                  takes no time
* randomness    - random, numpy.random, os.urandom and temporary file names
                  are seeded by the plan
* FFTW planning - clock-driven FFTW_MEASURE becomes FFTW_ESTIMATE
* signals       - asynchronous exceptions are raised at a chosen line event
* caller threads- real threads, one baton, switched at line events by a seeded
                  scheduler
* numba         - absent in this sandbox: compiled functions run as Python
"""
import ctypes
import gc
import os
import random
import shutil
import sys
import threading
import types

REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.realpath(os.path.join(REPO, "sopht")) + os.sep
COARSE = ""
FINE = ("-O1 -fsanitize=thread -ffp-contract=off -fno-fast-math "
        "-fno-tree-loop-distribute-patterns")
POLICY = {"serial": 0, "reverse": 1, "random": 2, "preempt": 3, "rr": 4, "pct": 5}
DISK = {"errno": 1, "errno_from": 2, "short": 3, "eintr": 4, "crash_before": 5,
        "crash_after": 6, "torn": 7}
DISK_NAME = {v: k for k, v in DISK.items()}
OPKIND = {1: "open", 2: "write", 3: "truncate", 4: "sync", 5: "close", 6: "rename",
          7: "unlink", 8: "read", 9: "mkdir", 10: "link"}

OPNUM = {v: k for k, v in OPKIND.items()}

lib = None
np = None


# --------------------------------------------------------------------- boot
def _stub_numba():
    m = types.ModuleType("numba")

    def passthrough(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f

    for n in ("njit", "jit", "vectorize", "guvectorize", "stencil", "generated_jit"):
        setattr(m, n, passthrough)
    m.prange = range
    m.set_num_threads = lambda n: None
    m.get_num_threads = lambda: 1
    m.config = types.SimpleNamespace()
    m.types = types.ModuleType("numba.types")
    sys.modules["numba"] = m
    sys.modules["numba.types"] = m.types


def boot(work):
    """Prepare a fresh interpreter.  `work` is this worker's scratch directory."""
    global lib, np
    import json

    os.environ.pop("LD_PRELOAD", None)
    os.environ["XDG_CACHE_HOME"] = work
    os.environ["HOME"] = work
    cfg = {
        "compiler": {
            "os": "linux",
            "command": os.path.join(os.path.dirname(__file__), "native", "cc.sh"),
            "flags": "-Ofast -DNDEBUG -fPIC -march=native -fopenmp -std=c++11",
            "restrict_qualifier": "__restrict__",
        },
        "cache": {"object_cache": os.path.join(work, "coarse"), "clear_cache_on_start": False},
    }
    path = os.path.join(work, "pystencils.json")
    with open(path, "w") as f:
        json.dump(cfg, f)
    os.environ["PYSTENCILS_CONFIG"] = path
    os.environ["SIM_CC_EXTRA"] = COARSE
    lib = ctypes.CDLL(None)
    lib.simsched_set.argtypes = [ctypes.c_uint64] + [ctypes.c_int] * 4
    lib.simsched_sig.restype = ctypes.c_uint64
    lib.simsched_stat.restype = ctypes.c_long
    lib.simsched_stat.argtypes = [ctypes.c_int]
    lib.simsched_text.restype = ctypes.c_char_p
    lib.simmem_init.restype = ctypes.c_void_p
    lib.simmem_init.argtypes = [ctypes.c_size_t]
    lib.simmem_mark.argtypes = [ctypes.c_size_t, ctypes.c_size_t, ctypes.c_int]
    lib.simdisk_arm.argtypes = [ctypes.c_char_p, ctypes.c_int]
    lib.simdisk_fault.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    for f in ("simdisk_ops", "simdisk_fired", "simdisk_ops_of"):
        getattr(lib, f).restype = ctypes.c_long
    lib.simdisk_opkind.argtypes = [ctypes.c_long]

    import numpy

    np = numpy
    _stub_numba()
    import pyfftw

    pyfftw.config.PLANNER_EFFORT = "FFTW_ESTIMATE"
    real_fftw, real_empty_aligned = pyfftw.FFTW, pyfftw.empty_aligned

    class FFTW:
        """pyfftw.FFTW with planning that never reads a clock."""

        def __new__(cls, input_array, output_array, *a, **k):
            order = ("axes", "direction", "flags", "threads", "planning_timelimit")
            k.update(zip(order, a))
            a = a[len(order):]
            flags = tuple(k.get("flags", ("FFTW_MEASURE",)))
            k["flags"] = tuple("FFTW_ESTIMATE" if f in ("FFTW_MEASURE", "FFTW_PATIENT",
                                                        "FFTW_EXHAUSTIVE") else f
                               for f in flags)
            fftw_threads.append(k.get("threads", 1))
            plan = real_fftw(input_array, output_array, *a, **k)
            dirty.fill(input_array)      # FFTW_MEASURE scribbles over both arrays
            dirty.fill(output_array)
            return plan

    pyfftw.FFTW = FFTW

    def empty_aligned(*a, **k):
        r = real_empty_aligned(*a, **k)
        dirty.fill(r)
        return r

    pyfftw.empty_aligned = empty_aligned
    real_empty, real_empty_like = np.empty, np.empty_like

    def empty(*a, **k):
        r = real_empty(*a, **k)
        dirty.fill(r)
        return r

    def empty_like(*a, **k):
        r = real_empty_like(*a, **k)
        dirty.fill(r)
        return r

    np.empty, np.empty_like = empty, empty_like
    _patch_locks()
    clock.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    Arena.setup()
    gc.disable()


def build_mode(mode, work):
    """Select how kernels generated from now on are compiled."""
    from pystencils.cpu import cpujit

    os.environ["SIM_CC_EXTRA"] = FINE if mode == "fine" else COARSE
    cache = os.path.join(work, mode)
    os.makedirs(cache, exist_ok=True)
    cpujit.get_cache_config()["object_cache"] = cache


fftw_threads = []       # what every FFTW plan was asked to use


# ------------------------------------------------------------- dirty memory
class _Dirty:
    def __init__(self):
        self.on = True
        self.rng = None
        self.count = 0

    def seed(self, s):
        import numpy

        self.rng = numpy.random.default_rng(s)
        self.count = 0

    def fill(self, a):
        if not self.on or self.rng is None or a.size == 0:
            return
        self.count += 1
        if a.dtype.kind == "f":
            a[...] = (self.rng.random() - 0.5) * 2e3 + 7.0
        elif a.dtype.kind == "c":
            a[...] = complex((self.rng.random() - 0.5) * 2e3, 11.0)
        elif a.dtype.kind in "iu":
            a[...] = 3


dirty = _Dirty()


# -------------------------------------------------------- clock, randomness
class _Clock:
    """Wall clock and monotonic clock in simulated seconds.  Each reading takes
    a little time; now and then the wall clock jumps in either direction."""

    def __init__(self):
        self.seed(0)

    def seed(self, s):
        self.rng = random.Random(s)
        self.wall = 1.6e9 + self.rng.randrange(10 ** 8)
        self.mono = self.rng.random() * 1e5
        self.style = self.rng.choice(["even", "coarse", "jumpy", "stopped"])
        self.reads = 0

    def tick(self, dt=None):
        self.reads += 1
        if dt is None:
            dt = {"even": 1e-3, "coarse": 0.0 if self.rng.random() < 0.9 else 1.0,
                  "jumpy": self.rng.choice([1e-6, 1e-3, 1.0, 100.0]), "stopped": 0.0}[self.style]
        self.mono += dt
        self.wall += dt
        if self.style == "jumpy" and self.rng.random() < 0.2:
            self.wall += self.rng.choice([-86400.0, -3600.0, -1.0, 1.0, 3600.0, 1e6])

    def time(self):
        self.tick()
        return self.wall

    def monotonic(self):
        self.tick()
        return self.mono

    def sleep(self, dt):
        self.tick(max(0.0, dt))

    def stamp(self, path):
        """Give a file a modification time of the simulated file server."""
        self.tick()
        t = int(self.wall) if self.style != "even" else self.wall
        os.utime(path, (t, t))

    def install(self):
        import time

        time.time, time.monotonic, time.sleep = self.time, self.monotonic, self.sleep
        time.perf_counter = time.process_time = time.thread_time = self.monotonic
        time.time_ns = lambda: int(self.time() * 1e9)
        time.monotonic_ns = time.perf_counter_ns = time.process_time_ns = lambda: int(self.monotonic() * 1e9)
        os.urandom = random._urandom = lambda n: bytes(self.rng.randrange(256) for _ in range(n))


clock = _Clock()


class _Names:
    """Temporary file names."""

    def __init__(self, s):
        self.rng = random.Random(s)

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(self.rng.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))


def reset(s):
    """Seed every source of randomness for one plan."""
    import tempfile

    clock.seed(s)
    random.seed(s)
    np.random.seed(s % (1 << 32))
    tempfile._name_sequence = _Names(s)
    dirty.seed(s)


# -------------------------------------------------------------------- arena
class Arena:
    """Arrays for the code under test, separated by red zones."""

    SIZE = 48 << 20
    ZONE = 4096
    base = None

    @classmethod
    def setup(cls):
        addr = lib.simmem_init(cls.SIZE)
        cls.buf = (ctypes.c_ubyte * cls.SIZE).from_address(addr)
        cls.bytes = np.frombuffer(cls.buf, dtype=np.uint8)

    def __init__(self, seed):
        self.rng = random.Random(f"arena/{seed}")
        lib.simmem_clear()
        self.top = 0
        self.zones = []
        self._zone()

    def _zone(self):
        a, b = self.top, self.top + self.ZONE
        if b > self.SIZE:
            raise MemoryError("arena exhausted")
        self.bytes[a:b] = 0xA5
        self.zones.append((a, b))
        self.top = b

    def array(self, shape, dtype, data=None, pad=None):
        """A C-ordered array with a random element-aligned start address.  `pad`
        makes it a window of a larger allocation (non-contiguous view)."""
        dtype = np.dtype(dtype)
        shape = tuple(int(s) for s in shape)
        full = tuple(s + p for s, p in zip(shape, pad)) if pad else shape
        self.top = (self.top + 63) & ~63
        self.bytes[self.zones[-1][1]: self.top] = 0xA5
        off = self.top + dtype.itemsize * self.rng.randrange(0, 16)
        self.bytes[self.top: off] = 0xA5
        n = 1
        for s in full:
            n *= s
        nbytes = n * dtype.itemsize
        if off + nbytes + self.ZONE > self.SIZE:
            raise MemoryError("arena exhausted")
        self.zones.append((self.top, off))
        whole = np.frombuffer(self.buf, dtype=dtype, count=n, offset=off).reshape(full)
        self.top = off + nbytes
        self._zone()
        if pad:
            whole[...] = 12345.0
            a = whole[tuple(slice(0, s) for s in shape)]
            tmp = np.zeros(full, dtype=bool)
            tmp[tuple(slice(0, s) for s in shape)] = True
            self._windows = getattr(self, "_windows", [])
            self._windows.append((whole, ~tmp))
        else:
            a = whole
        lib.simmem_mark(off, nbytes, 1)
        a[...] = 0 if data is None else data
        return a

    def intact(self):
        for a, b in self.zones:
            if (self.bytes[a:b] != 0xA5).any():
                return False
        for whole, out in getattr(self, "_windows", []):
            if (whole[out] != 12345.0).any():
                return False
        return True


# ----------------------------------------------------------------- schedule
class Sched:
    """One seeded schedule for the simulated OpenMP teams."""

    def __init__(self):
        self.zero()

    def zero(self):
        self.base = [lib.simsched_stat(i) for i in range(8)]

    def set(self, seed, policy="serial", den=16, cap=0, track=True):
        lib.simsched_set(seed & 0xFFFFFFFFFFFFFFFF, POLICY[policy], den, cap, 1 if track else 0)

    def sig(self):
        return lib.simsched_sig()

    def stats(self):
        now = [lib.simsched_stat(i) for i in range(8)]
        names = ("regions", "teams", "preemptions", "accesses", "barriers", "capped")
        return {n: now[i] - self.base[i] for i, n in enumerate(names)}

    def faults(self):
        """(races, out_of_bounds) since set()."""
        out = []
        if lib.simsched_stat(6):
            out.append("race: " + lib.simsched_text(0).decode())
        if lib.simsched_stat(7):
            out.append("bounds: " + lib.simsched_text(1).decode())
        return out


# --------------------------------------------------------- line-event seams
_REAL_GLOBALS = {}


class Injected(KeyboardInterrupt):
    """An asynchronous exception delivered by the simulator."""


class InjectedMemoryError(MemoryError):
    """An allocation failure delivered by the simulator."""


EXC = {"interrupt": Injected, "memory": InjectedMemoryError}


def lines(fn, at=None, exc="interrupt"):
    """Run fn() counting line events inside the code under test; raise the
    chosen exception at event number `at` (0-based).  -> (events, fired, result, error)"""
    state = [0, False]

    def local(frame, event, arg):
        if event == "line":
            n = state[0]
            state[0] = n + 1
            if at is not None and n == at:
                state[1] = True
                if exc == "kill":
                    os._exit(200)
                raise EXC[exc]("injected by the simulator")
        return local

    def top(frame, event, arg):
        if frame.f_code.co_filename.startswith(SRC):
            return local
        return None

    err = res = None
    old = sys.gettrace()
    sys.settrace(top)
    try:
        res = fn()
    except BaseException as e:  # noqa
        err = e
    finally:
        sys.settrace(old)
    return state[0], state[1], res, err


class CoopLock:
    """A lock of the code under test: a waiting caller thread hands the baton on."""

    SPINS = 20000

    def __init__(self, reentrant):
        self._l, self._re, self._owner, self._n = _REAL_LOCK(), reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._re and self._owner == me:
            self._n += 1
            return True
        spins = 0
        while not self._l.acquire(False):
            b = Baton.active
            if not blocking or (timeout >= 0 and spins > 50):
                return False
            if b is None or len(b.live) < 2 or spins > self.SPINS:
                raise RuntimeError("the caller threads wait for each other for ever")
            spins += 1
            b._switch()
        self._owner, self._n = me, 1
        return True

    def release(self):
        self._n -= 1
        if self._n <= 0:
            self._owner = None
            self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


_REAL_LOCK, _REAL_RLOCK = threading.Lock, threading.RLock


def _patch_locks():
    def factory(real, re):
        def make(*a, **k):
            if sys._getframe(1).f_code.co_filename.startswith(SRC):
                return CoopLock(re)
            return real(*a, **k)
        return make

    threading.Lock, threading.RLock = factory(_REAL_LOCK, False), factory(_REAL_RLOCK, True)


class Baton:
    """Real threads of which exactly one runs; the seeded scheduler decides at
    line events inside the code under test (and at yields) who runs next."""

    active = None

    def __init__(self, seed, den, inject=None):
        self.rng = random.Random(f"baton/{seed}")
        self.den = max(1, den)
        self.inject = inject or {}           # thread -> (line event, kind of exception)
        self.count = {}
        self.fired = {}
        self.locks = []
        self.live = []
        self.cur = None
        self.switches = 0
        self.trace = []
        self.errors = {}

    def run(self, fns):
        n = len(fns)
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        self.done = threading.Semaphore(0)

        def body(i):
            self.locks[i].acquire()
            sys.settrace(self._top)
            try:
                fns[i]()
            except BaseException as e:  # noqa
                self.errors[i] = e
            finally:
                sys.settrace(None)
                self.live.remove(i)
                if self.live:
                    self._give(self.rng.choice(self.live))
                else:
                    self.done.release()

        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        Baton.active = self
        self._give(self.rng.choice(self.live))
        try:
            if not self.done.acquire(timeout=120):
                from sim.core import HarnessError

                raise HarnessError("caller threads did not finish")
        finally:
            Baton.active = None
        for t in ts:
            t.join()

    def _give(self, i):
        self.cur = i
        self.trace.append(i)
        self.locks[i].release()

    def _switch(self):
        me = self.cur
        nxt = self.rng.choice(self.live)
        if nxt != me:
            self.switches += 1
            self._give(nxt)
            self.locks[me].acquire()

    def _local(self, frame, event, arg):
        if event == "line":
            me = self.cur
            n = self.count[me] = self.count.get(me, 0) + 1
            if me in self.inject and self.inject[me][0] == n:
                self.fired[me] = self.inject[me][1]
                raise EXC[self.inject[me][1]]("injected by the simulator")
            if self.rng.randrange(self.den) == 0:
                self._switch()
        return self._local

    def _top(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(SRC):
            return self._local
        return None


# --------------------------------------------------------------------- disk
class Disk:
    """Context manager: libc file operations below `path` are simulated."""

    def __init__(self, path, faults=(), reads=False):
        self.path, self.faults, self.reads = path, faults, reads

    def __enter__(self):
        lib.simdisk_arm(self.path.encode(), 1 if self.reads else 0)
        for f in self.faults:
            lib.simdisk_fault(f["at"], DISK[f["kind"]], f.get("arg", 0),
                              OPNUM[f["op"]] if f.get("op") else 0)
        return self

    def __exit__(self, *a):
        self.ops = lib.simdisk_ops()
        self.fired = {DISK_NAME[k]: lib.simdisk_fired(k) for k in DISK_NAME if lib.simdisk_fired(k)}
        self.kinds = [lib.simdisk_opkind(i) for i in range(min(self.ops, 65536))]
        lib.simdisk_disarm()
        return False


def forked(fn):
    """Run fn() in a forked copy of this process (a simulated process that can
    die); -> (exit_status, result or None).  Status 200 is an injected death."""
    import pickle

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            out = ("ok", fn())
        except BaseException as e:  # noqa
            import traceback

            out = ("exc", (type(e).__name__, str(e), traceback.format_exc(),
                           getattr(e, "cls", None), getattr(e, "message", None)))
        try:
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
        except BaseException:  # noqa
            code = 97
        os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
    data = b"".join(chunks)
    out = pickle.loads(data) if data else None
    return code, out


def fresh_dir(work, name):
    d = os.path.join(work, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d
