"""Double-precision references for Lagrangian/Eulerian transfer, by direct sums over
the whole grid (independent of any nearest-cell bookkeeping)."""
from sim import seams
from sim.core import Violation


def delta1(r, kind):
    """One-dimensional regularised delta times dx, r in cells."""
    np = seams.np
    a = np.abs(r)
    if kind == "cosine":
        v = 0.25 * (1 + np.cos(0.5 * np.pi * a))
    else:
        v = np.where(a < 1, 3 - 2 * a + np.sqrt(np.abs(1 + 4 * a - 4 * a * a)),
                     5 - 2 * a - np.sqrt(np.abs(-7 + 12 * a - 4 * a * a))) / 8
    return np.where(a < 2, v, 0.0)


def weights(pos, size, dx, shift, kind):
    """(N, *size): dx**dim * delta(x - X_i) for every node and every grid point.
    pos is (dim, N) in x, y, z order; size is in (z,) y, x order."""
    np = seams.np
    d = len(size)
    per = []
    for k in range(d):
        x = shift + dx * np.arange(size[d - 1 - k])
        per.append(delta1((x[None, :] - pos[k][:, None]) / dx, kind))      # (N, n_k)
    if d == 2:
        return per[1][:, :, None] * per[0][:, None, :]
    return per[2][:, :, None, None] * per[1][:, None, :, None] * per[0][:, None, None, :]


def gather(w, f):
    """Sum over the grid, f (*size) or (c, *size)."""
    np = seams.np
    n = w.shape[0]
    w2 = w.reshape(n, -1)
    if f.ndim == w.ndim - 1:
        return w2.dot(f.reshape(-1))
    return np.stack([w2.dot(c.reshape(-1)) for c in f])


def scatter(w, q, dx):
    """Sum over nodes of q_i delta(x - X_i), q (N,) or (c, N)."""
    np = seams.np
    n, size = w.shape[0], w.shape[1:]
    w2 = w.reshape(n, -1) / dx ** len(size)
    if q.ndim == 1:
        return q.dot(w2).reshape(size)
    return np.stack([c.dot(w2).reshape(size) for c in q])


def close(got, exp, tol, scale, cls, where):
    np = seams.np
    got = np.asarray(got, float)
    if got.shape != exp.shape:
        raise Violation(cls, f"{where}: shape {got.shape}, expected {exp.shape}")
    bad = ~(np.abs(got - exp) <= tol * scale)
    if bad.any():
        i = tuple(int(k[0]) for k in np.nonzero(bad)) if got.ndim else ()
        raise Violation(cls, f"{where} at {list(i)}: {float(got[i])!r}, expected {float(exp[i])!r}")


POS_STYLES = ["uniform", "uniform", "on grid", "mid cell", "near grid line", "coincident", "cluster", "edge", "line"]


def positions(rng, n, size, dx, shift, style, dtype):
    """Node positions (dim, n) whose whole support lies inside the grid."""
    np = seams.np
    d = len(size)
    lo = np.ones(d)                                                        # nearest index >= 1
    hi = np.array([size[d - 1 - k] - 3 for k in range(d)], float)          # nearest index <= n-3
    cell = np.stack([rng.integers(int(lo[k]), int(hi[k]) + 1, n) for k in range(d)]).astype(float)
    frac = rng.uniform(0.02, 0.98, (d, n))
    if style == "on grid":
        frac[rng.random((d, n)) < 0.7] = 0.0
    elif style == "mid cell":
        frac[rng.random((d, n)) < 0.7] = 0.5
    elif style == "near grid line":
        frac[...] = np.where(rng.random((d, n)) < 0.5, 1e-3, 1 - 1e-3)
    elif style == "coincident":
        cell[...] = cell[:, :1]
        frac[...] = frac[:, :1]
    elif style == "cluster":
        cell[...] = cell[:, :1]
    elif style == "edge":
        for k in range(d):
            pick = rng.random(n)
            cell[k] = np.where(pick < 0.4, lo[k], np.where(pick < 0.8, hi[k], cell[k]))
    elif style == "line":
        k = int(rng.integers(0, d))
        cell[k], frac[k] = cell[k, 0], frac[k, 0]
    # exact grid lines at the ends could round to the cell outside the allowed range
    frac = np.where((frac < 1e-2) & (cell <= lo[:, None]), 0.01, frac)
    return (shift + dx * (cell + frac)).astype(dtype)


def drift(rng, pos, size, dx, shift):
    """A slow body: every node moves by a tiny fraction of a cell, staying in the allowed range."""
    np = seams.np
    d = len(size)
    cells = (np.array(pos, float) - shift) / dx
    cells += rng.uniform(-1, 1, cells.shape) * 10.0 ** rng.integers(-7, 0)
    for k in range(d):
        cells[k] = np.clip(cells[k], 1.01, size[d - 1 - k] - 2.01)
    return (shift + dx * cells).astype(pos.dtype)


def gen_units(rng, real):
    """Powers of ten multiplying all lengths and all velocities of a run (1 for most)."""
    top = 5 if real == "f4" else 8
    L = 10.0 ** rng.choice([-top, -3, 3, top]) if rng.random() < 0.3 else 1.0
    W = 10.0 ** rng.choice([-6, -3, 3]) if rng.random() < 0.3 else 1.0
    return L, W


def min_size():
    return 4
