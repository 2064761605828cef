"""Grid kernels: how to generate and call them, and their reference operators.

The references are plain numpy in double precision, written from the documented
operators, generic in the dimension; they share no code with /repo.  Fields are
indexed (z, y, x); vector components are ordered x, y, z, so component i runs
along axis -1 - i."""
import math

from sim import core, seams


# ------------------------------------------------------------------ operators
def inner(f, g, off=None):
    """f at the interior points (g ghost layers) displaced by off (z, y, x order)."""
    d = f.ndim
    off = off or (0,) * d
    return f[tuple(slice(g + o, n - g + o if n - g + o > 0 else 0) if n >= 2 * g else slice(0, 0)
                   for o, n in zip(off, f.shape))]


def unit(d, i, k):
    """Displacement by k along the axis of component i."""
    o = [0] * d
    o[d - 1 - i] = k
    return tuple(o)


def ddc(f, i, g=1):
    """Undivided central difference along component i."""
    return inner(f, g, unit(f.ndim, i, 1)) - inner(f, g, unit(f.ndim, i, -1))


def put(out, g, val):
    inner(out, g)[...] = val


def rim(f, w):
    m = seams.np.ones(f.shape, bool)
    m[tuple(slice(w, n - w if n - w > w else w) for n in f.shape)] = False
    return m


def reset_rim(f, w=1, v=0.0):
    f[rim(f, w)] = v


def lap(f):
    d = f.ndim
    s = -2.0 * d * inner(f, 1)
    for i in range(d):
        s = s + inner(f, 1, unit(d, i, 1)) + inner(f, 1, unit(d, i, -1))
    return s


def eno3(f, vel, inv_dx):
    """Conservative third-order ENO flux divergence, defined with two ghost layers."""
    np = seams.np
    d = f.ndim
    tot = np.zeros(inner(f, 2).shape)
    for i in range(d):
        v = vel[i]

        def q(k):
            return inner(f, 2, unit(d, i, k)) * inner(v, 2, unit(d, i, k))

        def w(k):
            return inner(v, 2, unit(d, i, k))

        front = np.where(w(0) > -w(1), q(1) / 3 + 5 * q(0) / 6 - q(-1) / 6, q(0) / 3 + 5 * q(1) / 6 - q(2) / 6)
        back = np.where(w(0) > -w(-1), q(0) / 3 + 5 * q(-1) / 6 - q(-2) / 6, q(-1) / 3 + 5 * q(0) / 6 - q(1) / 6)
        tot = tot + inv_dx * (front - back)
    return tot


def curl3(f):
    z = [ddc(f[2], 1) - ddc(f[1], 2), ddc(f[0], 2) - ddc(f[2], 0), ddc(f[1], 0) - ddc(f[0], 1)]
    return z


def curl_in(f):
    return ddc(f[1], 0) - ddc(f[0], 1)


def stretch(om, u, p):
    """Full-shape stretching flux, zero on the rim."""
    np = seams.np
    out = np.zeros(u.shape)
    for i in range(3):
        put(out[i], 1, p * sum(inner(om[j], 1) * ddc(u[i], j) for j in range(3)))
    return out


def char(phi, bw):
    np = seams.np
    return np.where(phi > bw, 1.0, np.where(np.abs(phi) > bw, 0.0,
                                            0.5 * (1 + phi / bw + np.sin(np.pi * phi / bw) / np.pi)))


def comps(a, vec):
    return [a[i] for i in range(a.shape[0])] if vec else [a]


# ---------------------------------------------------------------- references
# each takes (a, o): a maps argument names to double precision arrays/constants,
# o are the generator options; returns {output argument: full expected array}
def V(o):
    return o.get("field_type") == "vector"


def r_eno_flux(a, o):
    out = a["advection_flux"].copy()
    inner(out, 2)[...] += eno3(a["field"], a["velocity"], a["inv_dx"])
    return {"advection_flux": out}


def r_adv_step(a, o):
    n = "vector_field" if V(o) else "field"
    out = a[n].copy()
    for c, f in zip(comps(out, V(o)), comps(a[n], V(o))):
        inner(c, 2)[...] += eno3(f, a["velocity"], -a["dt_by_dx"])
    return {n: out}


def r_diff_flux(a, o):
    n, m = ("vector_field_diffusion_flux", "vector_field") if V(o) else ("diffusion_flux", "field")
    out = a[n].copy()
    for c, f in zip(comps(out, V(o)), comps(a[m], V(o))):
        put(c, 1, a["prefactor"] * lap(f))
        if o.get("reset_ghost_zone", True):
            reset_rim(c)
    return {n: out}


def r_diff_step(a, o):
    n = "vector_field" if V(o) else "field"
    out = a[n].copy()
    for c, f in zip(comps(out, V(o)), comps(a[n], V(o))):
        inner(c, 1)[...] += a["nu_dt_by_dx2"] * lap(f)
    return {n: out}


def r_brink(a, o):
    pre = "vector_" if V(o) else ""
    f, p = a[f"{pre}field"], a[f"penalty_{pre}field"]
    k = a["penalty_factor"] * a["char_field"]
    return {f"penalised_{pre}field": (f + k * p) / (1 + k)}


def r_brink_val(a, o):
    np = seams.np
    pre = "vector_" if V(o) else ""
    f = a[f"{pre}field"]
    p = np.asarray(a["penalty_val"], float)
    if V(o):
        p = p.reshape((-1,) + (1,) * (f.ndim - 1))
    k = a["penalty_factor"] * a["char_field"]
    return {f"penalised_{pre}field": (f + k * p) / (1 + k)}


def r_char(a, o):
    return {"char_func_field": char(a["level_set_field"], o["blend_width"])}


def r_sum(a, o):
    return {"sum_field": a["field_1"] + a["field_2"]}


def vals(x, f):
    return seams.np.asarray(x, float).reshape((-1,) + (1,) * (f.ndim - 1))


def r_set(a, o):
    np = seams.np
    if V(o):
        return {"vector_field": np.zeros(a["vector_field"].shape) + vals(a["fixed_vals"], a["vector_field"])}
    return {"field": np.full(a["field"].shape, float(a["fixed_val"]))}


def r_copy(a, o):
    return {"field": a["rhs_field"].copy()}


def r_cprod(a, o):
    return {"product_field": a["field_1"] * a["field_2"]}


def r_rim(a, o):
    n = "vector_field" if V(o) else "field"
    out = a[n].copy()
    v = a["fixed_vals"] if V(o) else [a["fixed_val"]]
    for c, x in zip(comps(out, V(o)), v):
        reset_rim(c, o["width"], float(x))
    return {n: out}


def r_addval(a, o):
    if V(o):
        return {"sum_field": a["vector_field"] + vals(a["fixed_vals"], a["vector_field"])}
    return {"sum_field": a["field"] + a["fixed_val"]}


def r_saxpby(a, o):
    return {"sum_field": a["field_1_prefac"] * a["field_1"] + a["field_2_prefac"] * a["field_2"]}


def r_cross(a, o):
    np = seams.np
    return {"result_field": np.cross(a["field_1"], a["field_2"], axis=0)}


def r_curl_in(a, o):
    out = a["curl"].copy()
    put(out, 1, a["prefactor"] * curl_in(a["field"]))
    return {"curl": out}


def r_curl_out(a, o):
    out = a["curl"].copy()
    p = a["prefactor"]
    put(out[0], 1, p * ddc(a["field"], 1))
    put(out[1], 1, -p * ddc(a["field"], 0))
    if o.get("reset_ghost_zone", True):
        reset_rim(out[0])
        reset_rim(out[1])
    return {"curl": out}


def r_curl3(a, o):
    out = a["curl"].copy()
    for c, x in zip(out, curl3(a["field"])):
        put(c, 1, a["prefactor"] * x)
        if o.get("reset_ghost_zone", True):
            reset_rim(c)
    return {"curl": out}


def r_div(a, o):
    out = a["divergence"].copy()
    put(out, 1, 0.5 * a["inv_dx"] * sum(ddc(a["field"][i], i) for i in range(3)))
    if o.get("reset_ghost_zone", True):
        reset_rim(out)
    return {"divergence": out}


def r_vort(a, o):
    out = a["vorticity_field"].copy()
    v = a["velocity_forcing_field"] if "velocity_forcing_field" in a else a["penalised_velocity_field"] - a["velocity_field"]
    if v.ndim == 3:
        inner(out, 1)[...] += a["prefactor"] * curl_in(v)
    else:
        for c, x in zip(out, curl3(v)):
            inner(c, 1)[...] += a["prefactor"] * x
    return {"vorticity_field": out}


def r_stretch_flux(a, o):
    return {"vorticity_stretching_flux_field": stretch(a["vorticity_field"], a["velocity_field"], a["prefactor"])}


def r_stretch_step(a, o):
    return {"vorticity_field": a["vorticity_field"]
            + stretch(a["vorticity_field"], a["velocity_field"], a["dt_by_2_dx"])}


def r_ssprk3(a, o):
    u, v, p = a["vorticity_field"], a["velocity_field"], a["dt_by_2_dx"]
    u1 = u + stretch(u, v, p)
    u1 = u1 + stretch(u1, v, p)
    u2 = 0.75 * u + 0.25 * u1
    u2 = u2 + 0.5 * stretch(u2, v, p)
    return {"vorticity_field": u / 3 + 2 * u2 / 3}


def r_penalise(a, o):
    """Boundary layer of `width` cells takes the value of its innermost line,
    damped by a quarter sine towards the domain boundary; x first, then y, z."""
    np = seams.np
    n = "vector_field" if V(o) else "field"
    out = a[n].copy()
    w = o["width"]
    if w == 0:
        return {n: out}
    for c in comps(out, V(o)):
        d = c.ndim
        for i in range(d):
            ax = d - 1 - i
            size = c.shape[ax]
            x = o["_grid"][i]
            m = np.moveaxis(c, ax, 0)
            tail = (slice(None),) + (None,) * (d - 1)
            k = math.pi / 2 / (w * o["_dx"])
            front = np.sin(k * (x[:w] - x[0]))
            back = np.sin(k * (x[-1] - x[-w:]))
            m[:w] = m[w - 1] * front[tail]
            m[-w:] = m[size - w] * back[tail]
    return {n: out}


def lap1(f, i):
    out = seams.np.zeros(f.shape)
    d = f.ndim
    put(out, 1, 0.25 * (2 * inner(f, 1) - inner(f, 1, unit(d, i, 1)) - inner(f, 1, unit(d, i, -1))))
    return out


def r_filter(a, o):
    n = "vector_field" if V(o) else "scalar_field"
    out = a[n].copy()
    k = o["filter_order"]
    for c in comps(out, V(o)):
        if k == 0:
            continue
        if o["filter_type"] == "multiplicative":
            f = c.copy()
            for _ in range(k):
                for i in range(c.ndim):
                    f = lap1(f, i)
            c[...] -= f
        else:
            for i in range(c.ndim):
                f = c.copy()
                for _ in range(k):
                    f = lap1(f, i)
                c[...] -= f
    return {n: out}


# ----------------------------------------------------------------- the catalog
# argument kinds: S scalar field, W vector field, C complex scalar field, k constant,
# K constants (one per component); roles: i input, o output only (dirty before),
# m modified, r rim kept if ghost zone is not reset, b scratch (dirty, not checked)
FT = {"field_type": ["scalar", "vector"]}
RG = {"reset_ghost_zone": [True, False]}
CAT = {}


def spec(name, dim, gen, args, ref, ghost=0, opts=None, fixed=True, **k):
    CAT[name] = dict(name=name, dim=dim, gen=gen, args=args, ref=ref, ghost=ghost, opts=opts or {},
                     fixed=fixed, **k)


def sv(s, v):
    """Arguments depending on the field type."""
    return lambda o: v if V(o) else s


def A(*a):
    return lambda o: a


def _fill_catalog():
    for d in (2, 3):
        T = f"_{d}d"
        two = d == 2
        f3 = {} if two else FT
        spec("advection_flux" + T, d, f"gen_advection_flux_conservative_eno3_pyst_kernel{T}",
             A(("advection_flux", "S", "m"), ("field", "S", "i"), ("velocity", "W", "i"), ("inv_dx", "k", "i")),
             r_eno_flux, 2)
        spec("advection_step" + T, d, f"gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel{T}",
             sv((("field", "S", "m"), ("advection_flux", "S", "b"), ("velocity", "W", "i"), ("dt_by_dx", "k", "i")),
                (("vector_field", "W", "m"), ("advection_flux", "S", "b"), ("velocity", "W", "i"),
                 ("dt_by_dx", "k", "i"))), r_adv_step, 2, f3, step=True)
        spec("diffusion_flux" + T, d, f"gen_diffusion_flux_pyst_kernel{T}",
             sv((("diffusion_flux", "S", "r"), ("field", "S", "i"), ("prefactor", "k", "i")),
                (("vector_field_diffusion_flux", "W", "r"), ("vector_field", "W", "i"), ("prefactor", "k", "i"))),
             r_diff_flux, 1, {**f3, **RG})
        spec("diffusion_step" + T, d, f"gen_diffusion_timestep_euler_forward_pyst_kernel{T}",
             sv((("field", "S", "m"), ("diffusion_flux", "S", "b"), ("nu_dt_by_dx2", "k", "i")),
                (("vector_field", "W", "m"), ("diffusion_flux", "S", "b"), ("nu_dt_by_dx2", "k", "i"))),
             r_diff_step, 1, f3, step=True)
        spec("brinkmann_penalise" + T, d, f"gen_brinkmann_penalise_pyst_kernel{T}",
             sv((("penalised_field", "S", "o"), ("penalty_factor", "k", "i"), ("char_field", "S", "i"),
                 ("penalty_field", "S", "i"), ("field", "S", "i")),
                (("penalised_vector_field", "W", "o"), ("penalty_factor", "k", "i"), ("char_field", "S", "i"),
                 ("penalty_vector_field", "W", "i"), ("vector_field", "W", "i"))), r_brink, 0, FT)
        if two:
            spec("brinkmann_fixed_val" + T, d, f"gen_brinkmann_penalise_vs_fixed_val_pyst_kernel{T}",
                 sv((("penalised_field", "S", "o"), ("penalty_factor", "k", "i"), ("char_field", "S", "i"),
                     ("penalty_val", "k", "i"), ("field", "S", "i")),
                    (("penalised_vector_field", "W", "o"), ("penalty_factor", "k", "i"), ("char_field", "S", "i"),
                     ("penalty_val", "K", "i"), ("vector_field", "W", "i"))), r_brink_val, 0, FT)
        spec("char_func" + T, d, f"gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel{T}",
             A(("char_func_field", "S", "o"), ("level_set_field", "S", "i")), r_char, 0, {"blend_width": [0.05, 0.4, 1.5]})
        spec("sum" + T, d, f"gen_elementwise_sum_pyst_kernel{T}",
             sv((("sum_field", "S", "o"), ("field_1", "S", "i"), ("field_2", "S", "i")),
                (("sum_field", "W", "o"), ("field_1", "W", "i"), ("field_2", "W", "i"))), r_sum, 0, FT)
        spec("set_fixed" + T, d, f"gen_set_fixed_val_pyst_kernel{T}",
             sv((("field", "S", "o"), ("fixed_val", "k", "i")), (("vector_field", "W", "o"), ("fixed_vals", "K", "i"))),
             r_set, 0, FT)
        spec("copy" + T, d, f"gen_elementwise_copy_pyst_kernel{T}",
             A(("field", "S", "o"), ("rhs_field", "S", "i")), r_copy)
        spec("complex_product" + T, d, f"gen_elementwise_complex_product_pyst_kernel{T}",
             A(("product_field", "C", "o"), ("field_1", "C", "i"), ("field_2", "C", "i")), r_cprod)
        spec("set_boundary" + T, d, f"gen_set_fixed_val_at_boundaries_pyst_kernel{T}",
             sv((("field", "S", "m"), ("fixed_val", "k", "i")), (("vector_field", "W", "m"), ("fixed_vals", "K", "i"))),
             r_rim, 0, {**FT, "width": [1, 2, 3]}, fixed=None)
        spec("add_fixed" + T, d, f"gen_add_fixed_val_pyst_kernel{T}",
             sv((("sum_field", "S", "o"), ("field", "S", "i"), ("fixed_val", "k", "i")),
                (("sum_field", "W", "o"), ("vector_field", "W", "i"), ("fixed_vals", "K", "i"))), r_addval, 0, FT)
        spec("saxpby" + T, d, f"gen_elementwise_saxpby_pyst_kernel{T}",
             sv((("sum_field", "S", "o"), ("field_1", "S", "i"), ("field_2", "S", "i"), ("field_1_prefac", "k", "i"),
                 ("field_2_prefac", "k", "i")),
                (("sum_field", "W", "o"), ("field_1", "W", "i"), ("field_2", "W", "i"), ("field_1_prefac", "k", "i"),
                 ("field_2_prefac", "k", "i"))), r_saxpby, 0, FT)
        spec("vorticity_from_forcing" + T, d, f"gen_update_vorticity_from_velocity_forcing_pyst_kernel{T}",
             A(("vorticity_field", "S" if two else "W", "m"), ("velocity_forcing_field", "W", "i"),
               ("prefactor", "k", "i")), r_vort, 1)
        spec("vorticity_from_penalised" + T, d, f"gen_update_vorticity_from_penalised_velocity_pyst_kernel{T}",
             A(("vorticity_field", "S" if two else "W", "m"), ("penalised_velocity_field", "W", "i"),
               ("velocity_field", "W", "i"), ("prefactor", "k", "i")), r_vort, 1)
        spec("penalise_boundary" + T, d, f"gen_penalise_field_boundary_pyst_kernel{T}",
             sv((("field", "S", "m"),), (("vector_field", "W", "m"),)), r_penalise, 0, {**f3, "width": [0, 1, 2, 3]},
             stateful="penalise")
    spec("curl_inplane_2d", 2, "gen_inplane_field_curl_pyst_kernel_2d",
         A(("curl", "S", "r"), ("field", "W", "i"), ("prefactor", "k", "i")), r_curl_in, 1, keep_rim=True)
    spec("curl_outplane_2d", 2, "gen_outplane_field_curl_pyst_kernel_2d",
         A(("curl", "W", "r"), ("field", "S", "i"), ("prefactor", "k", "i")), r_curl_out, 1, RG)
    spec("cross_3d", 3, "gen_elementwise_cross_product_pyst_kernel_3d",
         A(("result_field", "W", "o"), ("field_1", "W", "i"), ("field_2", "W", "i")), r_cross)
    spec("curl_3d", 3, "gen_curl_pyst_kernel_3d",
         A(("curl", "W", "r"), ("field", "W", "i"), ("prefactor", "k", "i")), r_curl3, 1, RG)
    spec("divergence_3d", 3, "gen_divergence_pyst_kernel_3d",
         A(("divergence", "S", "r"), ("field", "W", "i"), ("inv_dx", "k", "i")), r_div, 1, RG)
    spec("stretching_flux_3d", 3, "gen_vorticity_stretching_flux_pyst_kernel_3d",
         A(("vorticity_stretching_flux_field", "W", "o"), ("vorticity_field", "W", "i"), ("velocity_field", "W", "i"),
           ("prefactor", "k", "i")), r_stretch_flux, 1)
    spec("stretching_step_3d", 3, "gen_vorticity_stretching_timestep_euler_forward_pyst_kernel_3d",
         A(("vorticity_field", "W", "m"), ("velocity_field", "W", "i"), ("vorticity_stretching_flux_field", "W", "b"),
           ("dt_by_2_dx", "k", "i")), r_stretch_step, 1, step=True)
    spec("stretching_ssprk3_3d", 3, "gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d",
         A(("vorticity_field", "W", "m"), ("velocity_field", "W", "i"), ("vorticity_stretching_flux_field", "W", "b"),
           ("dt_by_2_dx", "k", "i")), r_ssprk3, 1, step=True, stateful="ssprk3")
    spec("laplacian_filter_3d", 3, "gen_laplacian_filter_kernel_3d",
         sv((("scalar_field", "S", "m"),), (("vector_field", "W", "m"),)), r_filter, 1,
         {**FT, "filter_order": [0, 1, 2, 3], "filter_type": ["multiplicative", "convolution"]}, stateful="filter")


_fill_catalog()


def option_sets(s):
    out = [{}]
    for k in sorted(s["opts"]):
        out = [dict(o, **{k: v}) for o in out for v in s["opts"][k]]
    return out


def min_size(s, o):
    return max(2 * s["ghost"] + 1, 2 * o.get("width", 0), 1)


def generate(s, o, real, nt, fixed, extra=None):
    """Generate the kernel through the public generator."""
    np = seams.np
    if s["dim"] == 2:
        import sopht.numeric.eulerian_grid_ops.stencil_ops_2d as m
    else:
        import sopht.numeric.eulerian_grid_ops.stencil_ops_3d as m
    kw = {k: v for k, v in o.items() if not k.startswith("_")}
    kw["real_t"] = np.float32 if real == "f4" else np.float64
    kw["num_threads"] = nt
    if s["fixed"] is not None:
        kw["fixed_grid_size"] = tuple(fixed) if fixed else False
    kw.update(extra or {})
    return getattr(m, s["gen"])(**kw)


def field(rng, shape, style):
    """Input field in [-1, 1]."""
    np = seams.np
    a = rng.uniform(-1.0, 1.0, shape)
    if style == "sparse":
        a[rng.random(shape) < 0.7] = 0.0
    elif style == "sign":
        a = np.sign(a)
    elif style == "const":
        a[...] = rng.uniform(-1, 1)
    elif style == "ties":
        a = np.round(a * 2) / 2
    elif style == "rim":
        a *= rng.uniform(0.5, 2)
        lim = tuple(slice(1, n - 1) for n in shape[-2:])
        a[(Ellipsis, *lim)] *= 0.01
    elif style == "zero":
        a[...] = 0
    elif style == "planar":
        # a flow without one of its components that does not vary in one direction
        axis = int(rng.integers(a.ndim))
        a[...] = np.take(a, [0], axis=axis)
        if shape[0] in (2, 3):
            a[int(rng.integers(shape[0]))] = 0
    elif style == "half":
        # content in one half only
        axis = int(rng.integers(a.ndim))
        b = np.moveaxis(a, axis, 0)
        b[b.shape[0] // 2:] = 0
    elif style == "offset":
        a = 0.9 + 0.1 * a
    return a


RELATED = [None, None, None, "roll", "flip", "negative", "same", "one cell"]


def related(rng, old, how):
    """Successor of a field that has much in common with it: sums, extrema, most cells."""
    np = seams.np
    new = np.array(old)
    lead = new.ndim - 3 if new.ndim > 3 else 0
    if how == "roll":
        axis = int(rng.integers(lead, new.ndim))
        new = np.roll(new, int(rng.integers(1, max(2, new.shape[axis]))), axis)
    elif how == "flip":
        new = np.flip(new, int(rng.integers(0, new.ndim)))
    elif how == "negative":
        new = -new
    elif how == "one cell":
        i = tuple(int(rng.integers(0, k)) for k in new.shape)
        new[i] = new[i] * (1 + 10.0 ** -int(rng.integers(0, 4))) if new[i] else np.max(np.abs(new))
    return new


STYLES = ["uniform", "uniform", "uniform", "uniform", "sparse", "sign", "const", "ties", "rim", "planar", "planar", "half",
          "offset", "zero"]


def make_args(s, o, plan, arena, rng):
    """-> (kwargs for the kernel, double-precision copy, roles)."""
    np = seams.np
    dt = np.dtype(plan["real"])
    ct = np.dtype("c8" if plan["real"] == "f4" else "c16")
    size, d = tuple(plan["size"]), s["dim"]
    kw, ref, roles = {}, {}, {}
    pads = plan.get("pad")
    mag = plan.get("mag", 1.0)
    for name, kind, role in s["args"](o):
        roles[name] = (kind, role)
        if kind in "SWC":
            shape = (d, *size) if kind == "W" else size
            pad = None
            if pads:
                pad = (0, *pads) if kind == "W" else tuple(pads)
            if kind == "C":
                data = mag * (field(rng, shape, plan["style"]) + 1j * field(rng, shape, plan["style"]))
                a = arena.array(shape, ct, data.astype(ct), pad)
            else:
                data = field(rng, shape, plan["style"]) * (1 if name in ("char_field", "level_set_field") else mag)
                if name == "char_field":
                    data = np.clip(np.abs(data) * 1.3 - 0.15, 0, 1)
                if name == "level_set_field":
                    bw = o["blend_width"]
                    data = data * 2.5 * bw
                    k = rng.random(shape)
                    data = np.where(k < 0.05, bw, np.where(k < 0.1, -bw, np.where(k < 0.15, 0.0, data)))
                a = arena.array(shape, dt, data.astype(dt), pad)
            if role in "ob":
                a[...] = np.nan if plan["dirty"] else 1e3
            kw[name] = a
            ref[name] = np.array(a, np.complex128 if kind == "C" else np.float64)
        elif kind == "k":
            v = float(np.round(rng.uniform(0.05, 2.0), 3))
            if name in ("penalty_factor",):
                v = float(10.0 ** rng.uniform(-1, 4))
            elif rng.random() < 0.4:
                v = -v
            v = dt.type(v)
            kw[name], ref[name] = v, float(v)
        else:
            v = [dt.type(x) for x in rng.uniform(-2, 2, d)]
            kw[name], ref[name] = v, [float(x) for x in v]
    return kw, ref, roles


def scale(s, o, mag):
    """Size of the terms a kernel adds up when its fields have size mag."""
    if mag == 1.0:
        return 1.0
    args = s["args"](o)
    n = [a for a, k, r in args if k in "SWC" and r in "imr" and a not in ("char_field", "level_set_field")]
    deg = 2 if "velocity" in n or s["name"].startswith(("cross", "stretching", "complex")) else 1
    r = mag ** deg
    if deg == 2 and any(k in "SWC" and r in "mr" for _, k, r in args):
        r = max(r, mag)
    if s["name"].startswith("char_func") or any(a in ("fixed_val", "fixed_vals", "penalty_val") for a, k, _ in args):
        r = max(r, 1.0)
    return r


def tol(real, exp, base=1.0):
    np = seams.np
    m = base + (float(np.max(np.abs(exp))) if exp.size else 0.0)
    return m * (5e-13 if real == "f8" else 4e-5)


def compare(got, exp, real, where, base=1.0):
    np = seams.np
    if not exp.size:
        return
    err = np.abs(np.asarray(got) - exp)
    t = tol(real, exp, base)
    bad = ~(err <= t)
    if bad.any():
        idx = tuple(int(i[0]) for i in np.nonzero(bad))
        raise core.Violation("wrong-result", f"{where}: {int(bad.sum())} of {err.size} values wrong, "
                             f"first at {idx}: got {np.asarray(got)[idx]!r}, expected {exp[idx]!r}")
