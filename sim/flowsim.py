"""A small flow-body simulation written the way users of the library write theirs:
Poisson solve, velocity recovery, virtual-boundary feedback of moving bodies,
vorticity update, advection, stretching, diffusion, sponge zone, checkpoints."""
import os

from sim import ib, seams

ORDER = ["omega", "u"]


def kernels_for(c, size, nt):
    """Everything generated once per configuration (stateless between processes)."""
    np = seams.np
    d = c["dim"]
    T = np.float32 if c["real"] == "f4" else np.float64
    import sopht.numeric.eulerian_grid_ops as m

    fixed = tuple(size) if c["fixed"] else False
    kw = {"real_t": T, "num_threads": nt, "fixed_grid_size": fixed}
    dx = T(c["dx"])
    ax = [np.array(c["dx"] * (np.arange(size[d - 1 - i]) + 0.5), T) for i in range(d)]
    mesh = [np.ascontiguousarray(g) for g in np.meshgrid(*ax[::-1], indexing="ij")][::-1]
    grids = {f"{n}_grid_field": mesh[i] for i, n in enumerate("xyz"[:d])}
    k = {}
    if d == 2:
        k["curl"] = m.gen_outplane_field_curl_pyst_kernel_2d(**kw)
        k["force"] = m.gen_update_vorticity_from_velocity_forcing_pyst_kernel_2d(**kw)
        k["adv"] = m.gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel_2d(**kw)
        k["diff"] = m.gen_diffusion_timestep_euler_forward_pyst_kernel_2d(**kw)
        k["sponge"] = m.gen_penalise_field_boundary_pyst_kernel_2d(width=c["width"], dx=dx, **grids, **kw)
        S = m.UnboundedPoissonSolverPYFFTW2D
    else:
        k["curl"] = m.gen_curl_pyst_kernel_3d(**kw)
        k["force"] = m.gen_update_vorticity_from_velocity_forcing_pyst_kernel_3d(**kw)
        kv = dict(kw, field_type="vector")
        k["adv"] = m.gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel_3d(**kv)
        k["diff"] = m.gen_diffusion_timestep_euler_forward_pyst_kernel_3d(**kv)
        if c["rk3"]:
            k["stretch"] = m.gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d(midstep_buffer_vector_field=np.empty((3, *size), T), **kw)
        else:
            k["stretch"] = m.gen_vorticity_stretching_timestep_euler_forward_pyst_kernel_3d(**kw)
        k["sponge"] = m.gen_penalise_field_boundary_pyst_kernel_3d(width=c["width"], dx=dx, field_type="vector", **grids, **kw)
        if c["filter"]:
            k["filter"] = m.gen_laplacian_filter_kernel_3d(
                filter_order=c["filter"], filter_flux_buffer=np.empty(size, T), field_buffer=np.empty(size, T), field_type="vector", **kw)
        S = m.UnboundedPoissonSolverPYFFTW3D
    names = ["grid_size_z", "grid_size_y", "grid_size_x"][3 - d:]
    if c["obstacle"]:
        e = f"_pyst_kernel_{d}d"
        k["char"] = getattr(m, "gen_char_func_from_level_set_via_sine_heaviside" + e)(blend_width=2 * c["dx"], **kw)
        k["brink"] = getattr(m, "gen_brinkmann_penalise" + e)(field_type="vector", **kw)
        k["brink_vort"] = getattr(m, "gen_update_vorticity_from_penalised_velocity" + e)(**kw)
        k["mesh"] = mesh
    if c["fastdiag"]:
        F = m.FastDiagPoissonSolver2D if d == 2 else m.FastDiagPoissonSolver3D
        k["poisson"] = F(dx=dx, real_t=T, **dict(zip(names, size)))
        return k
    k["poisson"] = S(x_range=c["dx"] * size[-1], num_threads=int(nt) if nt is not False else 1, real_t=T, **dict(zip(names, size)))
    return k


class Flow:
    def __init__(self, c, size, k, nt, start_time=0.0):
        np = seams.np
        from sopht.numeric.immersed_boundary_ops import VirtualBoundaryForcing
        from sopht.utils.IO import IO

        self.c, self.size, self.k = c, tuple(size), k
        d = self.d = c["dim"]
        T = self.T = np.float32 if c["real"] == "f4" else np.float64
        self.dx = T(c["dx"])
        vec = (d, *size)
        self.omega = np.empty(vec if d == 3 else self.size, T)
        self.psi = np.empty_like(self.omega)
        self.u = np.empty(vec, T)
        self.eul = np.empty(vec, T)
        self.buf = np.empty(size, T)
        self.vbuf = np.empty(vec, T)
        self.t = T(start_time)
        self.obst = None
        if c["obstacle"]:
            # a fixed obstacle
            mid = [float(g.mean()) for g in k["mesh"]]
            r = np.sqrt(sum((g - a) ** 2 for g, a in zip(k["mesh"], mid)))
            self.obst = (T(2.2 * c["dx"]) - r).astype(T)
            self.chi, self.upen, self.body_u = np.empty(size, T), np.empty(vec, T), np.zeros(vec, T)
        self.brink = []
        if c["brink"]:
            from sopht.numeric.immersed_boundary_ops import BrinkmannBoundaryForcing

            self.brink = [BrinkmannBoundaryForcing(brinkmann_coeff=T(20.0), grid_dim=d, dx=self.dx, eul_grid_coord_shift=T(c["dx"] / 2),
                                                   num_lag_nodes=b["n"], interp_kernel_width=2, real_t=T, enable_eul_grid_flux_reset=True,
                                                   num_threads=nt) for b in c["bodies"][:1]]
            self.flux = np.empty(vec, T)
        self.bodies = []
        self.io = IO(dim=d, real_dtype=T)
        self.io.define_eulerian_grid(origin=np.full(d, c["dx"] / 2), dx=np.full(d, c["dx"]), grid_size=np.array(size))
        eul = {"vorticity": self.omega, "velocity": self.u}
        self.io.add_as_eulerian_fields_for_io(**eul)
        for i, b in enumerate(c["bodies"]):
            pos, vel = np.empty((d, b["n"]), T), np.empty((d, b["n"]), T)
            f = VirtualBoundaryForcing(virtual_boundary_stiffness_coeff=T(b["k"]), virtual_boundary_damping_coeff=T(b["c"]), grid_dim=d,
                                       dx=self.dx, num_lag_nodes=b["n"], real_t=T, enable_eul_grid_forcing_reset=(i == 0),
                                       num_threads=nt, start_time=start_time)
            self.io.add_as_lagrangian_fields_for_io(lagrangian_grid=pos, lagrangian_grid_name=b["name"], velocity=vel,
                                                    position_mismatch=f.lag_grid_position_mismatch_field,
                                                    **({"lagrangian_grid_connect": True} if b["connect"] else {}))
            self.bodies.append((b, pos, vel, f))

    def start(self):
        """Initial condition."""
        np = seams.np
        r = np.random.default_rng(self.c["seed"])
        self.omega[...] = 0
        inner = tuple(slice(2, n - 2) for n in self.size)
        if self.d == 2:
            self.omega[inner] = r.uniform(-1, 1, self.omega[inner].shape)
        else:
            for a in self.omega:
                a[inner] = r.uniform(-1, 1, a[inner].shape)
        self.u[...] = 0
        for b, pos, vel, f in self.bodies:
            pos[...] = ib.positions(r, b["n"], self.size, float(self.dx), float(self.dx) / 2, "uniform", self.T)
            mid = float(self.dx) * np.array(self.size[::-1]).reshape(-1, 1) / 2
            pos[...] = (mid + 0.3 * (pos - mid)).astype(self.T)
            vel[...] = 0

    def step(self):
        np = seams.np
        T, dx, k, c = self.T, self.dx, self.k, self.c
        dt = T(c["dt"])
        if self.d == 2:
            k["poisson"].solve(solution_field=self.psi, rhs_field=self.omega)
        else:
            k["poisson"].vector_field_solve(solution_vector_field=self.psi, rhs_vector_field=self.omega)
        k["curl"](curl=self.u, field=self.psi, prefactor=T(0.5 / dx))
        for b, pos, vel, f in self.bodies:
            vel[...] = T(b["amp"]) * np.cos(T(b["freq"]) * self.t + np.arange(self.d, dtype=T).reshape(-1, 1))
            f.compute_interaction_forcing(eul_grid_forcing_field=self.eul, eul_grid_velocity_field=self.u,
                                          lag_grid_position_field=pos, lag_grid_velocity_field=vel)
            f.time_step(dt=dt)
        for f, (b, pos, vel, _) in zip(self.brink, self.bodies):
            f.compute_interaction_forcing(eul_grid_penalisation_flux=self.flux, eul_grid_velocity_field=self.u,
                                          lag_grid_position_field=pos, lag_grid_velocity_field=vel, dt=dt)
            # counted as one more body force
            self.eul += T(0.2) * self.flux
        if c["obstacle"]:
            k["char"](char_func_field=self.chi, level_set_field=self.obst)
            k["brink"](penalised_vector_field=self.upen, penalty_factor=T(0.5), char_field=self.chi, penalty_vector_field=self.body_u,
                       vector_field=self.u)
            k["brink_vort"](vorticity_field=self.omega, penalised_velocity_field=self.upen, velocity_field=self.u,
                            prefactor=T(0.5 / dx))
        if self.bodies:
            k["force"](vorticity_field=self.omega, velocity_forcing_field=self.eul, prefactor=T(dt / (2 * dx)))
        if self.d == 3:
            k["stretch"](vorticity_field=self.omega, velocity_field=self.u, vorticity_stretching_flux_field=self.vbuf,
                         dt_by_2_dx=T(dt / (2 * dx)))
        f = "field" if self.d == 2 else "vector_field"
        k["adv"](**{f: self.omega}, advection_flux=self.buf, velocity=self.u, dt_by_dx=T(dt / dx))
        k["diff"](**{f: self.omega}, diffusion_flux=self.buf, nu_dt_by_dx2=T(c["nu"]))
        if "filter" in k:
            k["filter"](vector_field=self.omega)
        k["sponge"](**{f: self.omega})
        for b, pos, vel, _ in self.bodies:
            pos += dt * vel
        self.t = T(self.t + dt)

    def state(self):
        np = seams.np
        s = {"omega": self.omega, "u": self.u, "t": np.array(self.t)}
        for i, (b, pos, vel, f) in enumerate(self.bodies):
            s.update({f"pos{i}": pos, f"vel{i}": vel, f"mismatch{i}": f.lag_grid_position_mismatch_field})
        return {k: np.array(v) for k, v in s.items()}

    def clocks(self):
        return [float(f.time) - float(self.t) for *_, f in self.bodies]

    def save(self, path):
        self.io.save(h5_file_name=path, time=self.t)

    def load(self, path):
        self.t = self.T(self.io.load(h5_file_name=path))
        for *_, f in self.bodies:
            f.time = self.t


def name(d, n):
    return os.path.join(d, f"chk_{n:04d}.h5")
