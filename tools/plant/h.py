"""Builds the solver's objects through their public constructors (run with cwd = the repository)."""
import importlib, os, sys
import numpy as np
sys.path.insert(0, os.getcwd()); sys.dont_write_bytecode = True
os.environ.setdefault("NUMBA_OPT", "0"); os.environ.setdefault("MPLBACKEND", "Agg")
P = "moving_mesh_transport."


class Api:
    def mod(self, name):
        o = sys.stdout; sys.stdout = open(os.devnull, "w")
        try: return importlib.import_module(P + name)
        finally: sys.stdout = o

    # -- small helpers --------------------------------------------------------------------------
    def D(self, **k):
        import numba as nb
        d = nb.typed.Dict.empty(key_type=nb.typeof("a"), value_type=nb.typeof(1))
        for a, b in k.items(): d[a] = int(b)
        return d

    def geom(self, name):
        return self.D(slab=int(name == "slab"), sphere=int(name == "sphere"))

    def sigma_func(self, name="constant"):
        keys = ["constant", "linear", "siewert1", "siewert2", "gaussian", "fake_sedov"]
        return self.D(**{k: int(k == name) for k in keys})

    def source_type(self, kind, noniso=False):
        s = np.zeros(15, dtype=np.int64)
        idx = {"plane_IC": 0, "square_IC": 1, "square_source": 2, "gaussian_IC": 3, "MMS": 4, "gaussian_source": 5}
        if kind == "dipole": s[0] = 2
        elif kind == "self_sim": s[0] = 3
        elif kind != "boundary": s[idx[kind]] = 1
        if noniso: s[-1] = 1
        return s

    def quadrature(self, n, name):
        return self.mod("solver_classes.functions").quadrature(n, name)

    DEFAULT = dict(N_space=4, N_ang=4, M=2, tfinal=1.0, x0=0.5, t0=5.0, sigma_t=1.0, sigma_s=1.0, kind="square_IC",
                   uncollided=False, moving=False, move=0, t_nodes=10, transfer=False, temp_function=0, e_init=1e-10, sigma=0.0,
                   particle_v=1.0, edge_v=1.0, cv0=0.0, thick=False, wave=None, strength=1.0, move_factor=1.0, l=1.0,
                   pad=300.0, leader_pad=0.025, boundary_on=(0, 0), boundary_strength=1.0, boundary_source=False,
                   opacity="constant", Msigma=0, finite=False, width=-1.0, v0=0.0, epsilon=1.0, geometry="sphere",
                   weights="gauss_legendre", noniso=False)

    def cfg(self, **kw):
        c = dict(self.DEFAULT); c.update(kw)
        return c

    def _common(self, c):
        quad = self.quadrature
        mus, ws = quad(c["N_ang"], c["weights"])
        if c["geometry"] == "slab": xs, wq = quad(2 * c["M"] + 1, "gauss_legendre")
        else: xs, wq = quad(6 * c["M"] + 1, "chebyshev")
        tq, tw = quad(c["t_nodes"], "gauss_legendre")
        qts, _ = quad(int(c["N_space"] / 2 + 1), "gauss_lobatto")
        qte, _ = quad(int(c["N_space"] / 4 + 1), "gauss_lobatto")
        return mus, ws, xs, wq, tq, tw, qts, qte

    def wave(self, c):
        if c["wave"] is None: return np.zeros((1, 1, 1))
        w = np.asarray(c["wave"], dtype=float)          # 4 x n : t, left, right, T
        return np.ascontiguousarray(w.reshape(1, 4, -1))

    def move_type(self, c):
        m = np.zeros(5, dtype=np.int64); m[c["move"]] = 1
        return m

    def build(self, c, make_ic=False, quad=None):
        mus, ws, xs, wq, tq, tw, qts, qte = self._common(c)
        if quad is not None: xs, wq = quad
        tc = self.D(none=int(not c["transfer"]), transfer=int(bool(c["transfer"]))) if c["transfer"] else self.D(none=1)
        tf = np.zeros(4, dtype=np.int64)
        if c["transfer"]: tf[c["temp_function"]] = 1
        b = self.mod("solver_classes.build_problem").build(
            c["N_ang"], c["N_space"], c["M"], float(c["tfinal"]), float(c["x0"]), float(c["t0"]), mus, ws, xs, wq,
            float(c["sigma_t"]), float(c["sigma_s"]), self.source_type(c["kind"], c["noniso"]), int(c["uncollided"]), int(c["moving"]),
            self.move_type(c), tq, tw, tc, tf, float(c["e_init"]), float(c["sigma"]), float(c["particle_v"]), float(c["edge_v"]),
            float(c["cv0"]), int(c["thick"]), self.wave(c), float(c["strength"]), float(c["move_factor"]), float(c["l"]), 0,
            float(c["pad"]), float(c["leader_pad"]), qts, qte, np.array(c["boundary_on"], dtype=np.int64),
            float(c["boundary_strength"]), int(c["boundary_source"]), self.sigma_func(c["opacity"]), int(c["Msigma"]),
            int(c["finite"]), float(c["width"]), float(c["v0"]), 0, float(c["epsilon"]), self.geom(c["geometry"]))
        if make_ic: b.make_IC()
        return b

    def mesh(self, c):
        mus, ws, xs, wq, tq, tw, qts, qte = self._common(c)
        return self.mod("solver_classes.mesh").mesh_class(
            c["N_space"], float(c["x0"]), float(c["tfinal"]), int(c["moving"]), self.move_type(c),
            self.source_type(c["kind"], c["noniso"]), float(c["edge_v"]), int(c["thick"]), float(c["move_factor"]), self.wave(c),
            float(c["pad"]), float(c["leader_pad"]), qts, qte, int(c["finite"]), float(c["width"]), float(c["v0"]),
            np.array(c["boundary_on"], dtype=np.int64), float(c["t0"]), self.geom(c["geometry"]))

    def tables(self):
        z = np.zeros; zi = lambda s: np.ones(s, dtype=np.int64)
        return [zi((12, 12))] * 4 + [zi((12, 12, 12))] + [z((12, 12, 3)), z((12, 12, 2)), z((12, 12, 2)), z((12, 12, 6)), z((12, 12, 2)), z((12, 12, 3)),
                z((12, 12, 12, 3)), z((12, 12, 12, 2))]

    def matrices(self, b):
        g = self.tables()
        return self.mod("solver_classes.matrices").G_L(b, *g)

    def system(self, c, make_ic=True):
        """Everything solve() wires together, plus rhs(t, flat_vector) -> flat_vector."""
        s = System()
        s.c, s.api = c, self
        s.build = self.build(c, make_ic)
        s.mesh = self.mesh(c)
        s.matrices = self.matrices(s.build)
        s.num_flux = self.mod("solver_classes.numerical_flux").LU_surf(s.build)
        s.source = self.mod("solver_classes.sources").source_class(s.build)
        s.uncollided = self.mod("solver_classes.uncollided_solutions").uncollided_solution(s.build)
        s.flux = self.mod("solver_classes.phi_class").scalar_flux(s.build)
        s.rhs_obj = self.mod("solver_classes.rhs_class_1").rhs_class(s.build)
        s.transfer = self.mod("solver_classes.radiative_transfer").T_function(s.build)
        s.sigma = self.mod("solver_classes.opacity").sigma_integrator(s.build)
        s.flux.load_AAA(s.sigma.AAA)
        s.shape = (c["N_ang"], c["N_space"], c["M"] + 1)
        s.mus, s.ws = self.quadrature(c["N_ang"], c["weights"])
        return s

    def solve_args(self, c, rt=1e-8, at=1e-9, choose_xs=False, xs=None, eval_times=False, eval_array=None, integrator="DOP853",
                   mxstp=1.0, save_wave=False, find_wave=False, estimate=False):
        tc = self.D(none=1)
        return (float(c["tfinal"]), int(c["N_space"]), int(c["N_ang"]), int(c["M"]), float(c["x0"]), float(c["t0"]), float(c["sigma_t"]),
                float(c["sigma_s"]), int(c["t_nodes"]), self.source_type(c["kind"], c["noniso"]), int(c["uncollided"]), int(c["moving"]),
                self.move_type(c), tc, np.zeros(4, dtype=np.int64), rt, at, float(c["e_init"]), choose_xs,
                np.asarray(xs, dtype=float) if choose_xs else 0.0, c["weights"], float(c["sigma"]), float(c["particle_v"]), float(c["edge_v"]),
                float(c["cv0"]), estimate, find_wave, int(c["thick"]), float(mxstp), self.wave(c), 1e9, float(c["strength"]),
                float(c["move_factor"]), integrator, float(c["l"]), save_wave, float(c["pad"]), float(c["leader_pad"]), 25, eval_times,
                np.asarray(eval_array, dtype=float) if eval_array is not None else np.array([0.1]),
                np.array(c["boundary_on"], dtype=np.int64), float(c["boundary_strength"]), int(c["boundary_source"]),
                self.sigma_func(c["opacity"]), int(c["Msigma"]), int(c["finite"]), float(c["width"]), float(c["v0"]), 0,
                float(c["epsilon"]), self.geom(c["geometry"]))

    RESULT = ("xs", "phi", "psi", "exit_dist", "exit_phi", "e", "time", "sol", "angles", "ws", "edges", "wavespeed", "tpnts",
              "left", "right", "wave_t", "wave_x", "T_front", "mus")

    def solve(self, c, **kw):
        mf = self.mod("solver_functions.main_functions")
        g = self.tables()
        mf.file_reader = lambda: (lambda: g)     # slab problems do not use the tables
        r = mf.solve(*self.solve_args(c, **kw))
        return dict(zip(self.RESULT, r))


class System:
    def rhs(self, t, V):
        return np.array(self.rhs_obj.call(float(t), np.ascontiguousarray(V).reshape(-1), self.mesh, self.matrices, self.num_flux,
                                          self.source, self.uncollided, self.flux, self.transfer, self.sigma))


api = Api()


def check(ok, msg):
    if not ok:
        print("FAIL", msg); sys.exit(1)
    print("ok", msg)
