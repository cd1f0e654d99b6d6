SC = "solver_classes/"
SEEDS = []
def add(*a): SEEDS.append(a)

add("S01", "C01", [(SC + "functions.py", "def newtons(x0, f, fprime, tol = 1e-14):", "def newtons(x0, f, fprime, tol = 1e-4):")],
    "Gauss-Lobatto rules with many points (small rules converge past the loosened tolerance)", "nodes of the larger Lobatto rules are off, so they no longer integrate their polynomial class exactly",
    '''
from h import *
from numpy.polynomial import legendre as L
worst = 0
for n in (4, 7, 12, 20, 33, 48):
    xs, ws = api.quadrature(n, "gauss_lobatto")
    c = np.zeros(n); c[-1] = 1
    r = np.sort(np.real(L.legroots(L.legder(c))))
    worst = max(worst, np.abs(np.sort(xs)[1:-1] - r).max())
check(worst < 1e-11, "Lobatto nodes within %g of the roots" % worst)
''')

add("S02", "C02", [(SC + "functions.py", "- 2078505*z**8 +", "- 2087505*z**8 +")], "order 11 (the highest the table of derivatives covers)", "the eleventh derivative polynomial is not the derivative of the eleventh basis function",
    '''
from h import *
f = api.mod("solver_classes.functions")
worst = 0
for n in range(12):
    for a, b in ((-1.0, 1.0), (0.5, 2.5)):
        x = np.linspace(a, b, 9)[1:-1].copy(); h = 1e-5 * (b - a)
        d = (f.normPn(n, x + h, a, b) - f.normPn(n, x - h, a, b)) / (2 * h)
        worst = max(worst, np.abs(d - f.dx_normPn(n, x, a, b)).max() / max(1, np.abs(d).max()))
check(worst < 1e-5, "derivatives agree with differences to %g" % worst)
''')

add("S03", "C14", [(SC + "opacity.py", "        for i in range(self.N_space):\n            if (edges[i] != self.edges[i]) or (edges[i+1] != self.edges[i+1]) or self.moving == True :",
                    "        if self.moving == False and edges[0] == self.edges[0] and edges[-1] == self.edges[-1]: # the mesh has not moved\n            return\n        for i in range(self.N_space):\n            if (edges[i] != self.edges[i]) or (edges[i+1] != self.edges[i+1]) or self.moving == True :")],
    "a space dependent opacity on a mesh whose outer edges stay while inner edges move (boundary source with a moving shock)", "opacity moments belong to an earlier position of the cells",
    '''
from h import *
c = api.cfg(kind="gaussian_IC", geometry="slab", opacity="gaussian", Msigma=2, M=2, N_space=4)
op = api.mod("solver_classes.opacity")
b = api.build(c); s, r = op.sigma_integrator(b), op.sigma_integrator(b)
A, B = np.array([-2, -1, 0, 1, 2.0]), np.array([-2, -1.5, -0.5, 0.5, 2.0])
s.sigma_moments(A, 0.0); s.sigma_moments(B, 0.5); r.sigma_moments(B, 0.5)
check(np.allclose(s.cs, r.cs, atol=1e-12), "moments after inner edges moved equal those of a fresh object")
''')

add("S04", "C05", [(SC + "mesh.py", "                                self.Dedges = self.c1s * tnew1 + self.Dedges_const", "                                self.Dedges = 0.5 * self.c1s * tnew1 + self.Dedges_const")],
    "square source in a finite domain, after the source is switched off", "reported edge velocities are not the rates of change of the edges while the mesh accelerates",
    '''
from h import *
c = api.cfg(kind="square_source", geometry="slab", finite=True, width=100.0, pad=8.0, N_space=8, t0=1.0, tfinal=5.0, moving=True, x0=0.5)
m = api.mesh(c); worst = 0
for t in (0.5, 1.5, 2.5, 4.0):
    m.move(t + 1e-5); p = m.edges.copy(); m.move(t - 1e-5); q = m.edges.copy(); m.move(t)
    worst = max(worst, np.abs((p - q) / 2e-5 - m.Dedges).max())
check(worst < 1e-6, "velocities agree with differences to %g" % worst)
''')

add("S05", "C16", [("loading_and_saving/save_output.py", "        if epsilon != 1.0:\n            full_str += '_epsilon=' + str(epsilon)", "        if epsilon > 1.0:\n            full_str += '_epsilon=' + str(epsilon)"),
                   ("loading_and_saving/load_solution.py", "        if epsilon != 1.0:\n            full_str += '_epsilon=' + str(epsilon)", "        if epsilon > 1.0:\n            full_str += '_epsilon=' + str(epsilon)")],
    "two runs that differ only in a scaling parameter below one, the first loaded after the second was saved", "the second run overwrites the first: loading the first returns the second",
    '''
from h import *
import h5py, tempfile, shutil
so, ls = api.mod("loading_and_saving.save_output"), api.mod("loading_and_saving.load_solution")
d = tempfile.mkdtemp(); os.chdir(d); os.makedirs("moving_mesh_transport/local_run_data")
h5py.File("moving_mesh_transport/local_run_data/run_data.hdf5", "w").close()
def save(eps, v):
    s = so.save_output(1.0, [4], [1], [0, 1, 0, 0, 0, 0], 0, 0, "cells", 0, 0, 1.0, 0, np.array([0.5]), 0.0, "transport", [2], eps)
    s.save_solution(np.linspace(0, 1, 5), np.full(5, v), np.zeros(5), np.full((2, 4, 2), v), np.linspace(0, 1, 5), 0.5, np.ones(2), 4, False, np.full((2, 5), v), eps, np.array([-1, 1.0]))
def load(eps):
    l = ls.load_sol("transport", "square_IC", "rad", 1.0, False, 0.0, "run_data.hdf5"); l.call_sol(1.0, 1, 0.5, 4, "rad", 0, 0, eps); return l.phi[0]
o = sys.stdout; sys.stdout = open(os.devnull, "w")
for e, v in ((0.5, 1.0), (0.25, 2.0), (1.0, 3.0), (2.0, 4.0)): save(e, v)
got = [load(e) for e in (0.5, 0.25, 1.0, 2.0)]
sys.stdout = o; os.chdir("/"); shutil.rmtree(d)
check(np.allclose(got, [1, 2, 3, 4]), "every run is loaded as saved: %s" % got)
''')

add("S06", "C10", [(SC + "uncollided_solutions.py", "            if self.sigma <= 5:\n                temp[ix] = uncollided_s2_gaussian", "            if self.sigma <= 50:\n                temp[ix] = uncollided_s2_gaussian")],
    "two-direction model with a wide gaussian source (sigma above 5)", "the closed form overflows or cancels for wide sources and the uncollided flux is wrong",
    '''
from h import *
c = api.cfg(kind="gaussian_source", geometry="slab", N_ang=2, uncollided=True, sigma=24.0, t0=3.0, t_nodes=40, x0=1.0)
u = api.mod("solver_classes.uncollided_solutions").uncollided_solution(api.build(c))
xs = np.array([0.0, 7.0, -30.0]); t = 2.0
tau, w = np.polynomial.legendre.leggauss(60); tau, w = tau + 1, w
want = [np.sum(w * np.exp(tau - t) * 0.5 * (np.exp(-(x - (t - tau) / 3 ** .5) ** 2 / 24 ** 2) + np.exp(-(x + (t - tau) / 3 ** .5) ** 2 / 24 ** 2))) for x in xs]
try: got = u.uncollided_solution(xs, t)
except Exception as e: check(False, repr(e))
check(np.allclose(got, want, rtol=1e-6), "wide gaussian: %s, expected %s" % (got, want))
''')

add("S07", "C13", [(SC + "sources.py", "                if (self.source_type[0] == 1) and  (self.moving == True):", "                if (self.source_type[0] == 1):")],
    "plane pulse with uncollided treatment on a static mesh", "cells ahead of the uncollided wave get a source before anything arrives, higher moments are lost",
    '''
from h import *
c = api.cfg(kind="plane_IC", geometry="slab", uncollided=True, moving=False, x0=1e-9, M=2)
b = api.build(c); s = api.mod("solver_classes.sources").source_class(b); u = api.mod("solver_classes.uncollided_solutions").uncollided_solution(b)
s.make_source(0.4, 0.5, 0.9, u)
check(np.abs(s.S).max() < 1e-12, "no source in a cell ahead of the wave: %s" % s.S)
s.make_source(0.4, -0.1, 0.1, u)
check(abs(s.S[0] - np.exp(-0.4) / 0.8 * 0.2 ** .5) < 1e-9, "source inside the wave")
''')

add("S08", "C15", [(SC + "numerical_flux.py", "        self.xL_minus = self.edges[0] - dx\n        self.xR_plus = self.edges[-1] + dx", "        self.xL_minus = self.edges[0] - dx\n        self.xR_plus = self.edges[-1] + (self.edges[1] - self.edges[0])")],
    "boundary source on the right end of a mesh whose first and last cells have different widths", "inflow through the right boundary is computed on a ghost cell of the wrong width and has the wrong strength",
    '''
from h import *
c = api.cfg(kind="boundary", geometry="slab", boundary_source=True, boundary_on=(1, 1), boundary_strength=1.0, N_space=2, M=1, N_ang=2, moving=False, t0=5.0)
b = api.build(c); n = api.mod("solver_classes.numerical_flux").LU_surf(b); m = api.mesh(c)
m.edges = np.array([-1.0, 0.5, 1.0]); m.Dedges = np.zeros(3)
u = np.zeros((2, 2))
n.make_LU(0.3, m, u, 1, -1.0, u[0]); right = n.v3
n.make_LU(0.3, m, u, 0, 1.0, u[0]); left = n.v0
check(abs(left - 1) < 1e-9 and abs(right - 1) < 1e-9, "unit inflow at both ends: %g %g" % (left, right))
''')

add("S09", "C11", [(SC + "make_phi.py", "        for ang in range(self.N_ang):\n            for count in range(self.xs.size):\n                idx = np.searchsorted(self.edges[:], self.xs[count])\n                if (idx == 0):\n                    idx = 1\n                if (idx >= self.edges.size):\n                    idx = self.edges.size - 1\n                if self.edges[0] <= self.xs[count] <= self.edges[-1]:\n                    for i in range(self.M+1):\n                        psi",
                   "        for ang in range(self.N_ang):\n            idx = 1\n            for count in range(self.xs.size):\n                while idx < self.edges.size - 1 and self.edges[idx] < self.xs[count]:  # points come in order: go on from the last cell\n                    idx += 1\n                if self.edges[0] <= self.xs[count] <= self.edges[-1]:\n                    for i in range(self.M+1):\n                        psi")],
    "evaluation points chosen by the user that are not in ascending order", "points after a larger one are evaluated with the polynomial of the wrong cell",
    '''
from h import *
mp = api.mod("solver_classes.make_phi")
c = api.cfg(kind="gaussian_IC", geometry="slab", M=1, N_ang=2, N_space=3)
un = api.mod("solver_classes.uncollided_solutions").uncollided_solution(api.build(c))
u = np.arange(12.0).reshape(2, 3, 2); ed = np.array([-1.0, -0.2, 0.3, 1.0]); ws = np.array([0.5, 0.5])
def phi(x): return mp.make_output(1.0, 2, ws, x, u, 1, ed, 0, api.geom("slab")).make_phi(un)
x = np.array([-0.7, 0.1, 0.8]); a = phi(x); b = phi(x[::-1].copy())
check(np.allclose(a, b[::-1]), "order of the points does not matter: %s %s" % (a, b[::-1]))
''')

add("S10", "C12", [(SC + "mutables.py", "        temp = -(np.greater(x, -x1) - np.greater(x, 0))*self.source_strength +  (np.greater(x, 0) - np.greater(x, x1))*self.source_strength ", "        temp = (-1.0*(np.greater(x, -x1) - np.greater(x, 0)*1.0) +  (np.greater(x, 0)*1.0 - np.greater(x, x1)))*self.source_strength**(self.uncollided + 0.5)*self.source_strength**0.5 if self.uncollided else (-1.0*(np.greater(x, -x1)*1.0 - np.greater(x, 0)*1.0) +  (np.greater(x, 0)*1.0 - np.greater(x, x1)*1.0)*self.source_strength)")],
    "dipole", "", "")
SEEDS.pop()

add("S10", "C12", [(SC + "mutables.py", "        temp = 2*np.exp(-x*x/self.sigma**2)*self.source_strength*np.greater(mu, 0)\n        return temp/2.0", "        temp = 2*np.exp(-x*x/self.sigma**2)*self.source_strength*np.greater(mu, -1e-10)\n        return temp/2.0")],
    "beam-like gaussian initial condition with an odd number of angles (one direction exactly sideways)", "particles are put in the direction parallel to the slab", '''
from h import *
IC = api.mod("solver_classes.mutables").IC_func
f = IC(api.source_type("gaussian_IC", True), 0, 0.5, 1.0, 0.5, 0.0, api.geom("slab"))
x = np.array([0.0, 0.2])
check(np.all(f.function(x, 0.0) == 0) and np.all(f.function(x, -0.3) == 0) and f.function(x, 0.3)[0] > 0.9, "only directions to the right are filled: %s" % f.function(x, 0.0))
''')

add("S11", "C17", [("loading_and_saving/load_parameters.py", "        if not (len(self.N_spaces) == len(self.N_angles) == len(self.Ms)):", "        if len(self.N_spaces) != len(self.N_angles) and len(self.N_angles) != len(self.Ms):")],
    "a script in which exactly one of the three lists has another length", "a contradictory script is accepted",
    '''
from h import *
import copy, yaml
lp = api.mod("loading_and_saving.load_parameters")
P_ = yaml.safe_load(open("moving_mesh_transport/input_scripts/transport.yaml")); M_ = yaml.safe_load(open("moving_mesh_transport/input_scripts/mesh_parameters.yaml"))
o = sys.stdout
def load(ns, na, ms):
    p = copy.deepcopy(P_); p["all"]["N_spaces"], p["all"]["Ms"], p["square_IC"]["N_angles"] = ns, ms, na
    sys.stdout = open(os.devnull, "w")
    try: lp.parameter_load_class("square_IC", p, copy.deepcopy(M_)); return True
    except AssertionError: return False
    finally: sys.stdout = o
got = [load([2, 4], [8, 16], [1, 2]), load([2, 4], [8, 16], [1]), load([2, 4], [8], [1, 2]), load([2], [8, 16], [1, 2])]
check(got == [True, False, False, False], "only lists of equal length are accepted: %s" % got)
''')

add("S12", "C18", [("loading_and_saving/load_bench.py", "            self.interpolated_uncollided_solution = interp1d(self.xs, self.phi_u, kind = \"cubic\")", "            self.interpolated_uncollided_solution = interp1d(self.xs, self.phi, kind = \"cubic\") if np.max(np.abs(self.phi_u)) < 1e-3 * np.max(np.abs(self.phi)) else interp1d(self.xs, self.phi_u, kind = \"cubic\")")],
    "a late time, where the tabulated uncollided flux is small", "the uncollided part of the benchmark is replaced by the full flux", '''
from h import *
import h5py, tempfile, shutil
lb = api.mod("loading_and_saving.load_bench")
d = tempfile.mkdtemp(); os.chdir(d); os.makedirs("moving_mesh_transport/benchmarks")
x = np.linspace(0, 2, 41); A, B = np.exp(-x), 1e-5 * np.cos(x)
with h5py.File("moving_mesh_transport/benchmarks/benchmarks.hdf5", "w") as f: f.create_group("square_IC").create_dataset("t = 10.0", data=np.array([x, A, B]))
o = sys.stdout; sys.stdout = open(os.devnull, "w")
r = lb.load_bench([0, 1, 0, 0, 0, 0], 10.0, 0.5, 1.0, 0)(np.array([0.1, 0.5, 1.3]))
sys.stdout = o; os.chdir("/"); shutil.rmtree(d)
check(np.allclose(r[1], 1e-5 * np.cos([0.1, 0.5, 1.3]), atol=1e-9), "uncollided benchmark is the tabulated one: %s" % r[1])
''')

add("S13", "C19", [(SC + "cubic_spline.py", "            tmp = s[column]\n            s[column] = s[largest_pos]\n            s[largest_pos] = tmp\n", "            s[largest_pos] = s[column]\n"),
                   (SC + "cubic_spline.py", "        largest_pos = np.argmax(np.fabs(aug_matrix[column:N,column]/s[column])) + column", "        largest_pos = np.argmax(np.fabs(aug_matrix[column:N,column]) - 1e-9*s[column:N]**3) + column")],
    "", "", "")
SEEDS.pop()
add("S13", "C19", [(SC + "cubic_spline.py", "        if (largest_pos != column):\n            if (LOUD):", "        if (largest_pos != column) and aug_matrix[column,column] == 0:\n            if (LOUD):")],
    "a well-conditioned system whose leading entry is tiny but not zero", "elimination pivots on the tiny entry and the solution loses all its digits", '''
from h import *
ge = api.mod("solver_classes.cubic_spline").GaussElim
worst = 0; r = np.random.default_rng(0)
for n in (2, 3, 6):
    for eps in (1e-13, 1e-17, 0.0):
        A = np.eye(n)[::-1] * 2 + 0.3 * r.normal(size=(n, n)) / n; A[0, 0] = eps; b = r.normal(size=n)
        if np.linalg.cond(A) > 50: continue
        worst = max(worst, np.abs(ge(A, b) - np.linalg.solve(A, b)).max())
check(worst < 1e-9, "systems solved to %g" % worst)
''')

add("S14", "C20", [(SC + "numerical_flux.py", "        if space != self.N_space - 1:\n            self.hp = math.sqrt(self.edges[space+2] - self.edges[space+1])", "        if space <= self.N_space - 1:\n            self.hp = math.sqrt(abs(self.edges[space+2] - self.edges[space+1]))")],
    "compiled code (no bounds checks): the last cell of any mesh", "memory behind the array of edges is read", '''
import os
os.environ["NUMBA_BOUNDSCHECK"] = "1"
from h import *
c = api.cfg(kind="gaussian_IC", geometry="slab", N_space=3, M=1, N_ang=2, moving=True)
b = api.build(c); n = api.mod("solver_classes.numerical_flux").LU_surf(b); m = api.mesh(c); m.move(0.3)
u = np.ones((3, 2))
try:
    for k in range(3): n.make_LU(0.3, m, u, k, 0.5, u[0])
except IndexError as e: check(False, "read outside an array: %s" % e)
check(True, "no read outside the array of edges")
''')

add("S15", "C21", [(SC + "radiative_transfer.py", "        self.fudge_factor = np.ones(e.size)\n", "        if self.fudge_factor.size != e.size:\n            self.fudge_factor = np.ones(e.size)\n"),
                   (SC + "radiative_transfer.py", "        self.save_derivative = build.save_wave_loc\n", "        self.save_derivative = build.save_wave_loc\n        self.fudge_factor = np.ones(1)\n")],
    "a cell whose energy is positive, handled after a cell with a negative value at the same quadrature point", "emission of the second cell has the wrong sign there", '''
from h import *
c = api.cfg(kind="gaussian_IC", geometry="slab", transfer=True, temp_function=0, M=1, N_ang=2)
c["thermal"] = 1
T = api.mod("solver_classes.radiative_transfer").T_function(api.build(c))
T.make_H(0.0, 1.0, np.array([1.0, 0.0])); a = T.H.copy()
T.make_H(0.0, 1.0, np.array([-1.0, 0.2])); T.make_H(0.0, 1.0, np.array([1.0, 0.0]))
check(np.allclose(a, T.H), "emission does not depend on the cells handled before: %s %s" % (a, T.H))
''')
