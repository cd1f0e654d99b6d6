SC = "solver_classes/"
SEEDS = []
def add(*a): SEEDS.append(a)

add("S16", "C03", [(SC + "GMAT_sphere.py", "            return ((29*a**2 - 3*a*b + 29*b**2)*(ap - bp))/(3465.*math.sqrt(2)*(a - b))", "            return ((29*a**2 - 2*a*b + 29*b**2)*(ap - bp))/(3465.*math.sqrt(2)*(a - b))")],
    "order eight in the sphere on a cell that changes its width and does not touch the origin", "one entry of the mesh-motion matrix is not the integral of its basis functions",
    '''
from h import *
G = api.mod("solver_classes.GMAT_sphere").GMatrix
n = 400; z = np.cos((2 * np.arange(1, n + 1) - 1) * np.pi / 2 / n)
def B(k, x, a, b):
    s = np.clip((2 * x - a - b) / (b - a), -1, 1)
    return np.cos(k * np.arccos(s)) * np.sqrt((1.0 if k == 0 else 2.0) / (np.pi * (b - a)))
worst = 0
x_, w_ = np.polynomial.legendre.leggauss(80)
for (a, b, ap, bp) in ((0.5, 1.5, 0.2, 0.9), (1.0, 1.25, -0.3, 0.5)):
    x = 0.5 * (b - a) * (x_ + 1) + a; w = 0.5 * (b - a) * w_
    for i in range(9):
        for j in range(9):
            h = 1e-6
            # basis functions at fixed x while the edges move (the motion shifts the argument and the width)
            d = (B(i, x, a + h * ap, b + h * bp) - B(i, x, a - h * ap, b - h * bp)) / (2 * h)
            want = (w * x * x * d * B(j, x, a, b)).sum()
            if i == 0: worst = max(worst, abs(G(i, j, a, b, ap, bp) / np.pi - want))
check(worst < 1e-6, "first row of the mesh-motion matrix against integrals: %g" % worst)
''')

add("S17", "C24", [("solver_functions/main_functions.py", "            if choose_xs == False:\n                xs = find_nodes(edges, M, geometry)\n            elif choose_xs == True:\n                xs = specified_xs\n            output = make_output(tt,",
                    "            if it == eval_array.size - 1 and choose_xs == False: # the list for tfinal is known already\n                pass\n            elif choose_xs == False:\n                xs = find_nodes(edges, M, geometry)\n            elif choose_xs == True:\n                xs = specified_xs\n            output = make_output(tt,")],
    "a list of output times without chosen points, on a moving mesh", "the points of the last output time are those of the time before",
    '''
from h import *
mf = api.mod("solver_functions.main_functions")
c = api.cfg(kind="gaussian_IC", geometry="slab", moving=True, N_space=4, N_ang=2, M=1, x0=0.5, tfinal=2.0, sigma=0.5)
class Sol: pass
def fake(fun, span, y0, **k):
    s = Sol(); s.t = np.asarray(k["t_eval"] if k.get("t_eval") is not None else [0, 1.0, span[1]]); s.y = np.repeat(np.asarray(y0)[:, None], s.t.size, 1); s.success = True; s.nfev = 0; s.message = ""; s.status = 0; return s
if hasattr(mf, "solve_ivp"): mf.solve_ivp = fake
else: mf.integrate.solve_ivp = fake
ts = np.array([0.5, 1.0, 2.0])
r = api.solve(c, eval_times=True, eval_array=ts)
m = api.mesh(c); f = api.mod("solver_classes.functions").find_nodes
for i, t in enumerate(ts):
    m.move(t); check(np.allclose(r["xs"][i], f(m.edges, 1, api.geom("slab")), atol=1e-12), "points of output time %g" % t)
''')

add("S18", "C04", [(SC + "mesh.py", "            edges[-3] = interpolated_wave_locations[0] \n            if edges[-3] < self.edges0[-3]:\n                edges[-3] = self.edges0[-3]\n", "            edges[-3] = interpolated_wave_locations[0] \n")],
    "a diffusive square source whose thermal front has just left the source", "edges of the moving mesh cross each other while the front is close to the source",
    '''
from h import *
n = 12; T = 2.0
t = [1.05 * T * k / (n - 1) for k in range(n)]; front = [0.5 + 1e-4 * k for k in range(n)]
c = api.cfg(kind="square_source", geometry="slab", thick=True, moving=True, move=1, N_space=16, x0=0.5, finite=True, width=1e6, pad=0.01, leader_pad=0.02, tfinal=T,
            wave=[t, [-v for v in front], [v + 0.2 for v in front], front])
m = api.mesh(c)
for s in (0.2, 0.5, 1.0, 1.9, 2.0):
    m.move(s); check((np.diff(m.edges) > 0).all(), "edges increase at t=%g" % s)
''')

add("S19", "C23", [(SC + "functions.py", "         mum =  (x[ix] - x[ix-1])*0.5 + x[ix-1]\n         psim = 0.5 * (psi[ix] + psi[ix-1])\n         deltamu = mup - mum\n         res = (-(1-mum**2) * psim ) / deltamu",
                    "         mum =  (x[ix] - x[ix-1])*0.5 + x[ix-1]\n         psim = 0.5 * (psi[ix] + psi[ix-1])\n         deltamu = x[ix] - x[ix-1]\n         res = (-(1-mum**2) * psim ) / deltamu")],
    "the last direction of a spherical problem with any rule whose directions are not evenly spaced", "angular redistribution no longer sums to zero over the directions, so it creates particles",
    '''
from h import *
f = api.mod("solver_classes.functions").finite_diff_uneven
r = np.random.default_rng(3)
for n in (4, 8):
    mus, ws = np.polynomial.legendre.leggauss(n)
    psi = r.uniform(0, 1, n)
    # widths of the angular cells the differences belong to
    mid = np.concatenate(([-1.0], 0.5 * (mus[1:] + mus[:-1]), [1.0]))
    s = sum((mid[i + 1] - mid[i]) * f(mus, i, psi, i == 0, i == n - 1) for i in range(n))
    check(abs(s) < 1e-12, "angular differences telescope: %g" % s)
''')

add("S20", "C25", [("solver.py", "                self.r_times[count] += (time)/self.N_runs\n",
                   "                self.r_times[count] += (time)/(nr + 1) # average over the repetitions\n")],
    "a script that repeats its runs", "the reported time of a run is not the mean time of its repetitions",
    '''
from h import *
import inspect, re
s = api.mod("solver"); src = inspect.getsource(s)
sv = api.mod("loading_and_saving.save_output").save_output
names = []
def rec(self, *a): pass
M = [v for v in vars(s).values() if inspect.isclass(v) and v.__module__ == s.__name__][0]
import yaml, contextlib, io
sv.save_solution = rec
took = iter([1.0, 2.0, 5.0, 8.0])
def fake(*a, **k):
    n, A, Mo = a[1], a[2], a[3]; x = np.linspace(-1, 1, 5); z = np.zeros(1)
    return (x, x * 0, np.zeros((A, 5)), np.zeros((A, 2)), np.zeros(2), x * 0, next(took), np.zeros((A, n, Mo + 1)), np.zeros(A), np.zeros(A), np.linspace(-1, 1, n + 1), z, z, z, z, z, z, z, np.zeros(A))
s.solve = fake
o = M.__new__(M)
class Any(dict):
    def __missing__(self, k): return 0
base = dict(tfinal=1.0, N_runs=2, N_angles=[4, 4], major="cells", N_spaces=[4, 8], Ms=[1, 1], x0=[3.0, 4.0], source_type=[0, 0, 0, 0, 1, 0, 0], choose_xs=False, finite_domain=False, t0=1.0, sigma_t=1.0, sigma_s=1.0, t_nodes=2,
            move_type=[1, 0, 0], thermal_couple={"none": 1}, temp_function=[0, 0], rt=1e-3, at=1e-3, e_initial=0.0, weights="gauss_legendre", sigma=0, particle_v=1.0, edge_v=1.0, cv0=0.0, estimate_wavespeed=False,
            find_wave_loc=False, thick=False, mxstp=1.0, find_edges_tol=1e-9, source_strength=1.0, move_factor=1.0, integrator="BDF", l=1.0, save_wave_loc=False, pad=0.0, leader_pad=0.0, xs_quad=2, eval_times=False,
            eval_array=[1.0], boundary_on=[0, 0], boundary_source_strength=1.0, boundary_source=False, sigma_func={"constant": 1}, Msigma=0, domain_width=1.0, fake_sedov_v0=0.0, test_dimensional_rhs=False, epsilon=1.0,
            geometry={"slab": 1, "sphere": 0}, saving=True, benchmarking=False, c_scaling=False, scattering_ratio=1.0, problem_type="transport", r_times=[0.0, 0.0], RMS_list=[0.0, 0.0], RMS_list_energy=[0.0, 0.0], bench_type="full",
            save_solution=True, thermal_couple_list=None, ask_for_bench=False)
for k, v in base.items(): setattr(o, k, v)
with contextlib.redirect_stdout(io.StringIO()): o.main(False, True)
check(np.allclose(o.r_times, [3.0, 5.0]), "mean times of the runs: %s" % o.r_times)
''')

add("S21", "C26", [("solver_functions/run_functions.py", "        b3 =  min(x, b2)\n\n        # print(b1, b2, b3, b4, 'bs', x, 'x', t0, 't0')", "        b3 =  min(x, 0.0)\n\n        # print(b1, b2, b3, b4, 'bs', x, 'x', t0, 't0')")],
    "a moving shock and a ray that ends between the centre and the place where it met the shock (or the other way round)", "a part of the ray is attenuated with the opacity of both sides of the shock or of neither",
    '''
from h import *
import math
from scipy.integrate import quad
o = api.mod("solver_functions.run_functions").run(); o.v0, o.t0_source = 0.02, 100.0
def want(mu, T, x):
    te = T - (x + 5) / mu
    if te < 0: return 0.0
    def op(y):
        s = y + o.v0 * (te + (y + 5) / mu)
        return math.exp(-((s + 1) / 2) ** 2) if s >= 0 else 0.2
    y = -(o.v0 * 5 + te * o.v0 * mu) / (o.v0 + mu); cut = [-5.0] + ([y] if -5 < y < x else []) + [x]
    return math.exp(-sum(quad(op, a, b)[0] for a, b in zip(cut[:-1], cut[1:])) / mu)
worst = 0
for mu in (1.0, 0.5):
    for x in (-4.0, -1.0, -0.3, -0.05, 0.02, 0.2, 1.0, 4.0):
        worst = max(worst, abs(o.fake_sedov(mu, 25.0, x) - want(mu, 25.0, x)))
check(worst < 1e-6, "benchmark against the attenuation along the ray: %g" % worst)
''')

add("S22", "C08", [(SC + "sources.py", "                elif self.source_type[5] == 1:\n                    for j in range(self.M+1):\n                        self.integrate_quad(t, xL, xR, j, self.gaussian_source)",
                    "                elif self.source_type[5] == 1 and t <= self.t0: # nothing to integrate later\n                    for j in range(self.M+1):\n                        self.integrate_quad(t, xL, xR, j, self.gaussian_source)")],
    "a Gaussian source without uncollided treatment, a time after it is switched off, after earlier calls", "the source of an earlier call stays switched on (and is scaled again)",
    '''
from h import *
c = api.cfg(kind="gaussian_source", geometry="slab", t0=1.0, tfinal=3.0, sigma=0.5, strength=1.5, M=2)
b = api.build(c); s = api.mod("solver_classes.sources").source_class(b); u = api.mod("solver_classes.uncollided_solutions").uncollided_solution(b)
s.make_source(0.5, -0.2, 0.3, u); first = s.S.copy()
s.make_source(2.0, -0.2, 0.3, u)
check(np.abs(s.S).max() == 0, "no source after it is switched off (%s)" % s.S)
''')

add("S23", "C07", [(SC + "phi_class.py", "                self.P[i]  = np.sum(np.multiply(u[:,i],self.ws))\n            if", "                p = np.sum(np.multiply(u[:,i],self.ws))\n                self.P[i]  = p if abs(p) >= 1e-8 else 0.0 # no round-off\n            if")],
    "a weak source or the far tail of a flux (values around 1e-9)", "scattering is switched off where the flux is small, so the equations are not linear any more",
    '''
from h import *
c = api.cfg(kind="square_IC", geometry="slab", M=2, N_ang=4, N_space=4, moving=False)
s = api.system(c, make_ic=False)
V = np.random.default_rng(1).uniform(0.1, 1, s.shape)
a = s.rhs(0.4, V).ravel(); b = s.rhs(0.4, V * 1e-10).ravel()
check(np.abs(b * 1e10 - a).max() < 1e-9 * np.abs(a).max(), "equations without a source are linear in the flux")
''')
