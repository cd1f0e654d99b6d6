SC = "solver_classes/"
SEEDS = []
def add(*a): SEEDS.append(a)

add("S24", "C06", [(SC + "phi_class.py", "                for l in range(self.N_ang):\n", "                for l in range(2 * int(self.N_ang / 2)):\n")],
    "a space dependent opacity with an odd number of directions", "particles that fly in the last direction vanish when they are scattered",
    '''
from h import *
for n in (2, 3, 4, 5):
    c = api.cfg(kind="square_IC", geometry="slab", M=2, N_ang=n, N_space=4, moving=False, opacity="siewert1", Msigma=2, tfinal=1.0)
    s = api.system(c, make_ic=False)
    V = np.zeros(s.shape); V[n - 1, 1, 0] = 1.0
    r = np.asarray(s.rhs(0.4, V)).reshape(s.shape)
    check(r[0, 1, 0] > 1e-3, "direction %d of %d is scattered into direction 1 (%g)" % (n, n, r[0, 1, 0]))
''')

add("S25", "C09", [(SC + "rhs_class_1.py", "                    RHS -= np.dot(MPRIME, U)\n", "                    if space > 0: # the centre does not move\n                        RHS -= np.dot(MPRIME, U)\n")],
    "a sphere whose first cell grows (a shell pulse or any mesh whose inner edges move)", "the density of the first cell is not thinned out when the cell grows",
    '''
from h import *
old = Api.tables
def tables(self): # entries of order zero
    g = old(self); g[5][0, 0, :] = 1 / 3; g[7][0, 0, :] = 1 / 2
    return g
Api.tables = tables
x_, w_ = np.polynomial.legendre.leggauss(60)
def total(V, e, ws):
    t = 0.0
    for k in range(V.shape[1]):
        a, b = e[k], e[k + 1]; x = 0.5 * (b - a) * (x_ + 1) + a; w = 0.5 * (b - a) * w_ * x * x
        s = 2 * (x - a) / (b - a) - 1
        for j in range(V.shape[2]):
            t += (w * np.cos(j * np.arccos(s)) * np.sqrt((1.0 if j == 0 else 2.0) / (np.pi * (b - a)))).sum() * (ws @ V[:, k, j])
    return t
c = api.cfg(kind="plane_IC", geometry="sphere", M=0, N_ang=4, N_space=4, moving=True, x0=0.5, tfinal=2.0)
s = api.system(c, make_ic=False); m = api.mesh(c); _, ws = api.quadrature(4, "gauss_legendre")
V = np.zeros(s.shape); V[:, 0:2, :] = np.random.default_rng(2).uniform(0.2, 1, (1, 2, 1))
t, h = 0.7, 1e-4
R = np.asarray(s.rhs(t, V)).reshape(s.shape)
m.move(t + h); p = total(V + h * R, m.edges.copy(), ws); m.move(t - h); q = total(V - h * R, m.edges.copy(), ws); m.move(t)
d = (p - q) / (2 * h)
check(abs(d) < 1e-5 * abs(total(V, m.edges, ws)), "particles in a sphere without absorption: rate of change %g" % d)
''')

add("S26", "C22", [(SC + "sources.py", "                elif self.source_type[5] == 1:\n                    for j in range(self.M+1):\n                        self.integrate_quad(", "                elif self.source_type[5] == 1:\n                    for j in range(min(self.M, 2)+1): # a smooth source\n                        self.integrate_quad(")],
    "a Gaussian source without uncollided treatment and basis functions of order three or more", "the orders above two of the source are missing: the order of convergence stays that of order two",
    '''
from h import *
c = api.cfg(kind="gaussian_source", geometry="slab", t0=5.0, tfinal=3.0, sigma=0.5, M=5)
b = api.build(c); s = api.mod("solver_classes.sources").source_class(b); u = api.mod("solver_classes.uncollided_solutions").uncollided_solution(b)
a, e = 0.1, 1.2
s.make_source(0.5, a, e, u)
x_, w_ = np.polynomial.legendre.leggauss(40); x = 0.5 * (e - a) * (x_ + 1) + a
for j in range(6):
    P = np.polynomial.legendre.Legendre.basis(j)(x_) * np.sqrt((2 * j + 1) / (e - a))
    want = 0.5 * (e - a) * (w_ * np.exp(-x ** 2 / 0.25) * P).sum()
    check(abs(s.S[j] - want) < 1e-6, "moment %d of the source: %g, expected %g" % (j, s.S[j], want))
''')

add("S27", "C27", [("plots/plot_functions/coeff_con.py", "            weight_avg[j] = np.sum(ws*sol_matrix[:,k,j])/np.sum(ws)", "            weight_avg[j] = np.sum(ws*sol_matrix[:,k,j])/2 # weights of [-1, 1]")],
    "weights that do not add up to two", "the direction average of stored coefficients is scaled",
    '''
from h import *
f = api.mod("plots.plot_functions.coeff_con").coeff_con
r = np.random.default_rng(3); sol = r.normal(size=(4, 3, 3))
for ws in (np.array([0.3, 0.7, 0.7, 0.3]), np.array([0.15, 0.35, 0.35, 0.15])):
    for k in range(3):
        check(np.allclose(f(ws, sol, 4, 2, k), (ws[:, None] * sol[:, k, :]).sum(0) / ws.sum()), "average of the coefficients of cell %d, weights %s" % (k, ws))
''')

add("S28", "C18", [("loading_and_saving/load_bench.py", "        if abs(xs[-1]-xs[0]) <= 1e-12:\n", "        if xs[-1] == xs[0]:\n")],
    "points on both sides of the centre that end beyond the table and whose distances from it differ by rounding", "a symmetric list of points is taken for a one-sided one",
    '''
from h import *
import h5py, tempfile, shutil
lb = api.mod("loading_and_saving.load_bench")
d = tempfile.mkdtemp(); os.chdir(d); os.makedirs("moving_mesh_transport/benchmarks")
x = np.linspace(0, 2, 81); A, B = np.exp(-x * x), 1e-2 * np.cos(x)
with h5py.File("moving_mesh_transport/benchmarks/benchmarks.hdf5", "w") as f: f.create_group("square_IC").create_dataset("t = 10.0", data=np.array([x, A, B]))
o = sys.stdout; sys.stdout = open(os.devnull, "w")
res = []
for eps in (0.0, 4e-16):
    p = np.abs(np.array([-2.7, -2.4, -1.5, -0.5, 0.5, 1.5, 2.4, 2.7])); p[-1] += eps
    try: res.append(lb.load_bench([0, 1, 0, 0, 0, 0], 10.0, 0.5, 1.0, 0)(p)[0])
    except Exception as e: res.append(repr(e))
sys.stdout = o; os.chdir("/"); shutil.rmtree(d)
for r in res:
    check(not isinstance(r, str), "benchmark on both sides: %s" % (r if isinstance(r, str) else ""))
    check(np.allclose(r[2:6], np.exp(-np.array([1.5, 0.5, 0.5, 1.5]) ** 2), atol=1e-5) and np.all(r[[0, 1, 6, 7]] == 0), "values %s" % r)
''')

add("S29", "C16", [("loading_and_saving/save_output.py", "        if f[folder_name].__contains__('weights/' + full_str):\n            del f[folder_name]['weights/' + full_str]\n            \n        dset3  = f[folder_name].create_dataset('weights/' + full_str, data = ws) ",
                   "        if f[folder_name].__contains__('weights/' + full_str) and f[folder_name]['weights/' + full_str].shape != np.shape(ws):\n            del f[folder_name]['weights/' + full_str]\n        if not f[folder_name].__contains__('weights/' + full_str):\n            dset3  = f[folder_name].create_dataset('weights/' + full_str, data = ws) ")],
    "a run that is repeated with another quadrature rule of the same size", "the weights of the first run are loaded with the results of the second",
    '''
from h import *
import h5py, tempfile, shutil
so, ls = api.mod("loading_and_saving.save_output"), api.mod("loading_and_saving.load_solution")
d = tempfile.mkdtemp(); os.chdir(d); os.makedirs("moving_mesh_transport/local_run_data")
h5py.File("moving_mesh_transport/local_run_data/run_data.hdf5", "w").close()
def save(ws, v):
    s = so.save_output(1.0, [4], [1], [0, 1, 0, 0, 0, 0], 0, 0, "cells", 0, 0, 1.0, 0, np.array([0.5]), 0.0, "transport", [2], 1.0)
    s.save_solution(np.linspace(0, 1, 5), np.full(5, v), np.zeros(5), np.full((2, 4, 2), v), np.linspace(0, 1, 5), 0.5, ws, 4, False, np.full((2, 5), v), 1.0, np.array([-1, 1.0]))
def load():
    l = ls.load_sol("transport", "square_IC", "rad", 1.0, False, 0.0, "run_data.hdf5"); l.call_sol(1.0, 1, 0.5, 4, "rad", 0, 0, 1.0); return l.phi[0], l.ws
o = sys.stdout; sys.stdout = open(os.devnull, "w")
save(np.array([1.0, 1.0]), 1.0); a = load(); save(np.array([0.5, 1.5]), 2.0); b = load()
sys.stdout = o; os.chdir("/"); shutil.rmtree(d)
check(np.allclose(a[1], [1, 1]) and np.allclose(b[1], [0.5, 1.5]) and b[0] == 2.0, "weights %s then %s" % (a[1], b[1]))
''')
