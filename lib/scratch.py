"""Scratch working directory with every data file the package reads relative to its cwd.

The package opens 'moving_mesh_transport/matrix_files/*.h5', '.../local_run_data/*.hdf5',
'.../benchmarks/*' relative to the current directory and none of them is shipped with the
repository.  The element-matrix coefficient files are synthesised here from exact rational
arithmetic (integrals of r^k T_i T_j), independent of the code under test.
"""
import os, shutil, tempfile, atexit, math
from fractions import Fraction as F

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "moving_mesh_transport"
ORDER = 9          # highest polynomial order in the synthesised files ('Element{i}{j}' is ambiguous above)


def padd(a, b):
    n = max(len(a), len(b)); r = [F(0)] * n
    for i, c in enumerate(a): r[i] += c
    for i, c in enumerate(b): r[i] += c
    return r

def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return r

def pder(a):
    return [a[i] * i for i in range(1, len(a))] or [F(0)]

def pint(a):
    """integral over [-1,1]"""
    return sum((c * F(2, k + 1) for k, c in enumerate(a) if k % 2 == 0), F(0))

def cheb(n):
    t0, t1 = [F(1)], [F(0), F(1)]
    if n == 0: return t0
    for _ in range(n - 1):
        t0, t1 = t1, padd([F(0)] + [2 * c for c in t1], [-c for c in t0])
    return t1

Z = [F(0), F(1)]
# r = (rL(1-z)+rR(1+z))/2 ; r^2 = rL^2 (1-z)^2/4 + rL rR (1-z^2)/2 + rR^2 (1+z)^2/4
R2 = ([F(1, 4), F(-1, 2), F(1, 4)], [F(1, 2), F(0), F(-1, 2)], [F(1, 4), F(1, 2), F(1, 4)])
R1 = ([F(1, 2), F(-1, 2)], [F(1, 2), F(1, 2)])


def coefficient_tables(order=ORDER):
    """Exact rational tables in the layout read by Chebyshev_matrix_reader/G_L."""
    n = order + 1
    T = [cheb(i) for i in range(n)]
    mass, J, L = {}, {}, {}
    for i in range(n):
        for j in range(n):
            tt = pmul(T[i], T[j])
            q = [pint(pmul(r, tt)) for r in R2]          # int r^2 Ti Tj dz in (rL2, rLrR, rR2)
            lin = [pint(pmul(r, tt)) for r in R1]
            even = (i + j) % 2 == 0
            if i == 0 and j == 0:
                mf, jf = F(1, 2), F(1, 2)
            elif i == 0 or j == 0:
                mf = F(1, 2) if even else F(1)           # code multiplies by sqrt2 / (1/sqrt2)
                jf = F(1)                                # code divides by sqrt2
            else:
                mf = jf = F(1)
            q = [c * mf for c in q]
            if even:
                mass[i, j] = q
            else:
                assert q[1] == 0
                mass[i, j] = [q[0], q[2]]
            J[i, j] = [c * jf for c in lin]
            if i > 0:
                dt = pmul(pder(T[i]), T[j])
                ql = [pint(pmul(r, dt)) for r in R2]
                if not even:
                    f = F(-1) if j == 0 else F(-2)
                    L[i, j] = [c * f for c in ql]
                else:
                    # int r^2 Ti'Tj = K m h ; m h = (rR^2-rL^2)/2
                    assert ql[1] == 0 and ql[0] == -ql[2]
                    K = 2 * ql[2]
                    f = F(1, 2) if j == 0 else F(1)
                    L[i, j] = [K * f, K * f]
    return n, mass, J, L


def _lcm(fr):
    d = 1
    for f in fr:
        d = d * f.denominator // math.gcd(d, f.denominator)
    return d


def write_matrix_files(folder, order=ORDER):
    import h5py, numpy as np
    n, mass, J, L = coefficient_tables(order)
    for name, tab in (("MassMatrix", mass), ("JMatrix", J), ("LMatrix", L)):
        with h5py.File(os.path.join(folder, name + ".h5"), "w") as f:
            den = np.ones((n, n), dtype=np.int64)
            g = f.create_group("coefficients")
            for (i, j), v in tab.items():
                d = _lcm(v); den[i, j] = d
                g.create_dataset("Element%d%d" % (i + 1, j + 1),
                                 data=np.array([[float(c * d) for c in v]]))
            f.create_dataset("denominators", data=den)
    with h5py.File(os.path.join(folder, "GMatrix.h5"), "w") as f:
        f.create_dataset("denominators", data=np.ones((n, n), dtype=np.int64)); f.create_group("coefficients")
    with h5py.File(os.path.join(folder, "VVMatrix.h5"), "w") as f:
        f.create_dataset("denominators", data=np.ones((2, n, n), dtype=np.int64)); f.create_group("coefficients")


def make_scratch(chdir=True):
    d = tempfile.mkdtemp(prefix="mmrt_verif_")
    pid = os.getpid()
    def _clean():
        if os.getpid() == pid and d.startswith(tempfile.gettempdir()):
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(_clean)
    for sub in ("matrix_files", "local_run_data", "benchmarks", "plots"):
        os.makedirs(os.path.join(d, PKG, sub))
    shutil.copytree(os.path.join(REPO, PKG, "input_scripts"), os.path.join(d, PKG, "input_scripts"))
    write_matrix_files(os.path.join(d, PKG, "matrix_files"))
    import h5py
    for nm in ("run_data.hdf5", "wavepoints_crc.hdf5", "wavepoints.h5", "run_data_transport_RMS.h5",
               "run_data_su_olson_RMS.h5", "run_data_final"):
        h5py.File(os.path.join(d, PKG, "local_run_data", nm), "w").close()
    if chdir:
        os.chdir(d)
    return d
