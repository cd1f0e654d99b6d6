"""C02 basis functions: orthonormality, values, edge values, derivatives on every cell."""
import numpy as np, math
from oracle import Bleg, Bche, dBleg, gl

RULE = ("one case = one random cell [a,b] (width 1e-5..1e3, any offset) with random points and every degree; "
        "distinct = distinct (family, degree, width decade, offset kind) tuples; evaluations compare with numpy.polynomial references")
ASSUMPTIONS = ["degrees 0..12 (Chebyshev) and 0..20 (Legendre; derivative 0..11), the range the code implements"]
BUDGET = {"quick": 120, "thorough": 1200}


def cases(rng, tier):
    out = []
    for k in range(1500 if tier == "quick" else 6000):
        h = 10 ** rng.uniform(-5, 3)
        off = rng.choice([0.0, -h / 2, rng.uniform(-2, 2), rng.uniform(-1, 1) * h * 50, 0.5])
        out.append({"a": off, "b": off + h, "kind": "zero" if off == 0 else "centred" if off == -h / 2 else "shifted", "seed": rng.randrange(1 << 30)})
    out.append({"a": -1.0, "b": 1.0, "kind": "reference", "seed": 5})
    return out


def run_case(env, case, rec):
    F = env.api.mod("solver_classes.functions")
    a, b = case["a"], case["b"]
    h = b - a
    r = np.random.default_rng(case["seed"])
    x = np.concatenate([[a, b, 0.5 * (a + b)], a + h * r.random(6)])
    cond = max(1.0, (abs(a) + abs(b)) / h)           # error of the reference coordinate
    dec = int(math.floor(math.log10(h)))
    # --- Legendre family
    for n in list(range(0, 13)) + [int(r.integers(13, 21))]:
        want = Bleg(n, x, a, b)
        tol = 1e-13 * cond * (n + 1) ** 2 + 1e-12
        sc = math.sqrt((2 * n + 1) / h)
        got = F.normPn(n, x, a, b)
        rec.bucket("P", n, dec, case["kind"])
        rec.close(got, want, tol, "legendre-value", "normPn(%d) on [%g,%g]" % (n, a, b), scale=sc)
        rec.close(F.normPn_scalar(n, float(x[3]), a, b), want[3], tol, "legendre-scalar", "normPn_scalar(%d)" % n, scale=sc)
        z = (2 * x - a - b) / h
        zc = np.clip(z, -1, 1)
        rec.close(F.Pn(n, zc, -1.0, 1.0), Bleg(n, zc, -1, 1) / math.sqrt((2 * n + 1) / 2), 1e-11, "legendre-reference", "Pn(%d)" % n)
        if n <= 11:
            rec.close(F.dx_normPn(n, x, a, b), dBleg(n, x, a, b), 1e-12 * cond * (n + 1) ** 4 + 1e-10, "legendre-derivative",
                      "dx_normPn(%d) on [%g,%g]" % (n, a, b), scale=sc * 2 / h * max(1, n * (n + 1) / 2))
    # --- Chebyshev family
    for n in range(0, 13):
        want = Bche(n, x, a, b)
        sc = math.sqrt(2 / (math.pi * h))
        rec.bucket("T", n, dec, case["kind"])
        rec.close(F.normTn(n, x, a, b), want, 1e-12 * cond * (n + 1) ** 2 + 1e-10, "chebyshev-value", "normTn(%d) on [%g,%g]" % (n, a, b), scale=sc)
    # --- orthonormality on this very cell
    q = 24
    xg, wg = gl(q, a, b)
    P = np.array([F.normPn(n, xg, a, b) for n in range(11)])
    rec.close((P * wg) @ P.T, np.eye(11), 1e-11 * cond + 1e-10, "legendre-orthonormal", "Gram matrix on [%g,%g]" % (a, b))
    th = (2 * np.arange(1, q + 1) - 1) * math.pi / (2 * q)
    xc = a + h * (np.cos(th) + 1) / 2
    T = np.array([F.normTn(n, xc, a, b) for n in range(11)])
    # weight 2/sqrt(1-z^2) in x: integral = h/2 * 2 * pi/q * sum
    G = (T @ T.T) * (h * math.pi / q)
    rec.close(G, np.eye(11), 1e-10 * cond + 1e-9, "chebyshev-orthonormal", "weighted Gram matrix on [%g,%g]" % (a, b))
    inner = xc[1:-1]
    if cond < 1e3:
        zz = (2 * inner - a - b) / h
        rec.close(F.weight_func_Tn(inner, a, b), 2 / np.sqrt(1 - zz ** 2), 1e-8 * cond, "chebyshev-weight", "weight function")
    # --- edge values used by the surface terms
    for geom in ("slab", "sphere"):
        c = env.api.cfg(geometry=geom, N_space=4, N_ang=2, M=3, kind="square_IC", moving=False)
        lu = env.cache(("lu", geom), lambda: env.api.mod("solver_classes.numerical_flux").LU_surf(env.api.build(c)))
        for n in range(0, 13):
            L, R = lu.B_LR_func(n, math.sqrt(h))
            ref = (Bleg if geom == "slab" else Bche)(n, np.array([-h / 2, h / 2]), -h / 2, h / 2)
            rec.close([L, R], ref, 1e-11, "edge-values-" + geom, "B_LR_func(%d)" % n, scale=max(abs(ref)))
