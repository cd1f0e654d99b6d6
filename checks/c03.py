"""C03 element matrices equal the integrals they stand for."""
import numpy as np, math
import core
from oracle import basis, dbasis, dBdt, gram, gl

RULE = ("one case = one (geometry, order M, cell, edge velocities) tuple; every entry of every matrix is compared with numerical "
        "integration of the basis; distinct = distinct (geometry, matrix, row, column) entries exercised with a non-zero value")
ASSUMPTIONS = ["M <= 9 in spherical geometry (the coefficient files name entries by concatenated indices, so they hold ten orders), M <= 12 in slab geometry", "coefficient tables for the spherical matrices are synthesised exactly by the harness (the repository reads them from data files that are not part of it)"]
BUDGET = {"quick": 150, "thorough": 1500}


def cases(rng, tier):
    out = []
    for k in range(500 if tier == "quick" else 3000):
        geom = "sphere" if k % 3 else "slab"
        M = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9]) if geom == "sphere" else rng.randrange(0, 13)
        h = 10 ** rng.uniform(-3, 1)
        a = rng.choice([0.0, rng.uniform(0, 3), h * rng.uniform(0, 4)])
        if geom == "slab": a = rng.uniform(-3, 3)
        mode = rng.choice(["both", "right", "left", "none", "translate"])
        va, vb = rng.uniform(-2, 2), rng.uniform(-2, 2)
        if mode == "right": va = 0.0
        if mode == "left": vb = 0.0
        if mode == "none": va = vb = 0.0
        if mode == "translate": vb = va
        if a == 0.0 and geom == "sphere" and rng.random() < .5: va = 0.0
        out.append({"geom": geom, "M": M, "a": a, "b": a + h, "va": va, "vb": vb, "reuse": rng.random() < .5,
                    "a2": a + rng.uniform(0, 1), "h2": 10 ** rng.uniform(-2, 1)})
    for M in range(0, 10):
        out.append({"geom": "sphere", "M": M, "a": 0.2, "b": 0.9, "va": 0.9, "vb": 1.2, "reuse": True, "a2": 1.0, "h2": 2.0})
    for k in range(12 if tier == "quick" else 120):
        h = 10 ** rng.uniform(-2, 1); a = rng.choice([0.0, rng.uniform(0, 3)])
        out.append({"geom": "closed", "M": 10, "a": a, "b": a + h, "va": rng.choice([0.0, rng.uniform(-2, 2)]), "vb": rng.uniform(-2, 2)})
    return out


def refs(geom, M, a, b, va, vb):
    B, dB = basis(geom), dbasis(geom)
    w2 = (lambda x: 1 + 0 * x) if geom == "slab" else (lambda x: x * x)
    f = lambda i, x: B(i, x, a, b)
    d = lambda i, x: dB(i, x, a, b)
    t = lambda i, x: dBdt(geom, i, x, a, b, va, vb)
    R = {"L": gram(geom, a, b, M, w2, d, f), "G": gram(geom, a, b, M, w2, t, f)}
    if geom == "sphere":
        R["Mass"] = gram(geom, a, b, M, w2, f, f)
        R["J"] = gram(geom, a, b, M, lambda x: x, f, f)
        # d/dt of the mass matrix of the moving cell: transport theorem
        tt = gram(geom, a, b, M, w2, t, f)
        e = np.array([B(i, np.array([a, b]), a, b) for i in range(M + 1)])
        R["MPRIME"] = tt + tt.T + b * b * vb * np.outer(e[:, 1], e[:, 1]) - a * a * va * np.outer(e[:, 0], e[:, 0])
    return R


def run_case(env, case, rec):
    geom, M = case["geom"], case["M"]
    a, b, va, vb = case["a"], case["b"], case["va"], case["vb"]
    if geom == "closed":        # the closed forms themselves, to the highest order they list
        g = env.api.mod("solver_classes.GMAT_sphere"); R = refs("sphere", M, a, b, va, vb)
        for name, f in (("G", getattr(g, "GMatrix", None)), ("MPRIME", getattr(g, "MPRIME", None))):
            if f is None: raise core.Skip("no closed form " + name)
            got = np.array([[f(i, j, a, b, va, vb) for j in range(M + 1)] for i in range(M + 1)], dtype=float) / math.pi
            scale = b * b / (b - a) * (abs(va) + abs(vb)) * ((M + 1) ** 2 if name == "G" else M + 1)
            rec.close(got, R[name], 2e-10, "closed-" + name, "%s on [%g,%g] velocities (%g,%g), orders to %d" % (name, a, b, va, vb, M), scale=scale)
            rec.bucket("closed", name)
        return
    c = env.api.cfg(geometry=geom, N_space=4, N_ang=2, M=M, kind="square_IC")
    G = env.cache(("m", geom, M), lambda: env.api.matrices(env.api.build(c)))
    if case["reuse"]:          # matrices objects are reused from cell to cell: no trace of the previous cell may remain
        G.make_all_matrices(case["a2"], case["a2"] + case["h2"], 0.3, -0.7)
    G.make_all_matrices(a, b, va, vb)
    for name, want in refs(geom, M, a, b, va, vb).items():
        got = np.array(getattr(G, name))
        h = b - a
        r = max(abs(a), abs(b))
        natural = {"L": (r * r if geom == "sphere" else 1.0) / h * (M + 1) ** 2, "Mass": r * r, "J": r,
                   "G": (r * r if geom == "sphere" else 1.0) / h * (abs(va) + abs(vb)) * (M + 1) ** 2,
                   "MPRIME": r * r / h * (abs(va) + abs(vb)) * (M + 1)}[name] + 1e-300
        # the natural size of the entries; decimal literals in the spherical tables are exact to about 1e-15
        rec.close(got, want, 2e-10, "%s-%s" % (geom, name), "%s %s on [%g,%g] velocities (%g,%g), M=%d" % (geom, name, a, b, va, vb, M), scale=natural)
        nz = np.argwhere(np.abs(want) > 1e-7 * natural)
        for i, j in nz: rec.bucket(geom, name, int(i), int(j))
        if name in ("Mass", "J"):
            rec.close(got, got.T, 1e-13, "symmetric", name, scale=natural)
        if name == "Mass":
            ev = np.linalg.eigvalsh(0.5 * (got + got.T))
            rec.ok(ev[0] > 0, "mass-positive", "smallest eigenvalue %g" % ev[0])
