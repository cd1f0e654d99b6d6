"""C12 initial conditions: the coefficients represent the prescribed initial angular flux."""
import numpy as np, math
import oracle as O

RULE = ("one case = one problem configuration; pointwise values of the initial condition, every projected coefficient and the number of particles it represents "
        "are compared with the definition; distinct = distinct (geometry, problem, moving, order, relation) combinations observed")
ASSUMPTIONS = ["smooth data: the allowed error is three times the error of the package's own quadrature order, or 1e-9", "static plane pulse: an even number of cells (the only case the package defines)",
               "material energy in slab geometry"]
BUDGET = {"quick": 120, "thorough": 1200}
KINDS = ["gaussian_IC", "gaussian_noniso", "square_IC", "plane_moving", "plane_static", "square_source", "gaussian_source", "boundary", "shell", "point_moving", "point_static", "uncollided", "energy", "pointwise", "dipole_static"]


def cases(rng, tier):
    out = []
    for k in range(1000 if tier == "quick" else 6000):
        p = KINDS[k % len(KINDS)]
        c = dict(M=rng.choice([0, 1, 2, 3, 4, 6, 8, 10]), N_ang=rng.choice([2, 4, 6, 3, 5, 7, 12, 20]), tfinal=rng.choice([rng.uniform(0.2, 4), rng.uniform(0.2, 4), rng.uniform(4, 60)]), strength=rng.choice([1.0, rng.uniform(0.1, 5), 10 ** rng.uniform(-7, 4)]),
                 sigma=rng.choice([0.5, rng.uniform(0.2, 2), rng.uniform(0.2, 2), rng.uniform(2, 6)]), x0=rng.choice([0.5, rng.uniform(0.2, 3), rng.uniform(0.2, 3), 10 ** rng.uniform(-2, -0.5)]), moving=rng.random() < .5, geometry="slab",
                 N_space=rng.choice([2, 3, 4, 5, 6, 8, 13, 32]), kind="gaussian_IC", weights=rng.choice(["gauss_legendre", "gauss_lobatto"]))
        if p == "gaussian_noniso": c.update(noniso=True, weights="gauss_legendre")
        if p in ("square_IC", "square_source"): c.update(kind=p, N_space=rng.choice([4, 8, 12, 16, 32]))
        if p == "plane_moving": c.update(kind="plane_IC", moving=True, x0=rng.choice([1e-11, 1e-3, 0.5]))
        if p == "plane_static": c.update(kind="plane_IC", moving=False, x0=1e-11, N_space=rng.choice([4, 6, 8, 10, 18, 32]))
        if p in ("gaussian_source", "boundary"): c.update(kind=p, N_space=4)
        if p == "dipole_static": c.update(kind="dipole", moving=False, x0=rng.choice([0.1, 0.5]), N_space=rng.choice([2, 4, 6, 8]))
        if p == "shell": c.update(kind="square_IC", geometry="sphere", N_space=rng.choice([3, 4, 5, 6, 9]))
        if p == "point_moving": c.update(kind="plane_IC", geometry="sphere", moving=True, N_space=rng.choice([2, 3, 5]))
        if p == "point_static": c.update(kind="plane_IC", geometry="sphere", moving=False, N_space=rng.choice([2, 4, 6]), x0=1e-3)
        if p == "uncollided": c.update(uncollided=True, kind=rng.choice(["gaussian_IC", "square_IC", "plane_IC"]), N_space=4)
        if p == "energy": c.update(transfer=True, e_init=rng.uniform(1e-10, 3))
        out.append({"p": p, "c": c, "seed": rng.randrange(10 ** 6)})
    out.append({"p": "plane_static", "seed": 0, "c": dict(M=2, N_ang=2, N_space=2, tfinal=1.0, kind="plane_IC", moving=False, x0=1e-11, geometry="slab")})
    return out


def run_case(env, case, rec):
    p = case["p"]; c = env.api.cfg(**case["c"])
    geom, M, A, N = c["geometry"], c["M"], c["N_ang"], c["N_space"]
    S, x0, sg = c["strength"], c["x0"], c["sigma"]
    mus, ws = env.api.quadrature(A, c["weights"])
    if p == "pointwise": return pointwise(env, case, c, rec)
    b = env.api.build(c, make_ic=True)
    IC = np.array(b.IC)
    e = np.array(env.api.mesh(c).edges)
    rec.ok(IC.shape == (A + (1 if c["transfer"] else 0), N, M + 1), "shape", str(IC.shape))
    tag = "%s moving=%s M=%d N=%d" % (p, c["moving"], M, N)
    amp = lambda mu: 1.0
    width = f = None
    if p in ("gaussian_IC", "energy"): f = lambda x: 0.5 * S * np.exp(-x ** 2 / sg ** 2)
    elif p == "gaussian_noniso": f = lambda x: S * np.exp(-x ** 2 / sg ** 2); amp = lambda mu: 1.0 if mu > 0 else 0.0
    elif p == "square_IC": f = lambda x: 0.5 * S * (np.abs(x) < x0)
    elif p == "plane_moving": f = lambda x: 0.5 * S / (2 * x0) * (np.abs(x) < x0)
    elif p == "plane_static":
        f = None
    elif p in ("square_source", "gaussian_source", "boundary", "uncollided"): f = lambda x: 0 * x
    elif p == "shell": f = lambda x: 0.5 * S * 3 / (4 * math.pi * x0 ** 3) * (x < x0)
    elif p == "point_moving": f = lambda x: S / x0 ** 3 * (x < x0)
    elif p == "point_static": f = lambda x: S / e[1] ** 3 * (x < e[1])
    if f is not None:
        for k in range(N):
            h = e[k + 1] - e[k]
            if geom == "slab":
                x, w = O.gl(40, e[k], e[k + 1]); B = np.array([O.Bleg(n, x, e[k], e[k + 1]) for n in range(M + 1)])
                want = (B * w) @ f(x)
                x2, w2 = O.gl(2 * M + 1, e[k], e[k + 1]); B2 = np.array([O.Bleg(n, x2, e[k], e[k + 1]) for n in range(M + 1)])
                slack = 3 * np.abs((B2 * w2) @ f(x2) - want).max()
            else:
                n = 64; z = np.cos((2 * np.arange(1, n + 1) - 1) * math.pi / 2 / n); x = 0.5 * h * (z + 1) + e[k]
                # Chebyshev projection: coefficients c_n with f = sum c_n B_n
                want = np.array([(math.pi / n) * (f(x) * np.cos(m * np.arccos(z))).sum() / (math.pi if m == 0 else math.pi / 2) / math.sqrt((1.0 if m == 0 else 2.0) / (math.pi * h)) for m in range(M + 1)])
                slack = 0.0
            sc = (np.abs(f(x)).max() + (1e-3 if p in ("square_source", "gaussian_source", "boundary", "uncollided") else 0)) * math.sqrt(h) + 1e-300
            for l in range(A):
                rec.close(IC[l, k], want * amp(mus[l]), 1e-9 + slack / sc, "coefficients", tag + " direction %d cell %d" % (l, k), scale=sc)
            if np.abs(want).max() > 0: rec.bucket(geom, p, c["moving"], M, "coefficients")
    # particles
    tot = sum(ws @ np.array([O.cell_mass(geom, IC[:A, k], e[k], e[k + 1]) for k in range(N)]).T[:, k] for k in range(N)) if N else 0
    vol = 4 * math.pi if geom == "sphere" else 1.0
    expect = {"square_IC": 2 * x0 * S, "plane_moving": S, "plane_static": S, "shell": S, "square_source": 0.0, "gaussian_source": 0.0, "boundary": 0.0, "uncollided": 0.0,
              "point_moving": 2 * S * 4 * math.pi / 3, "point_static": 2 * S * 4 * math.pi / 3}.get(p)
    if expect is not None:
        key = "particles"
        if p == "plane_static" and N == 2: key = "plane-static-two-cells"
        rec.close(vol * tot, expect, 1e-9, key, tag + ": particles represented by the initial condition", scale=S)
        rec.bucket(geom, p, c["moving"], M, "particles")
    if p in ("gaussian_IC", "gaussian_noniso") and e[-1] > 4 * sg and M >= 3 and N >= 5 and (e[1] - e[0]) < 1.5 * sg:
        n_right = sum(1 for m in mus if m > 0)
        want = S * math.sqrt(math.pi) * sg * (1.0 if p == "gaussian_IC" else sum(w for m, w in zip(mus, ws) if m > 0))
        rec.close(tot, want, 0.02, "particles", tag, scale=want)
    if p == "dipole_static":
        # one particle-number dipole on the two central cell widths, antisymmetric about the origin
        h = e[N // 2 + 1] - e[N // 2]
        f = lambda x: 0.5 * S / h * (np.where((x > 0) & (x <= h), 1.0, 0) - np.where((x <= 0) & (x > -h), 1.0, 0))
        for k in range(N):
            x2, w2 = O.gl(2 * M + 1, e[k], e[k + 1]); B2 = np.array([O.Bleg(n, x2, e[k], e[k + 1]) for n in range(M + 1)])
            for l in range(A): rec.close(IC[l, k], (B2 * w2) @ f(x2), 1e-11, "coefficients", tag + " direction %d cell %d" % (l, k), scale=S / math.sqrt(h))
        rec.bucket(geom, p, M)
    if p == "plane_static":
        # isotropic, uniform over a central symmetric block of cells, nothing elsewhere
        rec.close(IC, IC[::1, ::-1] * np.where(np.arange(M + 1) % 2, -1, 1), 1e-12, "symmetric", tag, scale=np.abs(IC).max())
        rec.close(IC, np.repeat(IC[:1], A, axis=0), 1e-13, "isotropic", tag, scale=np.abs(IC).max())
        rec.bucket(geom, p, N, "shape")
    if p == "energy":
        want = np.zeros((N, M + 1)); want[:, 0] = c["e_init"] * np.sqrt(np.diff(e))
        rec.close(IC[A], want, 1e-12, "energy", tag + ": uniform initial material energy", scale=c["e_init"])
        rec.bucket(geom, p, M)
    if not c["noniso"]:
        rec.close(IC[:A], np.repeat(IC[:1], A, axis=0), 1e-13, "isotropic", tag, scale=1e-300 + np.abs(IC).max())


def pointwise(env, case, c, rec):
    r = np.random.default_rng(case["seed"])
    x = np.concatenate([r.uniform(-2, 2, 40) * c["x0"], r.uniform(-1, 1, 10) * 4])
    mut = env.api.mod("solver_classes.mutables")
    S, x0, sg = c["strength"], c["x0"], c["sigma"]
    geom = "slab"
    tab = [("gaussian_IC", False, lambda x, mu: 0.5 * S * np.exp(-x ** 2 / sg ** 2)), ("gaussian_IC", True, lambda x, mu: S * np.exp(-x ** 2 / sg ** 2) * (mu > 0)),
           ("square_IC", False, lambda x, mu: 0.5 * S * (np.abs(x) < x0)), ("plane_IC", False, lambda x, mu: 0.25 * S / x0 * (np.abs(x) < x0)),
           ("square_source", False, lambda x, mu: 0 * x), ("gaussian_source", False, lambda x, mu: 0 * x), ("MMS", False, lambda x, mu: 0.5 * np.exp(-x ** 2 / 2)),
           ("dipole", False, lambda x, mu: 0.5 * S / 0.3 * (np.where((x > 0) & (x < 0.3), 1.0, 0) - np.where((x < 0) & (x > -0.3), 1.0, 0)))]
    for kind, noniso, f in tab:
        st = env.api.source_type(kind, noniso)
        for unc in (0, 1):
            if unc and kind in ("MMS", "dipole"): continue
            ic = mut.IC_func(st, unc, x0, S, sg, -0.3, env.api.geom(geom))
            for mu in (-0.6, 0.3, 0.0, -1e-12, 1e-12, 1.0, -1.0):
                got = np.array(ic.function(x.copy(), mu), dtype=float)
                rec.close(got, f(x, mu) if not unc else 0 * x, 1e-12, "pointwise", "%s noniso=%s uncollided=%s mu=%g" % (kind, noniso, unc, mu), scale=S / min(x0, 0.3))
                rec.bucket("pointwise", kind, noniso, unc)
    xr = np.abs(x) + 1e-9
    for kind, f in (("square_IC", lambda x: 0.5 * S * 3 / 4 / math.pi / x0 ** 3 * (x < x0)), ("plane_IC", lambda x: S / x0 ** 3 * (x < x0))):
        ic = mut.IC_func(env.api.source_type(kind), 0, x0, S, sg, 0.0, env.api.geom("sphere"))
        rec.close(np.array(ic.function(xr.copy(), 0.3), dtype=float), f(xr), 1e-12, "pointwise", "sphere " + kind, scale=S / x0 ** 3)
        rec.bucket("pointwise", "sphere", kind)
