"""Random transport problems (JSON-able) and an independent weak-form reference of the semi-discrete right hand side."""
import numpy as np, math
import oracle as O


def config(rng, small=True, kinds=None, opacity=True, big=True):
    kind = rng.choice(kinds or ["gaussian_IC", "square_IC", "square_source", "gaussian_source", "plane_IC", "boundary", "shell", "point"])
    c = dict(M=rng.choice([0, 1, 2, 3, 4]), N_ang=rng.choice([2, 4, 6, 8]), tfinal=rng.choice([1.0, rng.uniform(0.2, 5)]),
             sigma_t=rng.choice([1.0, rng.uniform(0.2, 4)]), moving=rng.random() < .6, uncollided=False, x0=rng.choice([0.5, rng.uniform(0.2, 2)]),
             strength=rng.choice([1.0, rng.uniform(0.1, 3)]), edge_v=rng.choice([1.0, rng.uniform(0.3, 1.5)]), geometry="slab", kind=kind, sigma=0.5)
    c["sigma_s"] = c["sigma_t"] * rng.choice([0.0, 1.0, rng.uniform(0, 1), 0.5])
    c["N_space"] = rng.choice([2, 3, 4, 5, 6])
    c["t0"] = rng.choice([c["tfinal"] * 2, c["tfinal"] * rng.uniform(0.2, 0.8), c["tfinal"] * 2, c["tfinal"] * rng.uniform(0.2, 0.8), c["tfinal"] * 10 ** rng.uniform(-3, -1)])
    if rng.random() < .2: c["weights"] = "gauss_lobatto"
    if kind in ("square_IC", "square_source"): c["N_space"] = rng.choice([4, 8])
    if kind in ("shell", "point"):
        c.update(kind={"shell": "square_IC", "point": "plane_IC"}[kind], geometry="sphere", N_space=rng.choice([3, 4, 5, 6]))
    if kind == "boundary":
        c.update(boundary_source=True, boundary_on=rng.choice([[1, 0], [0, 1], [1, 1], [0, 0]]), boundary_strength=rng.uniform(0.2, 2),
                 v0=rng.choice([0.0, 0.02]), N_space=rng.choice([2, 4, 6]))
    if opacity and c["geometry"] == "slab" and rng.random() < .3:
        c["opacity"] = rng.choice(["gaussian", "siewert1", "siewert2", "fake_sedov"])
        c["M"] = rng.choice([2, 3, 4]); c["Msigma"] = rng.choice([0, 1, 2, c["M"]])
        if c["opacity"] == "fake_sedov": c["v0"] = 0.02
        if kind != "boundary" and c["kind"] != "boundary" and c["opacity"] == "fake_sedov" : pass
    if c.get("v0") == 0.02 and rng.random() < .4: c["v0"] = rng.uniform(0.05, 0.5) * c["x0"] / c["tfinal"]      # other shocks that stay inside
    if rng.random() < .4: c["sigma"] = rng.choice([rng.uniform(0.2, 1), rng.uniform(1, 4)])
    if rng.random() < .1 and "opacity" not in c: c["x0"] = rng.uniform(2, 8)
    if big and rng.random() < .2:
        # sizes of production runs: one dimension at a time
        what = rng.randrange(4)
        if what == 0: c["N_space"] = rng.choice([12, 16, 24, 32]) if c["kind"] != "plane_IC" or c["geometry"] == "slab" else rng.choice([10, 15])
        elif what == 1: c["N_ang"] = rng.choice([3, 5, 7, 10, 12, 16, 32])
        elif what == 2 and "opacity" not in c: c["M"] = rng.choice([5, 6, 7, 8, 9, 10] if c["geometry"] == "slab" else [5, 6, 7, 8])
        elif kind != "boundary" and "opacity" not in c: c["tfinal"] = rng.uniform(5, 60)
        if what in (0, 1) and rng.random() < .2 and not (c["kind"] == "plane_IC" and c["geometry"] == "sphere"):
            # one of them very large, the others small
            c["M"] = min(c["M"], 2)
            if what == 0: c.update(N_space=rng.choice([64, 96]), N_ang=2 if c["geometry"] == "slab" else 4)
            else: c.update(N_ang=rng.choice([64, 128]), N_space=min(c["N_space"], 4))
    return c


FAMILIES = ["thick_gauss_static", "thick_gauss_moving", "thick_square_linear", "thick_square_thin", "thick_square_follow", "thick_square_static", "finite_source", "sqrt_t"]


def family(rng, extra=("dipole", "thick_plane")):
    """a problem on one of the special meshes (diffusive layouts, tracked fronts, edges that turn round at the end of a source)"""
    import meshes
    f = rng.choice(FAMILIES + list(extra))
    c = meshes.config(rng, f); c.pop("family")
    c.update(N_ang=rng.choice([2, 4, 6, 3]), N_space=min(c["N_space"], 24), M=rng.choice([0, 1, 2, 3]), tfinal=min(c["tfinal"], 12.0), sigma_t=rng.choice([1.0, rng.uniform(0.2, 3)]), strength=rng.choice([1.0, rng.uniform(0.1, 3)]), uncollided=False)
    c["sigma_s"] = c["sigma_t"] * rng.choice([1.0, rng.uniform(0, 1)])
    if "wave" in c: c["wave"] = meshes.wave_array(c["x0"], c["tfinal"], rng)
    if f == "finite_source": c["t0"] = c["tfinal"] * rng.uniform(0.3, 0.7); c["pad"] = c["x0"] + c["edge_v"] * c["tfinal"] * rng.uniform(0.9, 1.2)
    c.setdefault("t0", c["tfinal"] * rng.choice([2, rng.uniform(0.3, 0.9)])); c.setdefault("sigma", 0.5)
    return c


def amplitude(rng_seed):
    """every other state has the size of a deep or a nearly empty medium"""
    r = np.random.default_rng([rng_seed, 77])
    return 1.0 if r.random() < .5 else 10 ** r.uniform(-12, 4)


def floor(c):
    """size of what enters the equations besides the state"""
    if c.get("boundary_source") or c.get("uncollided") or c["kind"] in ("square_source", "gaussian_source", "MMS"): return max(c["boundary_strength"] if c.get("boundary_source") else 0.0, 1.0 if c["kind"] == "MMS" else c["strength"])
    return 1e-300


def state(rng_seed, shape, mode="random"):
    r = np.random.default_rng(rng_seed)
    V = r.normal(size=shape) * amplitude(rng_seed)
    if mode == "decay": V *= 0.5 ** np.arange(shape[2])
    if mode == "isotropic": V = np.repeat(V[:1], shape[0], axis=0)
    if mode == "sparse": V *= (r.random(shape) < .2)
    return V


# -- opacity shapes (documented: unit constant, Gaussian of standard deviation 2, exponential, shock profile) --------------
def opacity_shape(c):
    std = 2.0
    op = c["opacity"]
    if op == "constant": return lambda x, t: 1 + 0 * x
    if op == "gaussian": return lambda x, t: np.exp(-x ** 2 / (2 * std ** 2))
    if op == "siewert1": return lambda x, t: np.exp(-x - 2.5)
    if op == "siewert2": return lambda x, t: np.exp(-x / 1e11)
    if op == "fake_sedov":
        def f(x, t):
            s = -x - 1.0 - c["v0"] * t
            return np.exp(-s ** 2 / std ** 2) * ((-s - 1) >= 0) + 0.2 * ((s + 1) >= 0)
        return f


def opacity_jump(c, t):
    """location of the discontinuity of the opacity, if any"""
    return [-c["v0"] * t] if c["opacity"] == "fake_sedov" else []


def source_shape(c):
    """emission per unit length as a function of x, t (isotropic)"""
    if c["uncollided"]: return None
    if c["kind"] == "square_source" and c["geometry"] == "slab":
        return lambda x, t: c["strength"] * (np.abs(x) <= c["x0"]) * (1.0 if t < c["t0"] else 0.0)
    if c["kind"] == "gaussian_source" and c["geometry"] == "slab":
        return lambda x, t: c["strength"] * np.exp(-x * x / c["sigma"] ** 2) * (1.0 if t <= c["t0"] else 0.0)
    return lambda x, t: 0 * x


def reference(c, t, U, edges, vel, mus, wn, nq, source=None, moments=None):
    """dU/dt by numerical integration of the weak form; nq = number of quadrature points used for the data (opacity, source)."""
    geom = c["geometry"]; A, N, K = U.shape; M = K - 1
    B = O.basis(geom); dB = O.dbasis(geom)
    out = np.zeros_like(U)
    op = opacity_shape(c)
    src = source if source is not None else source_shape(c)
    mids = 0.5 * (mus[1:] + mus[:-1]); lo = np.r_[-1, mids]; hi = np.r_[mids, 1]
    def trace(l, k, side):
        a, b = edges[k], edges[k + 1]
        x = np.array([a if side == "L" else b])
        return sum(U[l, k, n] * B(n, x, a, b)[0] for n in range(K))
    def inflow(side, l):
        on = c["boundary_source"] and not c["uncollided"] and t <= c["t0"] and c["boundary_on"][0 if side == "L" else 1] == 1
        return c["boundary_strength"] if on else 0.0
    for k in range(N):
        a, b, va, vb = edges[k], edges[k + 1], vel[k], vel[k + 1]
        x, w = O.gl(max(2 * M + 6, 12), a, b)
        Bx = np.array([B(n, x, a, b) for n in range(K)]); dBx = np.array([dB(n, x, a, b) for n in range(K)])
        tBx = np.array([O.dBdt(geom, n, x, a, b, va, vb) for n in range(K)])
        Be = np.array([B(n, np.array([a, b]), a, b) for n in range(K)])
        W = w if geom == "slab" else w * x * x
        Mass = (Bx * W) @ Bx.T
        xd, wd = O.gl(nq, a, b)
        Bd = np.array([B(n, xd, a, b) for n in range(K)])
        psi = U[:, k, :] @ Bx
        phi_half = wn @ psi
        if c["opacity"] != "constant":
            Ks = c["Msigma"] + 1
            Bs = np.array([O.Bleg(n, xd, a, b) for n in range(Ks)])
            cs = (Bs * wd) @ op(xd, t)
            sx = cs @ np.array([O.Bleg(n, x, a, b) for n in range(Ks)])
        else:
            sx = np.ones_like(x)
        s_src = moments[k] if moments is not None else (Bd * (wd if geom == "slab" else wd * xd * xd)) @ src(xd, t)
        for l in range(A):
            mu = mus[l]
            f = psi[l]
            if geom == "slab":
                r = (tBx * w) @ f + mu * (dBx * w) @ f
            else:
                r = (tBx * W) @ f + mu * (dBx * W) @ f
            sL, sR = mu - va, mu - vb
            if sL >= 0:
                if k > 0: pL = trace(l, k - 1, "R")
                elif geom == "sphere": pL = trace(A - 1 - l, 0, "L")
                else: pL = inflow("L", l)
            else: pL = trace(l, k, "L")
            if sR >= 0: pR = trace(l, k, "R")
            else: pR = trace(l, k + 1, "L") if k < N - 1 else inflow("R", l)
            aL, aR = (1, 1) if geom == "slab" else (a * a, b * b)
            r = r - (aR * sR * pR * Be[:, 1] - aL * sL * pL * Be[:, 0])
            if geom == "slab":
                r = r - c["sigma_t"] * (Bx * w * sx) @ f + c["sigma_s"] * (Bx * w * sx) @ phi_half
                r = r + 0.5 * s_src
                out[l, k] = r
            else:
                # angular redistribution: conservative differences of (1-mu^2) psi over the cells of the angular mesh
                up = (1 - hi[l] ** 2) * 0.5 * (psi[l] + psi[l + 1]) if l < A - 1 else 0 * f
                dn = (1 - lo[l] ** 2) * 0.5 * (psi[l] + psi[l - 1]) if l > 0 else 0 * f
                D = (up - dn) / (hi[l] - lo[l])
                r = r - (Bx * w * x) @ D + 0.5 * c["sigma_s"] * s_src
                # moving volume: d/dt of the mass matrix
                tt = (tBx * W) @ Bx.T
                Mp = tt + tt.T + b * b * vb * np.outer(Be[:, 1], Be[:, 1]) - a * a * va * np.outer(Be[:, 0], Be[:, 0])
                r = np.linalg.solve(Mass, r - Mp @ U[l, k]) - c["sigma_t"] * U[l, k] + c["sigma_s"] * (wn @ U[:, k, :])
                out[l, k] = r
    return out


def mass(c, U, edges):
    """per-angle integral of psi over the domain"""
    return np.array([sum(O.cell_mass(c["geometry"], U[l, k], edges[k], edges[k + 1]) for k in range(U.shape[1])) for l in range(U.shape[0])])


def mass_rate(c, U, dU, edges, vel, eps=None):
    """d/dt of mass(): linear in dU plus the explicit dependence on the moving edges (exact, by the transport theorem on the basis)"""
    geom = c["geometry"]; A, N, K = U.shape
    out = np.zeros(A)
    for k in range(N):
        a, b, va, vb = edges[k], edges[k + 1], vel[k], vel[k + 1]
        x, w = O.gl(K + 6, a, b)
        W = w if geom == "slab" else w * x * x
        v = np.array([(O.basis(geom)(n, x, a, b) * W).sum() for n in range(K)])
        e = np.array([O.basis(geom)(n, np.array([a, b]), a, b) for n in range(K)])
        aL, aR = (1, 1) if geom == "slab" else (a * a, b * b)
        vd = np.array([(O.dBdt(geom, n, x, a, b, va, vb) * W).sum() for n in range(K)]) + aR * vb * e[:, 1] - aL * va * e[:, 0]
        out += dU[:, k, :] @ v + U[:, k, :] @ vd
    return out
