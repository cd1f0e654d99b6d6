"""C13 source moments: what the source class hands to the solver are the moments of the configured source."""
import numpy as np, math
import oracle as O

RULE = ("one case = one source configuration asked for the moments of a sequence of cells and times; every moment is compared with the projection of the "
        "configured source computed with 40-point quadrature, and with a fresh object (no memory of earlier calls); distinct = distinct (geometry, source, treatment, relation, time regime) observed")
ASSUMPTIONS = ["the moving mesh of a plane pulse lies inside its wave front, as the package's does", "the square source is aligned with cell edges, as every mesh of the package makes it", "smooth data: allowed error three times the error of the package's own 2M+1 point rule, or 1e-9",
               "uncollided source: the pointwise uncollided flux is decided by C10; this check decides its projection, strength and scattering factors"]
BUDGET = {"quick": 120, "thorough": 1200}
KINDS = ["square_source", "gaussian_source", "none", "unc_gauss_IC", "unc_square_IC", "unc_plane_moving", "unc_plane_static", "unc_square_source", "unc_gaussian_source", "unc_shell", "sphere_none", "MMS"]


def cases(rng, tier):
    out = []
    for k in range(1500 if tier == "quick" else 6000):
        p = KINDS[k % len(KINDS)]
        T = rng.uniform(0.4, 4)
        c = dict(M=rng.choice([0, 1, 2, 3, 4, 6, 8, 10]), N_ang=2, N_space=4, tfinal=T, strength=rng.choice([1.0, rng.uniform(0.05, 5), 10 ** rng.uniform(-7, 4)]), sigma_t=1.0, sigma_s=rng.choice([1.0, rng.uniform(0.05, 1)]),
                 sigma=rng.choice([rng.uniform(0.3, 2), rng.uniform(0.3, 2), 10 ** rng.uniform(-1, 1)]), x0=rng.choice([0.5, rng.uniform(0.2, 2), 10 ** rng.uniform(-1.3, 1.3)]), t0=rng.choice([T * rng.uniform(0.2, 0.9), 50.0, T * rng.uniform(0.2, 0.9), 50.0, T * 10 ** rng.uniform(-4, -1)]), moving=rng.random() < .5, geometry="slab", t_nodes=rng.choice([20, 30]))
        if p in ("square_source", "gaussian_source"): c.update(kind=p, sigma_t=rng.uniform(0.2, 3))
        if p == "none": c.update(kind=rng.choice(["gaussian_IC", "square_IC", "plane_IC", "boundary"]))
        if p == "unc_gauss_IC": c.update(kind="gaussian_IC", uncollided=True)
        if p == "unc_square_IC": c.update(kind="square_IC", uncollided=True)
        if p == "unc_plane_moving": c.update(kind="plane_IC", uncollided=True, moving=True, x0=1e-11)
        if p == "unc_plane_static": c.update(kind="plane_IC", uncollided=True, moving=False, x0=1e-11)
        if p == "unc_square_source": c.update(kind="square_source", uncollided=True)
        if p == "unc_gaussian_source": c.update(kind="gaussian_source", uncollided=True)
        if p == "unc_shell": c.update(kind="square_IC", uncollided=True, geometry="sphere", M=rng.choice([0, 1, 2, 3, 4]), N_space=3)
        if p == "sphere_none": c.update(kind=rng.choice(["square_IC", "plane_IC"]), geometry="sphere", N_space=3)
        if p == "MMS": c.update(kind="MMS")
        cells = []
        for _ in range(4):
            a = rng.uniform(-3, 3) if c["geometry"] == "slab" else rng.uniform(0, 2)
            h = rng.choice([0.1, 0.4, rng.uniform(0.02, 1.0)])
            b = a + h
            if p == "unc_plane_moving": a, b = sorted((rng.uniform(-0.25, 0.25), rng.uniform(-0.25, 0.25))); b = max(b, a + 1e-3)
            if p in ("square_source",):
                for e in (-c["x0"], c["x0"]):
                    if a < e < b:
                        if rng.random() < .5: a = e
                        else: b = e
                if b - a < 1e-3: b = a + 1e-3 if a >= -c["x0"] else b; a = min(a, b - 1e-3)
                if any(a < e < b for e in (-c["x0"], c["x0"])): a, b = -c["x0"], c["x0"]
            cells.append([a, b])
        times = [rng.uniform(0.26 if p == "unc_plane_moving" else 1e-3, T) for _ in range(3)]
        if c["t0"] < T and p != "unc_plane_moving": times += [c["t0"] * 0.999, c["t0"] * 1.001]
        rng.shuffle(times)
        out.append({"p": p, "c": c, "cells": cells, "times": times, "mu": rng.uniform(-1, 1)})
    return out


def run_case(env, case, rec):
    p = case["p"]; c = env.api.cfg(**case["c"])
    geom, M, S, ss, x0 = c["geometry"], c["M"], c["strength"], c["sigma_s"], c["x0"]
    src = env.api.mod("solver_classes.sources"); un = env.api.mod("solver_classes.uncollided_solutions")
    b = env.api.build(c)
    obj = src.source_class(b); u = un.uncollided_solution(b)
    if p == "MMS": return mms(env, case, c, rec, obj)
    prev = None
    for t in case["times"]:
        for a, bb in case["cells"]:
            h = bb - a
            obj.make_source(t, a, bb, u)
            got = np.array(obj.S)
            tag = "%s M=%d cell [%.6g, %.6g] t=%.6g t0=%.4g" % (p, M, a, bb, t, c["t0"])
            if not rec.ok(got.shape == (M + 1,), "shape", tag): return
            kw = (b.N_ang,)
            fresh = src.source_class(b); fresh.make_source(t, a, bb, u)
            rec.close(got, np.array(fresh.S), 1e-14, "memory", tag + ": moments after earlier calls against a fresh object", scale=S + np.abs(got).max())
            on = "on" if t < c["t0"] else "off"
            x, w = O.gl(40, a, bb); x2, w2 = O.gl(2 * M + 1, a, bb)
            if geom == "slab":
                B = np.array([O.Bleg(n, x, a, bb) for n in range(M + 1)]); B2 = np.array([O.Bleg(n, x2, a, bb) for n in range(M + 1)])
            sc = S * math.sqrt(h)
            if p == "square_source":
                f = lambda x: S * (np.abs(x) <= x0 * (1 + 1e-12)) * (1.0 if t < c["t0"] else 0.0)
                rec.close(got, (B * w) @ f(x), 1e-9, "moments", tag, scale=sc)
            elif p == "gaussian_source":
                f = lambda x: S * np.exp(-x * x / c["sigma"] ** 2) * (1.0 if t <= c["t0"] else 0.0)
                slack = 3 * np.abs((B2 * w2) @ f(x2) - (B * w) @ f(x)).max()
                rec.close(got, (B * w) @ f(x), 1e-9 + slack / sc, "moments", tag, scale=sc)
            elif p in ("none", "sphere_none"):
                rec.close(got, np.zeros(M + 1), 0.0, "no-source", tag + ": a problem without a source has a source")
            elif p == "unc_plane_moving":
                # uncollided flux of the unit pulse: exp(-t)/(2t) inside |x|<t; the class uses its exact integral over the cell
                lo, hi = max(a, -t), min(bb, t)
                want0 = S * ss * math.exp(-t) / (2 * t + 1e-12) * max(hi - lo, 0) / math.sqrt(h)
                if abs(a + t) > 1e-9 and abs(bb - t) > 1e-9 and a >= -t and bb <= t:
                    rec.close(got[0], want0, 1e-8, "moments", tag, scale=S * math.exp(-t) / t)
                    rec.bucket(p, "inside")
                rec.close(got[1:], np.zeros(M), 0.0, "moments", tag + ": higher moments of a flat source")
            elif p == "unc_shell":
                n = 6 * M + 1
                z = np.cos((2 * np.arange(1, n + 1) - 1) * math.pi / 2 / n); xx = 0.5 * h * (z + 1) + a
                f = np.array(u.uncollided_solution(xx, t), float)
                Bz = np.array([O.Bche(k, xx, a, bb) for k in range(M + 1)])
                want = 0.5 * h * (Bz * (math.pi / n * np.sqrt(1 - z * z) * xx ** 2)) @ f
                rec.close(got, want, 1e-10, "moments", tag + ": r^2-weighted projection of the uncollided flux", scale=max(np.abs(want).max(), 1e-12 * S))
                n = 200; z = np.cos((2 * np.arange(1, n + 1) - 1) * math.pi / 2 / n); xx = 0.5 * h * (z + 1) + a
                f = np.array(u.uncollided_solution(xx, t), float)
                if f.min() > 0 and M >= 1 and np.abs(np.diff(f)).max() < 0.05 * f.max() and a > abs(t - x0) + 0.02 and bb < t + x0 - 0.02:
                    Bz = np.array([O.Bche(k, xx, a, bb) for k in range(M + 1)])
                    want = 0.5 * h * (Bz * (math.pi / n * np.sqrt(1 - z * z) * xx ** 2)) @ f
                    rec.close(got, want, 0.03, "moments-exact", tag, scale=np.abs(want).max()); rec.bucket(p, "exact")
                if f.max() > 0: rec.bucket(p, "lit")
            else:
                # uncollided: projection of the pointwise uncollided flux times the scattering cross section
                f2 = np.array(u.uncollided_solution(x2, t), float)
                want = ss * (B2 * w2) @ f2
                rec.close(got, want, 1e-9, "moments", tag + ": projection of the uncollided flux times sigma_s", scale=max(np.abs(want).max(), 1e-9 * S))
                if np.abs(want).max() > 0: rec.bucket(p, on, M, "lit")
            rec.bucket(geom, p, on, M, c["moving"])
    # sampled strength linearity
    c2 = env.api.cfg(**dict(case["c"], strength=2 * S)); b2 = env.api.build(c2)
    o2 = src.source_class(b2); u2 = un.uncollided_solution(b2)
    a, bb = case["cells"][0]; t = case["times"][0]
    o2.make_source(t, a, bb, u2); obj.make_source(t, a, bb, u)
    rec.close(np.array(o2.S), 2 * np.array(obj.S), 1e-12, "strength", "%s: doubling the source strength" % p, scale=1e-300 + np.abs(np.array(obj.S)).max())
    rec.bucket(p, "strength")


def mms(env, case, c, rec, obj):
    M = c["M"]
    for t in case["times"]:
        for a, bb in case["cells"]:
            for mu in (case["mu"], -case["mu"]):
                lim = t + c["x0"]
                if a < -lim < bb or a < lim < bb: continue
                obj.make_source_not_isotropic(t, mu, a, bb)
                got = np.array(obj.S)
                # psi = exp(-x^2/2)/(2(1+t)); residual dpsi/dt + mu dpsi/dx (absorption and scattering cancel); the solver multiplies by one half
                f = lambda x: 2 * (-np.exp(-x * x / 2) / (2 * (1 + t) ** 2) - mu * x * np.exp(-x * x / 2) / (2 * (1 + t))) * (np.abs(x) <= lim)
                x, w = O.gl(40, a, bb); x2, w2 = O.gl(2 * M + 1, a, bb)
                B = np.array([O.Bleg(n, x, a, bb) for n in range(M + 1)]); B2 = np.array([O.Bleg(n, x2, a, bb) for n in range(M + 1)])
                want = (B * w) @ f(x); slack = 3 * np.abs((B2 * w2) @ f(x2) - want).max()
                rec.close(got, want, 1e-9 + slack, "mms", "MMS source M=%d mu=%g cell [%g,%g] t=%g" % (M, mu, a, bb, t), scale=1.0)
                rec.bucket("MMS", M, "in" if a >= -lim and bb <= lim else "out")
