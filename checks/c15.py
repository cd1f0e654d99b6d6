"""C15 numerical flux: the surface term is the upwind flux through the moving edges, with the configured boundary conditions."""
import numpy as np, math
import oracle as O, problems as P

RULE = ("one case = one problem configuration with random mesh, edge velocities, flux state, direction and time; every surface term is compared with the independently evaluated "
        "upwind trace times relative speed (times area in the sphere); the particle number leaving one cell is compared with that entering its neighbour; "
        "distinct = distinct (geometry, boundary setting, cell position, upwind pattern, M) observed")
ASSUMPTIONS = ["edges whose velocity equals the direction cosine are not generated (either side is admissible there and the term vanishes)"]
BUDGET = {"quick": 120, "thorough": 1200}


def cases(rng, tier):
    out = []
    for k in range(1500 if tier == "quick" else 6000):
        geom = "sphere" if k % 3 == 2 else "slab"
        T = rng.uniform(0.3, 4)
        c = dict(geometry=geom, M=rng.choice([0, 1, 2, 3, 4, 6, 9]), N_ang=rng.choice([2, 4, 2, 4, 6, 12]), N_space=rng.choice([2, 3, 4, 6]) if geom == "sphere" else rng.choice([2, 3, 4, 5, 6]), tfinal=T, kind="gaussian_IC", sigma_s=rng.uniform(0, 1),
                 strength=rng.uniform(0.5, 2), t0=rng.choice([T * 0.5, 50.0]), x0=rng.uniform(0.3, 2))
        if geom == "sphere": c["kind"] = rng.choice(["square_IC", "plane_IC"]); c["N_space"] = 3
        if geom == "slab" and rng.random() < .5:
            c.update(kind="boundary", boundary_source=True, boundary_on=rng.choice([[1, 0], [0, 1], [1, 1], [0, 0]]), boundary_strength=rng.uniform(0.1, 3), N_space=rng.choice([2, 4, 6]), uncollided=rng.random() < .2)
        if geom == "slab" and k % 11 == 0: c.update(kind="MMS")
        c["moving"] = rng.random() < .5           # the edges and velocities are set by hand below; the flag must not change the surface terms
        out.append({"c": c, "seed": rng.randrange(10 ** 6), "still": rng.random() < .3, "cells": rng.choice([2, 3, 5, 6, 6, 11, 20])})
    return out


def run_case(env, case, rec):
    c = env.api.cfg(**dict(case["c"], N_space=max(case["c"]["N_space"], 2)))
    geom, M, N = c["geometry"], c["M"], c["N_space"]
    b = env.api.build(c)
    lu = env.api.mod("solver_classes.numerical_flux").LU_surf(b)
    mesh = env.api.mesh(c)
    r = np.random.default_rng(case["seed"])
    Bf = O.basis(geom)
    for trial in range(4):
        w = r.uniform(0.05, 1, N)
        e0 = 0.0 if geom == "sphere" and trial % 2 == 0 else (r.uniform(0, 1) if geom == "sphere" else r.uniform(-2, 1))
        e = e0 + np.concatenate([[0], np.cumsum(w)])
        v = np.zeros(N + 1) if case["still"] else r.uniform(-1.2, 1.2, N + 1)
        t = r.uniform(0, c["tfinal"])
        if abs(t - c["t0"]) < 1e-6: continue
        mesh.edges = e.copy(); mesh.Dedges = v.copy()
        am = P.amplitude(case["seed"] + trial); u = am * r.normal(size=(N, M + 1)); refl = am * r.normal(size=M + 1)
        for mu in (float(r.uniform(-1, 1)), 0.7, -0.7, 1.0, -1.0):
            if np.abs(mu - v).min() < 1e-9: continue
            prevR = None
            for k in range(N):
                lu.make_LU(t, mesh, u.copy(), k, mu, refl.copy())
                got = np.array(lu.LU)
                a, bb = e[k], e[k + 1]
                edge = lambda coef, kk, x: sum(coef[n] * Bf(n, np.array([x]), e[kk], e[kk + 1])[0] for n in range(M + 1))
                def outside(side):
                    if c["kind"] == "MMS":
                        # the package projects exp(-x^2/2)/(2(1+t)) on a ghost cell of the same width
                        h = bb - a; A, B = (a - h, a) if side == "L" else (bb, bb + h)
                        x, ww = O.gl(2 * M + 1, A, B)
                        f = np.exp(-x * x / 2) / (1 + t) / 2
                        return sum((ww * f * O.Bleg(n, x, A, B)).sum() * O.Bleg(n, np.array([B if side == "L" else A]), A, B)[0] for n in range(M + 1))
                    on = c["boundary_source"] and not c["uncollided"] and t <= c["t0"] and c["boundary_on"][0 if side == "L" else 1] == 1
                    return c["boundary_strength"] if on else 0.0
                sl, sr = mu - v[k], mu - v[k + 1]
                if sl >= 0:
                    if k > 0: pl = edge(u[k - 1], k - 1, a)
                    elif geom == "sphere": pl = edge(refl, 0, a)
                    else: pl = outside("L")
                else: pl = edge(u[k], k, a)
                if sr >= 0: pr = edge(u[k], k, bb)
                else: pr = edge(u[k + 1], k + 1, bb) if k < N - 1 else outside("R")
                aL, aR = (1.0, 1.0) if geom == "slab" else (a * a, bb * bb)
                BL = np.array([Bf(n, np.array([a]), a, bb)[0] for n in range(M + 1)]); BR = np.array([Bf(n, np.array([bb]), a, bb)[0] for n in range(M + 1)])
                want = aR * sr * pr * BR - aL * sl * pl * BL
                tag = "%s %s M=%d N=%d cell %d mu=%.4g speeds (%.4g, %.4g) boundary=%s t=%.4g t0=%.4g" % (geom, c["kind"], M, N, k, mu, sl, sr, c["boundary_on"] if c["boundary_source"] else None, t, c["t0"])
                sc = np.abs(u).max() + P.floor(c) + np.abs(want).max()
                if not rec.close(got, want, 1e-10, "upwind", tag, scale=sc) and len(rec.viol) > 8: return
                # particle balance of the shared edge: even/odd modes separate the two edges of the cell
                if M >= 1 and geom == "slab":
                    outR = 0.5 * (got[0] + got[1] / math.sqrt(3)) * math.sqrt(bb - a); inL = -0.5 * (got[0] - got[1] / math.sqrt(3)) * math.sqrt(bb - a)
                    if prevR is not None:
                        rec.close(inL, prevR, 1e-10, "conservative", tag + ": flux entering the cell against flux leaving its left neighbour", scale=sc * 4)
                    prevR = outR
                pos = "first" if k == 0 else "last" if k == N - 1 else "inner"
                rec.bucket(geom, c["kind"], pos, sl >= 0, sr >= 0, M)
                if c["boundary_source"]: rec.bucket("boundary", *c["boundary_on"], c["uncollided"], t <= c["t0"], pos)
    # a state continuous across the mesh: the surface term does not depend on the upwind side
    co = r.normal(size=M + 1)
    e = np.linspace(0.2, 1.5, N + 1); v = np.zeros(N + 1); mesh.edges = e.copy(); mesh.Dedges = v.copy()
    x, ww = O.gl(30)
    u = np.zeros((N, M + 1))
    f = lambda x: np.polyval(co, x)
    for k in range(N):
        xx = 0.5 * (e[k + 1] - e[k]) * x + 0.5 * (e[k] + e[k + 1]); B = np.array([Bf(n, xx, e[k], e[k + 1]) for n in range(M + 1)])
        u[k] = np.linalg.lstsq(B.T, f(xx), rcond=None)[0]
    for k in range(1, N - 1):
        res = []
        for mu in (0.6, -0.6):
            lu.make_LU(0.1, mesh, u.copy(), k, mu, u[0].copy()); res.append(np.array(lu.LU) / mu)
        rec.close(res[0], res[1], 1e-8, "continuous", "%s M=%d cell %d: continuous state, both directions" % (geom, M, k), scale=1 + np.abs(res[0]).max())
        rec.bucket(geom, "continuous", M)
