"""C06 particle balance of the semi-discrete equations on static and moving meshes."""
import numpy as np
import problems as P, oracle as O, refsolve

RULE = ("one case = one problem configuration, several states and times; the rate of change of the number of particles implied by the right hand side is "
        "compared with sources minus absorption minus boundary leakage computed from the traces; distinct = distinct (geometry, problem, moving, "
        "opacity, balance term) combinations with a non-zero term")
ASSUMPTIONS = ["diffusive and tracked-front meshes, whose cells need not be aligned with a square source: emission is what the package's 2M+1 point rule sees",
               "non-constant opacities: M >= 2, compared to 1e-3 (the data are projected with the package's own quadrature order)",
               "spherical geometry: streaming is balanced with the angular-cell widths the redistribution term is conservative in, collisions with the quadrature weights"]
BUDGET = {"quick": 200, "thorough": 1500}


def cases(rng, tier):
    out = []
    kinds = ["gaussian_IC", "square_IC", "square_source", "gaussian_source", "plane_IC", "boundary", "shell", "point", "unc", "family"]
    for k in range(1500 if tier == "quick" else 4000):
        kind = kinds[k % len(kinds)]
        if kind == "unc":
            c = P.config(rng, kinds=["gaussian_IC", "square_IC", "square_source", "gaussian_source", "plane_IC", "shell", "shell"], opacity=False)
            c.update(uncollided=True, t_nodes=20, weights="gauss_legendre", sigma_t=1.0, sigma_s=rng.uniform(.1, 1), tfinal=min(c["tfinal"], 5))
        elif kind == "family": c = P.family(rng)
        else: c = P.config(rng, kinds=[kind])
        if c.get("opacity") == "fake_sedov": c["opacity"] = "gaussian"
        if c["kind"] == "plane_IC" and c["geometry"] == "slab" and not c.get("thick"):
            c["x0"] = 0.3 if not c["uncollided"] else 1e-11
            if c["uncollided"]: c["edge_v"] = 1.0
        if rng.random() < .3:
            c["strength"] = 10 ** rng.uniform(-7, 4)
            if "boundary_strength" in c: c["boundary_strength"] = c["strength"]
        ts = [rng.uniform(0.03 if c.get("thick") or c.get("finite") else 0, 1) * c["tfinal"] for _ in range(3)]
        out.append({"c": c, "ts": ts, "seed": rng.randrange(10 ** 6), "mode": rng.choice(["random", "decay", "isotropic", "sparse"])})
    return out


def run_case(env, case, rec):
    c = env.api.cfg(**case["c"]); geom = c["geometry"]
    s = env.api.system(c, make_ic=False)
    mus, ws = s.mus, s.ws; wn = ws / ws.sum()
    mids = 0.5 * (mus[1:] + mus[:-1]); dm = np.diff(np.r_[-1, mids, 1]); dm = dm / dm.sum()
    free = None
    if geom == "sphere":
        free = env.api.system(env.api.cfg(**dict(case["c"], sigma_t=1e-30, sigma_s=0.0, uncollided=False)), make_ic=False)
    for it, t in enumerate(case["ts"]):
        U = P.state(case["seed"] + it, s.shape, case["mode"])
        dU = s.rhs(t, U).reshape(s.shape)
        e, v = np.array(s.mesh.edges), np.array(s.mesh.Dedges)
        tag = "%s %s moving=%s M=%d N=%d t=%g" % (geom, c["kind"], c["moving"], c["M"], c["N_space"], t)
        R = lambda l: O.recon(geom, U[l, -1], e[-1:], e[-2], e[-1])[0]
        L = lambda l: O.recon(geom, U[l, 0], e[:1], e[0], e[1])[0]
        bon = c["boundary_source"] and t <= c["t0"]
        inL = c["boundary_strength"] if bon and c["boundary_on"][0] else 0.0
        inR = c["boundary_strength"] if bon and c["boundary_on"][1] else 0.0
        aR = 1.0 if geom == "slab" else e[-1] ** 2
        leak = np.zeros(len(mus))
        for l, mu in enumerate(mus):
            sp = mu - v[-1]; leak[l] += aR * sp * (R(l) if sp >= 0 else inR)
            if geom == "slab":
                sp = mu - v[0]; leak[l] -= sp * (inL if sp >= 0 else L(l))
        size = np.abs(U).max() * (1 + abs(e).max() ** (0 if geom == "slab" else 2)) / np.sqrt(np.diff(e).min()) * (2 * c["M"] + 1) + P.floor(c)
        if geom == "sphere":
            # the rates of tiny cells are amplified by the inverse mass matrix; judge with that scale
            size *= 1e3
        mode = (geom, c["kind"], c["moving"], c["opacity"], c["uncollided"], "thick=%s finite=%s move=%s" % (bool(c["thick"]), bool(c["finite"]), c["move"]))
        tol = 1e-11
        if c["uncollided"]:
            # what scatters out of the uncollided flux: the package integrates the sources over emission time with t_nodes points
            mom = refsolve.Reference(c, mus, ws, None).moments(t, e)[:, 0]
            tol = {"gaussian_source": 2e-4, "square_source": 1e-4}.get(c["kind"], 1e-7)
        if geom == "slab":
            rate = wn @ P.mass_rate(c, U, dU, e, v)
            want = -wn @ leak
            op = P.opacity_shape(c)
            src = P.source_shape(c)
            ab = em = 0.0
            for k in range(c["N_space"]):
                x, w = O.gl(24, e[k], e[k + 1])
                xs, wq = O.gl(2 * c["M"] + 1, e[k], e[k + 1])
                phi = wn @ O.recon(geom, U[:, k, :], x, e[k], e[k + 1])
                sx = op(x, t)
                if c["opacity"] != "constant":
                    B = np.array([O.Bleg(n, xs, e[k], e[k + 1]) for n in range(c["Msigma"] + 1)])
                    cs = (B * wq) @ op(xs, t)
                    sx = cs @ np.array([O.Bleg(n, x, e[k], e[k + 1]) for n in range(c["Msigma"] + 1)])
                ab += (c["sigma_t"] - c["sigma_s"]) * (w * sx * phi).sum()
                if c["uncollided"]: em += 0.5 * mom[k] * np.sqrt(e[k + 1] - e[k])
                elif c["kind"] == "gaussian_source" or c["thick"] or c["finite"]: em += 0.5 * (wq * src(xs, t)).sum()
                else: em += 0.5 * (w * src(x, t)).sum()
            rec.close(rate, want - ab + em, tol, "balance", tag + " opacity=%s: d/dt(particles)" % c["opacity"], scale=size + abs(em))
            if abs(ab) > 1e-9 * size: rec.bucket(*mode, "absorption")
            if abs(em) > 1e-9: rec.bucket(*mode, "emission", t <= c["t0"])
        else:
            f = free.rhs(t, U).reshape(s.shape)
            rate = dm @ P.mass_rate(c, U, f, e, v)
            rec.close(rate, -dm @ leak, 1e-11, "streaming-balance", tag + ": d/dt(particles) of pure streaming", scale=size)
            coll = P.mass(c, dU - f, e)
            em = 0.5 * c["sigma_s"] * (mom * np.sqrt(np.pi * np.diff(e))).sum() if c["uncollided"] else 0.0
            rec.close(wn @ coll, em - (c["sigma_t"] - c["sigma_s"]) * (wn @ P.mass(c, U, e)), tol, "collision-balance", tag + ": collision term", scale=size + em * (1e3 if c["uncollided"] else 0))
            if em > 1e-9: rec.bucket(*mode, "uncollided-scattering")
            rec.bucket(*mode, "collision", c["sigma_s"] == c["sigma_t"])
        if np.abs(leak).max() > 1e-9 * size: rec.bucket(*mode, "leakage", bool(inL or inR))
        if c["moving"]: rec.bucket(*mode, "moving-edges")
