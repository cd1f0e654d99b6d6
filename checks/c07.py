"""C07 the right hand side equals an independent evaluation of the weak form of the transport equation."""
import numpy as np
import problems as P, oracle as O

RULE = ("one case = one problem configuration and several (time, state) pairs; every entry of the returned vector is compared with numerical integration of "
        "the weak form (streaming, mesh motion, upwinding, boundary inflow, absorption, scattering, source, angular redistribution); distinct = distinct "
        "(geometry, problem, moving, opacity, order) combinations observed")
ASSUMPTIONS = ["edges and edge velocities are taken from the mesh object (judged separately by C04, C05)", "constant opacity in spherical geometry (the only one the package implements)"]
BUDGET = {"quick": 240, "thorough": 1500}


def cases(rng, tier):
    out = []
    kinds = ["gaussian_IC", "square_IC", "square_source", "gaussian_source", "plane_IC", "boundary", "shell", "point", "unc", "family"]
    for k in range(1200 if tier == "quick" else 4000):
        kind = kinds[k % len(kinds)]
        if kind == "unc":
            c = P.config(rng, kinds=["gaussian_IC", "square_IC", "square_source", "gaussian_source", "plane_IC", "shell", "shell"], opacity=False)
            c.update(uncollided=True, t_nodes=6, M=min(c["M"], 3), N_ang=rng.choice([4, 6]), N_space=min(c["N_space"], 8), weights="gauss_legendre", tfinal=min(c["tfinal"], 5))
        elif kind == "family": c = P.family(rng)
        else: c = P.config(rng, kinds=[kind])
        if c["kind"] == "plane_IC" and c["geometry"] == "slab" and not c.get("thick"): c["x0"] = 0.3
        if rng.random() < .3:
            c["strength"] = 10 ** rng.uniform(-7, 4)
            if "boundary_strength" in c: c["boundary_strength"] = c["strength"]
        ts = [rng.uniform(0.03 if c.get("thick") or c.get("finite") else 0, 1) * c["tfinal"] for _ in range(3)]
        rng.shuffle(ts)
        out.append({"c": c, "ts": ts, "seed": rng.randrange(10 ** 6), "mode": rng.choice(["random", "random", "decay", "sparse"])})
    return out


def run_case(env, case, rec):
    c = env.api.cfg(**case["c"]); geom = c["geometry"]
    s = env.api.system(c, make_ic=False)
    wn = s.ws / s.ws.sum()
    for it, t in enumerate(case["ts"]):
        U = P.state(case["seed"] + it, s.shape, case["mode"])
        got = s.rhs(t, U)
        m = env.api.mesh(c); m.move(t)
        e, v = np.array(m.edges), np.array(m.Dedges)
        rec.ok(got.shape == (U.size,), "length", "returned %s for %d unknowns" % (got.shape, U.size))
        mom = None
        if c["uncollided"]:
            # moments of the scattered uncollided flux: judged by C13, taken here from a fresh source object
            b = s.build; o = env.api.mod("solver_classes.sources").source_class(b); un = env.api.mod("solver_classes.uncollided_solutions").uncollided_solution(b); mom = []
            for k in range(c["N_space"]):
                o.make_source(float(t), float(e[k]), float(e[k + 1]), un); mom.append(np.array(o.S))
        want = P.reference(c, t, U, e, v, s.mus, wn, 2 * c["M"] + 1, moments=mom)
        h = np.diff(e).min()
        scale = (np.abs(U).max() + P.floor(c)) * (2 * c["M"] + 1) ** 2 / h * (1 + np.abs(v).max())
        if geom == "sphere":
            # conditioning of the mass matrix of each cell
            scale *= 10 ** (c["M"] / 2)
        tag = "%s %s opacity=%s uncollided=%s moving=%s M=%d N=%d A=%d t=%g" % (geom, c["kind"], c["opacity"], c["uncollided"], c["moving"], c["M"], c["N_space"], c["N_ang"], t)
        d = np.abs(got.reshape(s.shape) - want)
        # compare cell by cell with the scale of the cell
        for k in range(c["N_space"]):
            hk = e[k + 1] - e[k]
            hn = min(hk, e[k] - e[k - 1] if k else hk, e[k + 2] - e[k + 1] if k + 2 < len(e) else hk)
            sc = (np.abs(U).max() + P.floor(c)) * (2 * c["M"] + 1) ** 2 / np.sqrt(hk * hn) * (1 + np.abs(v).max()) * (1 + c["sigma_t"])
            if geom == "sphere":
                cond = 1.0 if k else 3.0
                if k == 0: sc *= 50
                sc *= (1 + c["M"]) ** 2
            rec.close(got.reshape(s.shape)[:, k, :], want[:, k, :], 2e-10, "rhs-%s" % geom, tag + " cell %d" % k, scale=sc)
        rec.bucket(geom, c["kind"], "thick=%s finite=%s move=%s" % (bool(c["thick"]), bool(c["finite"]), c["move"]), "uncollided=%s" % c["uncollided"], c["moving"], c["opacity"], c["M"], "it%d" % it)
