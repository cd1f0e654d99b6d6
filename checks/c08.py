"""C08 the right hand side is a pure, affine function of (t, state)."""
import numpy as np
import problems as P, meshes

RULE = ("one case = one configuration and a random history of right-hand-side calls (times going forwards and backwards, as an integrator that rejects "
        "steps does); every result is compared with a fresh system's, with repeated calls and with affine combinations; distinct = distinct "
        "(geometry, problem, uncollided, moving, opacity, relation) combinations observed")
ASSUMPTIONS = ["infinite domains, and finite domains before the mesh reaches the wall (the recorded finding of C05 covers the rest)"]
BUDGET = {"quick": 240, "thorough": 1500}
KINDS = ["gaussian_IC", "square_IC", "square_source", "gaussian_source", "plane_IC", "boundary", "shell", "point", "finite_source", "unc", "family"]


def cases(rng, tier):
    out = []
    for k in range(176 if tier == "quick" else 1500):
        kind = KINDS[k % len(KINDS)]
        if kind == "finite_source":
            c = meshes.config(rng, "finite_source"); c.pop("family"); c.update(N_space=8, M=rng.choice([0, 1, 2]), N_ang=4)
        elif kind == "family": c = P.family(rng)
        elif kind == "unc":
            c = P.config(rng, kinds=["gaussian_IC", "square_IC", "square_source", "gaussian_source", "plane_IC", "shell"], opacity=False)
            c["uncollided"] = True; c["t_nodes"] = 6; c["N_ang"] = rng.choice([4, 6]); c["M"] = min(c["M"], 2)
            c["weights"] = "gauss_legendre"
        else:
            c = P.config(rng, kinds=[kind])
        if c["kind"] == "plane_IC" and c["geometry"] == "slab" and not c.get("thick"): c["x0"] = 0.3
        T = c["tfinal"]
        if rng.random() < .3:
            c["strength"] = 10 ** rng.uniform(-7, 4)
            if "boundary_strength" in c: c["boundary_strength"] = c["strength"]
        ts = [rng.uniform(0.01, 1) * T for _ in range(4)]
        if rng.random() < .5: ts += [T]
        ts += [ts[0], ts[1] * 0.5]
        if rng.random() < .4: ts.insert(rng.randrange(1, len(ts) + 1), 0.0)        # the start of the problem, asked for after later times
        out.append({"c": c, "ts": ts, "seed": rng.randrange(10 ** 6)})
    # long histories: as many evaluations as a complete integration takes
    for k in range(6 if tier == "quick" else 24):
        c = P.config(rng, kinds=[["square_source", "boundary", "gaussian_source", "shell", "square_IC", "gaussian_IC"][k % 6]])
        c.update(M=min(c["M"], 1), N_ang=2 if c["geometry"] == "slab" else 4, N_space=min(c["N_space"], 4), uncollided=False)
        out.append({"c": c, "many": rng.choice([1100, 2100, 2600]), "seed": rng.randrange(10 ** 6)})
    return out


def many(env, c, case, rec):
    s = env.api.system(c, make_ic=False); T = c["tfinal"]; n = case["many"]
    V = P.state(case["seed"], s.shape).reshape(-1)
    for i in range(n + 1):
        t = T * i / n
        r = s.rhs(t, V)
        if i % (n // 8) == n // 16 or i == n or i in (1000, 1001, 1002):
            fresh = env.api.system(c, make_ic=False).rhs(t, V)
            rec.close(r, fresh, 1e-13, "history", "%s %s call %d of %d: result depends on earlier calls" % (c["geometry"], c["kind"], i, n), scale=P.floor(c) + np.abs(r).max())
    rec.bucket("many", c["geometry"], c["kind"], c["moving"])


def run_case(env, case, rec):
    c = env.api.cfg(**case["c"])
    if case.get("many"): return many(env, c, case, rec)
    s = env.api.system(c, make_ic=False)
    key = (c["geometry"], c["kind"], c["uncollided"], c["moving"], c["opacity"], bool(c["finite"]), bool(c["thick"]), c["move"])
    first = {}
    for it, t in enumerate(case["ts"]):
        V = P.state(case["seed"] + it, s.shape).reshape(-1)
        V0 = V.copy()
        r = s.rhs(t, V)
        tag = "%s t=%.6g call %d" % (key, t, it)
        rec.ok(np.array_equal(V, V0), "input-modified", tag + ": the state vector passed in was changed")
        rec.ok(np.isfinite(r).all(), "finite", tag + ": non-finite entries")
        rec.ok(r.shape == V.shape, "shape", tag)
        sc = P.floor(c) + np.abs(r).max()
        again = s.rhs(t, V)
        rec.close(again, r, 1e-14, "repeat", tag + ": second call with the same arguments differs", scale=sc)
        fresh = env.api.system(c, make_ic=False).rhs(t, V)
        rec.close(r, fresh, 1e-13, "history", tag + ": result depends on earlier calls", scale=sc)
        rec.bucket(*key, "back" if it and t < case["ts"][it - 1] else "fwd")
        # affine in the state
        W = P.state(case["seed"] + 77 + it, s.shape, "sparse").reshape(-1)
        z = s.rhs(t, 0 * V); w = s.rhs(t, W); m = s.rhs(t, 2.0 * V - 0.5 * W)
        rec.close(m - z, 2.0 * (r - z) - 0.5 * (w - z), 1e-11, "affine", tag + ": not affine in the state", scale=sc + np.abs(w).max())
        rec.bucket(*key, "affine")
        # results handed out earlier must not be overwritten by later calls
        keep = s.rhs_obj.call(float(t), V.copy(), s.mesh, s.matrices, s.num_flux, s.source, s.uncollided, s.flux, s.transfer, s.sigma)
        snap = np.array(keep)
        s.rhs(t, W)
        rec.ok(np.array_equal(np.array(keep), snap), "aliased-result", tag + ": an earlier result changed after a later call")
