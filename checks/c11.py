"""C11 outputs are the evaluation of the solution expansion at the requested points."""
import numpy as np, math
import oracle as O, problems as P

RULE = ("one case = one geometry, a random mesh, random coefficients and a set of query points including cell edges, interior points, the ends and points "
        "outside the domain; scalar flux, angular flux, exit distribution, material energy and the node list are compared with direct evaluation; "
        "distinct = distinct (geometry, quantity, point class, order) combinations observed")
ASSUMPTIONS = ["exactly on an interior edge the value may come from either neighbouring cell", "material energy derivatives are judged in slab geometry for M <= 11"]
BUDGET = {"quick": 120, "thorough": 1200}
MIN_BUCKETS = 8


def cases(rng, tier):
    out = []
    for k in range(1500 if tier == "quick" else 6000):
        geom = "sphere" if k % 2 else "slab"
        N = rng.choice([1, 2, 3, 4, 6, 9, 17, 40]); M = rng.choice([0, 1, 2, 3, 5, 8, 11])
        w = [10 ** rng.uniform(-3, 0.5) for _ in range(N)]
        lo = 0.0 if geom == "sphere" else rng.uniform(-4, 1)
        e = [lo]
        for x in w: e.append(e[-1] + x)
        if geom == "slab" and rng.random() < .6: e = (np.array(e) - 0.5 * (e[0] + e[-1])).tolist()
        kind = rng.choice(["square_IC", "gaussian_IC", "square_source", "gaussian_source", "plane_IC"]) if geom == "slab" else "square_IC"
        out.append({"geom": geom, "M": M, "A": rng.choice([2, 4, 6, 3, 12, 32]), "e": e, "f": [rng.random() for _ in range(6)], "seed": rng.randrange(10 ** 6),
                    "unc": rng.random() < .4, "t": rng.choice([rng.uniform(0.2, 3), rng.uniform(0.2, 3), 10 ** rng.uniform(-5, -0.5), rng.uniform(3, 40)]), "kind": kind, "lob": rng.random() < .2})
    return out


def run_case(env, case, rec):
    geom, M, A = case["geom"], case["M"], case["A"]
    e = np.array(case["e"]); N = len(e) - 1
    mk = env.api.mod("solver_classes.make_phi"); fn = env.api.mod("solver_classes.functions")
    mus, ws = env.api.quadrature(A, "gauss_lobatto" if case["lob"] else "gauss_legendre")
    U = np.random.default_rng(case["seed"]).normal(size=(A + 1, N, M + 1)) * P.amplitude(case["seed"])
    c = env.api.cfg(geometry=geom, N_space=4, M=1, N_ang=A, kind=case["kind"], uncollided=case["unc"], sigma=0.5, strength=1.7, x0=0.5)
    unc = env.api.mod("solver_classes.uncollided_solutions").uncollided_solution(env.api.build(c))
    h = np.diff(e)
    xs = list(e) + [e[k] + f * h[k] for f in case["f"] for k in range(N)] + [e[0] - 0.3, e[-1] + 0.2]
    cls = ["edge"] * len(e) + ["interior"] * (6 * N) + ["outside"] * 2
    xs = np.array(xs)
    if geom == "sphere": xs = np.where(xs < 0, -xs, xs); xs[0] = 1e-6 * h[0]; xs[-1] = 0.0
    out = mk.make_output(case["t"], A, ws, xs, U, M, e, case["unc"], env.api.geom(geom))
    phi = np.array(out.make_phi(unc)); psi = np.array(out.psi_out)
    col = np.array(unc.uncollided_solution(xs.copy(), case["t"])) if case["unc"] else 0 * xs
    rec.ok(phi.shape == xs.shape and psi.shape == (A, xs.size), "shape", "phi %s psi %s" % (phi.shape, psi.shape))
    rec.close(phi, np.array(out.phi_out), 0, "phi-stored", "phi_out against the returned flux")
    ener = np.array(out.make_e()); dx = np.array(out.dx_e)
    rec.ok(np.array_equal(psi, np.array(out.psi_out)), "psi-changed", "computing the energy changed the angular flux")

    def value(k, x, coef): return O.recon(geom, coef[..., k, :], np.array([x]), e[k], e[k + 1])[..., 0]
    for i, x in enumerate(xs):
        if x < e[0] or x > e[-1]: cand = [None]
        else: cand = [k for k in range(N) if e[k] <= x <= e[k + 1]]
        best = None
        for k in cand:
            w = value(k, x, U) if k is not None else np.zeros(A + 1)
            d = max(np.abs(w[:A] - psi[:, i]).max(), abs(w[A] - ener[i]))
            if best is None or d < best[0]: best = (d, w, k)
        w = best[1]
        sc = np.abs(U).max() + (0 if best[2] is None else np.abs(U[:, best[2], :]).sum(axis=1).max() * math.sqrt((2 * M + 1) / h[best[2]]))
        tag = "%s M=%d x=%.9g (%s)" % (geom, M, x, cls[i])
        rec.close(psi[:, i], w[:A], 1e-10, "psi", tag + ": angular flux", scale=sc)
        rec.close(phi[i], ws @ w[:A] + col[i], 1e-10, "phi", tag + ": scalar flux, uncollided=%s" % case["unc"], scale=2 * sc + abs(col[i]))
        rec.close(ener[i], w[A], 1e-10, "energy", tag + ": material energy", scale=sc)
        if geom == "slab" and M <= 11 and best[2] is not None and cls[i] == "interior":
            k = best[2]
            d = sum(U[A, k, n] * O.dBleg(n, np.array([x]), e[k], e[k + 1])[0] for n in range(M + 1))
            rec.close(dx[i], d, 1e-9, "energy-slope", tag + ": slope of the material energy", scale=sc * (M + 1) ** 2 / h[k])
        rec.bucket(geom, "phi", cls[i], M, case["unc"])
    ed, ep = out.get_exit_dist(unc)
    ed, ep = np.array(ed), np.array(ep)
    rec.ok(ed.shape == (A, 2), "exit-shape", str(ed.shape))
    for s, k in ((0, 0), (1, N - 1)):
        x = e[0] if s == 0 else e[-1]
        w = value(k, x, U)
        sc = np.abs(U).max() + np.abs(U[:, k, :]).sum(axis=1).max() * math.sqrt((2 * M + 1) / h[k])
        u = np.array(unc.uncollided_solution(np.array([x]), case["t"]))[0] if case["unc"] else 0.0
        rec.close(ed[:, s], w[:A], 1e-10, "exit", "%s M=%d exit distribution at the %s end" % (geom, M, "left" if s == 0 else "right"), scale=sc)
        rec.close(ep[s], ws @ w[:A] + u, 1e-10, "exit-phi", "%s M=%d scalar flux at the %s end, uncollided=%s" % (geom, M, "left" if s == 0 else "right", case["unc"]), scale=2 * sc + abs(u))
        rec.bucket(geom, "exit", s, case["unc"])
    # node list: M+1... points per cell, inside the cell, cells in order
    nodes = np.array(fn.find_nodes(e, M, env.api.geom(geom)))
    from numpy.polynomial import legendre as Lg
    per = max(M, 1)
    rec.ok(nodes.size == N * per, "node-count", "%s M=%d: %d nodes for %d cells" % (geom, M, nodes.size, N))
    if nodes.size == N * per:
        z = Lg.leggauss(per)[0] if geom == "slab" else np.sort(np.cos((2 * np.arange(1, per + 1) - 1) * math.pi / 2 / per))
        want = np.concatenate([0.5 * h[k] * z + 0.5 * (e[k] + e[k + 1]) for k in range(N)])
        rec.close(nodes, want, 1e-12, "nodes", "%s M=%d" % (geom, M), scale=1 + abs(e).max())
        rec.ok((np.diff(nodes) > 0).all(), "nodes-ordered", "%s M=%d" % (geom, M))
        rec.bucket(geom, "nodes", M)
