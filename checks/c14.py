"""C14 opacity: absorption and scattering terms are products with the represented opacity."""
import numpy as np, math
import oracle as O, problems as P

RULE = ("one case = one opacity law followed through a history of meshes and times; opacity moments, absorption vectors and scattering vectors of every cell are compared "
        "with direct integration of opacity x flux x basis; distinct = distinct (opacity, M, Msigma, history step kind, relation) observed")
ASSUMPTIONS = ["Msigma <= 2M+1, where the package's 2M+1 point rule is exact for the triple products", "the discontinuity of the time-dependent opacity is compared only on cells it does not cross"]
BUDGET = {"quick": 120, "thorough": 1200}
OPS = ["constant", "gaussian", "siewert1", "siewert2", "fake_sedov"]


def cases(rng, tier):
    out = []
    for k in range(900 if tier == "quick" else 1200):
        op = OPS[k % len(OPS)]
        M = rng.choice([1, 2, 3, 4, 5, 7])
        c = dict(M=M, Msigma=rng.choice([0, 1, 2, M, min(2 * M, 6)]), N_ang=rng.choice([2, 3, 4, 6, 12]), N_space=rng.choice([2, 3, 4, 6, 12, 20]), opacity=op, kind="gaussian_IC", geometry="slab",
                 sigma_t=rng.choice([1.0, rng.uniform(0.1, 4)]), v0=rng.choice([0.02, 0.3]), weights=rng.choice(["gauss_legendre", "gauss_legendre", "gauss_lobatto"]))
        c["sigma_s"] = c["sigma_t"] * rng.choice([0.0, 1.0, rng.uniform(0, 1)])
        steps = []
        for _ in range(6):
            kind = rng.choice(["move", "move", "same", "partial", "inner", "one", "back", "time"])
            steps.append([kind, rng.randrange(10 ** 6), rng.choice([rng.uniform(0, 4)] * 3 + [0.0])])
        out.append({"c": c, "steps": steps, "seed": rng.randrange(10 ** 6)})
    return out


def run_case(env, case, rec):
    c = env.api.cfg(**case["c"]); M, Ks, A, N = c["M"], c["Msigma"], c["N_ang"], c["N_space"]
    b = env.api.build(c)
    sig = env.api.mod("solver_classes.opacity").sigma_integrator(b)
    fl = env.api.mod("solver_classes.phi_class").scalar_flux(b); fl.load_AAA(sig.AAA)
    mus, ws = env.api.quadrature(A, c["weights"]); ws = 0.5 * ws      # isotropic re-emission: one half of the angular integral
    op = P.opacity_shape(c)
    # triple products
    x, w = O.gl(60)
    for i in range(M + 1):
        for j in range(M + 1):
            for k in range(Ks + 1):
                want = (O.Bleg(i, x, -1, 1) * O.Bleg(j, x, -1, 1) * O.Bleg(k, x, -1, 1) * w).sum() * math.sqrt(2)
                rec.close(sig.AAA[i, j, k], want, 1e-9, "triple", "integral of P%d P%d P%d" % (i, j, k), scale=1.0)
    r = np.random.default_rng(case["seed"])
    edges = np.sort(r.uniform(-3, 3, N + 1)); edges = edges + 0.1 * np.arange(N + 1)
    hist = [edges]; t = 0.0
    for kind, sd, tt in case["steps"]:
        q = np.random.default_rng(sd)
        if kind == "move": edges = np.sort(q.uniform(-3, 3, N + 1)) + 0.1 * np.arange(N + 1)
        elif kind == "partial":
            edges = edges.copy(); edges[-1] += q.uniform(0.1, 1)
        elif kind == "inner":
            edges = edges.copy()
            if N > 2 or True: edges[1:-1] = np.sort(q.uniform(edges[0], edges[-1], N - 1)) * 0.9 + 0.1 * np.linspace(edges[0], edges[-1], N + 1)[1:-1]
        elif kind == "one":
            k = int(q.integers(0, N + 1)); lo = edges[k - 1] if k else edges[0] - 1; hi = edges[k + 1] if k < N else edges[-1] + 1
            edges = edges.copy(); edges[k] = lo + (hi - lo) * q.uniform(.2, .8)
        elif kind == "back": edges = hist[q.integers(len(hist))]
        t = tt
        hist.append(edges)
        e = edges.copy()
        sig.sigma_moments(e, t); fl.get_coeffs(sig)
        jump = P.opacity_jump(c, t)
        U = np.random.default_rng(sd + 1).normal(size=(A, N, M + 1)) * P.amplitude(sd)
        for s in range(N):
            a, bb = e[s], e[s + 1]
            tag = "%s M=%d Msigma=%d step %s t=%.4g cell %d" % (c["opacity"], M, Ks, kind, t, s)
            x, w = O.gl(50, a, bb); x2, w2 = O.gl(2 * M + 1, a, bb)
            Bs = np.array([O.Bleg(n, x, a, bb) for n in range(Ks + 1)]); Bs2 = np.array([O.Bleg(n, x2, a, bb) for n in range(Ks + 1)])
            if c["opacity"] != "constant":
                cs = np.array(sig.cs[s])
                crossed = any(a - 1e-9 <= j <= bb + 1e-9 for j in jump)
                if not crossed:
                    want = (Bs * w) @ op(x, t); slack = 3 * np.abs((Bs2 * w2) @ op(x2, t) - want).max()
                    rec.close(cs, want, 1e-9 + slack, "opacity-moments", tag, scale=1.0)
                sx = cs @ Bs
            else: sx = 1 + 0 * x
            Bx = np.array([O.Bleg(n, x, a, bb) for n in range(M + 1)])
            phi = ws @ U[:, s]
            tot = np.zeros(M + 1)
            for l in range(A):
                sig.make_vectors(e, U[l, s].copy(), s)
                vv = np.array(sig.VV)
                want = c["sigma_t"] * (Bx * w * sx) @ (U[l, s] @ Bx)
                rec.close(vv, want, 1e-8, "absorption", tag + " direction %d" % l, scale=np.abs(U).max() + np.abs(want).max())
                tot = tot + ws[l] * vv
            fl.make_P(U[:, s, :].copy(), s, a, bb)
            sc = np.array(fl.scalar_flux_term)
            want = c["sigma_s"] * (Bx * w * sx) @ (phi @ Bx)
            rec.close(sc, want, 1e-8, "scattering", tag, scale=np.abs(U).max() + np.abs(want).max())
            rec.close(sc * c["sigma_t"], tot * c["sigma_s"], 1e-8, "absorption-scattering-ratio", tag + ": angle-summed absorption against scattering", scale=np.abs(U).max() + np.abs(tot).max())
            rec.bucket(c["opacity"], M, Ks); rec.bucket(c["opacity"], kind)
    # a fresh object gives the same moments as one with a history
    f2 = env.api.mod("solver_classes.opacity").sigma_integrator(b)
    f2.sigma_moments(edges.copy(), t)
    rec.close(np.array(sig.cs), np.array(f2.cs), 1e-13, "memory", "%s: moments after a history against a fresh object" % c["opacity"], scale=1.0)
    rec.bucket(c["opacity"], "fresh")
