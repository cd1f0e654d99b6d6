"""C09 end to end: solve() delivers the physics it exists to deliver."""
import numpy as np, math
import oracle as O, problems as P, refsolve

RULE = ("one case = one or two complete solve() runs judged against an exact solution, a conservation law, a symmetry or the other supported way of "
        "computing the same quantity (uncollided source on/off, moving/static mesh, rescaled units, an independent solver of the same discretisation); distinct = distinct (relation, problem, options) observed")
ASSUMPTIONS = ["coarse discretisations: tolerances are set from the discretisation error of the unchanged tree with a margin of about four",
               "infinite slab/sphere problems with constant opacity; sigma_t = 1 where the uncollided source is used (its closed forms assume it)"]
BUDGET = {"quick": 300, "thorough": 1700}
CASE_LIMIT = 170


def reference_case(rng):
    """any supported problem at a size an independent solver can follow"""
    while True:
        fam = rng.random() < .12
        c = P.family(rng, extra=()) if fam else P.config(rng)
        if fam:
            if "wave" in c: break
            c["tfinal"] = min(c["tfinal"], rng.uniform(0.5, 2)); c["t0"] = c["tfinal"] * rng.choice([2, 0.5]); c["N_space"] = min(c["N_space"], 12); c["strength"] = 1.0
            if c.get("finite") and not c.get("thick") and c["move"] == 0 if "move" in c else c.get("finite"): c["t0"] = c["tfinal"] * rng.uniform(.3, .7); c["pad"] = c["x0"] + c["edge_v"] * c["tfinal"]
        elif rng.random() < .35 and c["kind"] != "boundary" and not (c["geometry"] == "sphere" and c["kind"] == "plane_IC"):
            c.update(uncollided=True, t_nodes=20, weights="gauss_legendre", sigma_t=1.0, sigma_s=rng.uniform(.2, 1)); c.pop("opacity", None); c.pop("Msigma", None)
            if c["kind"] == "plane_IC": c["edge_v"] = 1.0
        if c["kind"] == "plane_IC" and c["geometry"] == "slab": c.update(x0=1e-6 if c["uncollided"] else rng.choice([0.3, rng.uniform(0.05, 0.5)]), moving=True)
        if c["kind"] == "plane_IC" and c["geometry"] == "sphere" and not c["moving"]: c["N_space"] = rng.choice([2, 4, 6])
        T = c["tfinal"]; c["tfinal"] = min(T, rng.uniform(0.3, 1.6)); c["t0"] *= c["tfinal"] / T
        if rng.random() < .25:
            c["strength"] = 10 ** rng.uniform(-6, 4)
            if "boundary_strength" in c: c["boundary_strength"] = c["strength"]
        cost = c["N_space"] * (c["N_ang"] + 2) * (c["M"] + 1) ** 2 * c["tfinal"] * (3 if c["geometry"] == "sphere" else 1) * (2 if "opacity" in c else 1)
        if cost < 1500: break
    return dict(rel="reference", times=sorted([rng.uniform(.15, .9) * c["tfinal"] for _ in range(rng.choice([0, 0, 1, 2]))]) + [c["tfinal"]],
                nq=rng.choice([0, 0, 9]), integrator=rng.choice(["DOP853", "DOP853", "DOP853", "RK45"]), **c)


def cases(rng, tier):
    out = []
    n = 1 if tier == "quick" else 6
    for law in ("su_olson", "rad_transfer_const_cv"):
        out.append(dict(rel="coupled", law=law, kind="square_source", x0=0.5, N_space=4, M=2, N_ang=4, tfinal=0.3, t0=9.0, moving=rng.random() < .5, transfer=True, strength=rng.uniform(0.5, 2), cv0=0.03))
    for _ in range(n):
        st = rng.uniform(0.4, 2.5)
        out.append(dict(rel="advect", kind="gaussian_IC", sigma_t=st, sigma_s=0.0, sigma=0.5, x0=2.0, N_space=8, M=4, N_ang=rng.choice([2, 4]), tfinal=rng.uniform(0.4, 1.2),
                        moving=rng.random() < .5, strength=rng.uniform(0.5, 2), noniso=rng.random() < .5))
        out.append(dict(rel="advect", kind="gaussian_IC", sigma_t=1.0, sigma_s=0.0, sigma=0.5, x0=2.0, N_space=7, M=4, N_ang=4, tfinal=1.0, moving=True, noniso=True))
        out.append(dict(rel="steady-beam", kind="boundary", boundary_source=True, boundary_on=rng.choice([[1, 0], [0, 1], [1, 1]]), boundary_strength=rng.uniform(0.3, 2),
                        sigma_t=rng.uniform(0.3, 2), sigma_s=0.0, x0=0.5, N_space=4, M=3, N_ang=2, tfinal=6.0, t0=50.0, moving=False, v0=0.0))
        for kind, extra in (("gaussian_IC", dict(sigma=0.5, x0=2.0, N_space=6)), ("square_IC", dict(x0=0.5, N_space=8)), ("square_source", dict(x0=0.5, N_space=8)),
                            ("gaussian_source", dict(sigma=0.5, x0=2.0, N_space=6)), ("plane_IC", dict(x0=0.02, N_space=6))):
            st = rng.uniform(0.5, 2); T = rng.uniform(0.4, 1.0)
            out.append(dict(rel="particles", kind=kind, sigma_t=st, sigma_s=st * rng.choice([1.0, rng.uniform(0, 1)]), M=2, N_ang=4, tfinal=T, moving=True,
                            t0=rng.choice([T * 0.5, 9.0]), strength=rng.uniform(0.5, 2), weights=rng.choice(["gauss_legendre", "gauss_legendre", "gauss_lobatto"]), **extra))
        for kind, extra in (("gaussian_IC", dict(sigma=0.5, x0=2.0, N_space=6)), ("square_IC", dict(x0=0.5, N_space=8)), ("square_source", dict(x0=0.5, N_space=8, t0=9.0)),
                            ("gaussian_source", dict(sigma=0.5, x0=2.0, N_space=6, t0=9.0))):
            out.append(dict(rel="uncollided", kind=kind, sigma_s=rng.choice([1.0, rng.uniform(0.3, 1)]), M=3 if "gauss" in kind else 2, N_ang=8, tfinal=rng.uniform(0.7, 1.2),
                            moving=rng.random() < .6, strength=rng.uniform(0.5, 2), t_nodes=16, **extra))
        out.append(dict(rel="plane-uncollided", kind="plane_IC", sigma_s=rng.choice([1.0, 0.7]), M=2, N_ang=4, N_space=rng.choice([3, 4]), x0=1e-6, tfinal=rng.uniform(0.5, 1.5), moving=True, uncollided=True,
                        strength=rng.uniform(0.5, 2)))
        out.append(dict(rel="moving-static", kind="gaussian_IC", sigma=0.5, x0=2.0, N_space=8, M=4, N_ang=4, tfinal=rng.uniform(0.5, 1.5), sigma_s=rng.uniform(0.2, 1), uncollided=rng.random() < .5))
        out.append(dict(rel="scaling", kind="gaussian_IC", sigma=0.5, x0=2.0, N_space=6, M=3, N_ang=4, tfinal=0.8, sigma_s=0.7, k=rng.uniform(0.3, 4), moving=True))
        out.append(dict(rel="scaling", kind="gaussian_IC", sigma=0.5, x0=2.0, N_space=6, M=3, N_ang=4, tfinal=0.8, sigma_s=0.7, k=rng.uniform(0.3, 4), moving=False, opacity="constant"))
        for mv in (True, False):
            out.append(dict(rel="shell", kind="square_IC", geometry="sphere", x0=0.5, N_space=5, M=rng.choice([1, 2]), N_ang=8, tfinal=0.5, moving=mv, sigma_s=rng.choice([0.0, 1.0, 0.6]),
                            strength=rng.uniform(0.5, 2), sigma_t=1.0))
        out.append(dict(rel="shell-uncollided", kind="square_IC", geometry="sphere", x0=0.5, N_space=4, M=1, N_ang=4, tfinal=0.5, moving=False, sigma_s=rng.choice([1.0, 0.6]), uncollided=True,
                        strength=rng.uniform(0.5, 2)))
        out.append(dict(rel="thick", kind="square_source", thick=True, move=2, x0=0.5, N_space=8, M=1, N_ang=4, sigma_t=2.0, sigma_s=2.0, tfinal=0.5, t0=9.0, moving=True))
    for _ in range(240 if tier == "quick" else 1600): out.append(reference_case(rng))
    return out


def slab_total(c, r):
    e = np.array(r["edges"]); w = r["ws"]
    return sum((w @ np.array(r["sol"])[:, k, 0]) * math.sqrt(e[k + 1] - e[k]) for k in range(c["N_space"]))


def sphere_total(c, r):
    e = np.array(r["edges"]); w = r["ws"]
    return 4 * math.pi * sum(w @ O.cell_mass("sphere", np.array(r["sol"])[:, k, :], e[k], e[k + 1]) for k in range(c["N_space"]))


def emitted(c):
    """total emitted particles at tfinal for a pure absorber rate a = sigma_t - sigma_s: N' = -a N + q(t)"""
    a = c["sigma_t"] - c["sigma_s"]; T = c["tfinal"]; S = c["strength"]
    per = {"square": 2 * c["x0"], "gauss": math.sqrt(math.pi) * c["sigma"]}
    if c["kind"] == "plane_IC": return S * math.exp(-a * T)            # unit pulse
    if c["kind"] == "square_IC": return S * per["square"] * math.exp(-a * T)
    if c["kind"] == "gaussian_IC": return S * per["gauss"] * math.exp(-a * T)
    q = S * (per["square"] if c["kind"] == "square_source" else per["gauss"])
    on = min(T, c["t0"])
    if abs(a) < 1e-12: return q * on
    return q * (1 - math.exp(-a * on)) / a * math.exp(-a * (T - on))


def coupled(env, c, law, rec):
    """two-temperature problem: radiation and material energy together receive what the source emits (a = c = 1 units of the package)"""
    args = list(env.api.solve_args(c, rt=1e-7, at=1e-9, mxstp=c["tfinal"] / 20))
    args[13] = env.api.D(none=0, **{law: 1}); args[14] = np.array([int(law == "rad_transfer_const_cv"), int(law == "su_olson")] + [0, 0], dtype=np.int64)
    rec.bucket("coupled", law)
    try: r = env.api.mod("solver_functions.main_functions").solve(*args)
    except Exception as ex:
        return rec.ok(False, "coupled-unsupported", "%s: solve() of a problem with radiative transfer raised %s: %s" % (law, type(ex).__name__, str(ex)[:120]))
    sol = np.array(r[7]); e = np.array(r[10]); ws = np.array(r[9])
    rec.ok(sol.shape == (c["N_ang"] + 1, c["N_space"], c["M"] + 1), "coupled-shape", "%s: coefficients of shape %s" % (law, sol.shape))
    tot = sum((ws @ sol[:-1, k, 0] + sol[-1, k, 0]) * math.sqrt(e[k + 1] - e[k]) for k in range(c["N_space"]))
    rec.ok(0.5 * c["tfinal"] * c["strength"] * 2 * c["x0"] < tot < 1.5 * c["tfinal"] * c["strength"] * 2 * c["x0"], "coupled-energy", "%s: radiation and material hold %.3g" % (law, tot))


def reference(env, c, case, rec):
    """the coefficients and fluxes solve() delivers against an independent solver of the same discretisation"""
    T, unc = c["tfinal"], c["uncollided"]; times = case["times"]
    low = case["integrator"] == "RK45"      # its interpolant between steps is of low order
    kw = dict(rt=1e-8 if low else 1e-6, at=(1e-10 if low else 1e-8) * c["strength"], mxstp=T / (120 if low else 40), integrator=case["integrator"])
    if len(times) > 1: kw.update(eval_times=True, eval_array=times)
    m = env.api.mesh(c)
    def at(t):
        m.move(float(t)); return np.array(m.edges), np.array(m.Dedges)
    if case["nq"]:
        e = at(T)[0]; kw.update(choose_xs=True, xs=np.sort(e[0] + (e[-1] - e[0]) * (0.5 + np.arange(case["nq"]) + 0.123) / (case["nq"] + 1)))
    r = env.api.solve(c, **kw)
    ref = refsolve.Reference(c, r["mus"], r["ws"], at)
    Us = ref.solve(times, rtol=1e-6, atol=1e-8)
    switched = c["t0"] < T and ("source" in c["kind"] or c["boundary_source"])
    tol = 5e-4 if switched else 3e-4 if unc else 1e-4 if case["integrator"] == "RK45" else 2e-5
    tag = "%s %s moving=%s uncollided=%s opacity=%s M=%d N=%d N_ang=%d T=%.3g t0=%.3g" % (c["geometry"], c["kind"], c["moving"], unc, c["opacity"], c["M"], c["N_space"], c["N_ang"], T, c["t0"])
    src = max(c["strength"] if c["kind"] != "boundary" else 0, c["boundary_strength"] if c["boundary_source"] else 0) * min(T, 1.0)
    for i, (t, U) in enumerate(zip(times, Us)):
        g = (lambda k: np.array(r[k][i])) if len(times) > 1 else (lambda k: np.array(r[k]))
        xs = g("xs"); e = at(t)[0]
        psi, phi = ref.outputs(U, t, xs)
        h = np.diff(e)
        inside = (xs > e[0]) & (xs < e[-1]) & (np.abs(xs[:, None] - e).min(axis=1) > 1e-9 * h.min())
        if unc and c["geometry"] == "sphere": inside &= np.abs(np.abs(xs - t) - c["x0"]) > 1e-6
        if unc and c["geometry"] == "slab": inside &= (np.abs(np.abs(xs) - t) > 1e-6) & (np.abs(np.abs(np.abs(xs) - c["x0"]) - t) > 1e-6)
        rec.close(g("phi")[inside], phi[inside], tol, "reference", tag + ": phi at t=%.4g against an independent solver of the same equations" % t, scale=abs(phi).max() + 0.05 * src)
        rec.bucket("reference", c["geometry"], c["kind"], c["moving"], unc, c["opacity"], c["M"], "t%d" % i)
        if len(times) == 1:
            rec.close(g("psi")[:, inside], psi[:, inside], tol, "reference", tag + ": psi against an independent solver of the same equations", scale=abs(psi).max() + 0.05 * src)
            rec.close(r["sol"], U, tol, "reference", tag + ": coefficients against an independent solver of the same equations", scale=abs(U).max() + 0.05 * src * math.sqrt(h.min()))
            rec.close(r["exit_dist"], ref.ends(U, t), tol, "reference", tag + ": exit distribution against an independent solver of the same equations", scale=abs(psi).max() + 0.05 * src)
            rec.close(r["edges"], e, 1e-12, "reference", tag + ": final edges", scale=1 + abs(e).max())
            rec.note("reference-coefficients", U.size)


def run_case(env, case, rec):
    case = dict({"geometry": "slab"}, **case); rel = case.pop("rel"); k = case.pop("k", None)
    law = case.pop("law", None)
    if rel == "reference":
        opts = {q: case.pop(q) for q in ("times", "nq", "integrator")}
        return reference(env, env.api.cfg(**case), opts, rec)
    c = env.api.cfg(**case)
    if rel == "coupled": return coupled(env, c, law, rec)
    kw = dict(rt=1e-7, at=1e-9)
    if rel == "particles" and "source" in c["kind"]: kw["mxstp"] = c["tfinal"] / 40
    r = env.api.solve(c, **kw)
    xs, phi, psi = np.array(r["xs"]), np.array(r["phi"]), np.array(r["psi"])
    tag = "%s %s moving=%s" % (rel, c["kind"], c["moving"])
    opt = (rel, c["kind"], c["moving"], c["uncollided"])
    # result shape and identity common to every run
    e = np.array(r["edges"])
    rec.ok(e.shape == (c["N_space"] + 1,) and (np.diff(e) > 0).all(), "edges", tag)
    rec.ok(np.isfinite(phi).all() and np.isfinite(psi).all(), "finite", tag)
    rec.ok(phi.shape == xs.shape and psi.shape == (c["N_ang"], xs.size), "shapes", "%s: phi %s psi %s xs %s" % (tag, phi.shape, psi.shape, xs.shape))
    rec.ok(np.array(r["sol"]).shape == (c["N_ang"], c["N_space"], c["M"] + 1), "shapes", tag)
    rec.ok(xs.min() >= e[0] - 1e-12 and xs.max() <= e[-1] + 1e-12, "xs-inside", tag)
    m = env.api.mesh(c); m.move(c["tfinal"])
    rec.close(e, np.array(m.edges), 1e-12, "final-edges", tag + ": returned edges against the mesh at tfinal", scale=1 + abs(e).max())
    rec.close(r["mus"], env.api.quadrature(c["N_ang"], c["weights"])[0], 1e-14, "angles", tag)
    rec.close(np.sum(r["ws"]), 2.0, 1e-12, "weights", tag)
    if not c["uncollided"]:
        rec.close(phi, np.array(r["ws"]) @ psi, 1e-12, "phi-is-moment", tag + ": phi against the angular sum of psi", scale=1 + abs(phi).max())
    mus = np.array(r["mus"]); T, st, ss, S = c["tfinal"], c["sigma_t"], c["sigma_s"], c["strength"]
    rec.bucket(*opt)
    if c["geometry"] == "slab" and not c["noniso"] and (c["kind"] != "boundary"):
        rec.close(phi, phi[::-1], 1e-6, "mirror", tag + ": phi(x) against phi(-x)", scale=1 + abs(phi).max())
        rec.close(psi, psi[::-1, ::-1], 1e-6, "mirror", tag + ": psi(x,mu) against psi(-x,-mu)", scale=1 + abs(psi).max())
    if rel == "advect":
        amp = np.array([(2.0 if mu > 0 else 0.0) if c["noniso"] else 1.0 for mu in mus])
        want = np.array([a * S * 0.5 * np.exp(-(xs - mu * T) ** 2 / c["sigma"] ** 2) * math.exp(-st * T) for a, mu in zip(amp, mus)])
        rec.close(psi, want, 0.02, "exact-advection", tag + ": psi against the exact solution", scale=S * math.exp(-st * T))
    elif rel == "steady-beam":
        want = np.zeros_like(psi)
        for l, mu in enumerate(mus):
            if mu > 0 and c["boundary_on"][0]: want[l] = c["boundary_strength"] * np.exp(-st * (xs + c["x0"]) / mu)
            if mu < 0 and c["boundary_on"][1]: want[l] = c["boundary_strength"] * np.exp(-st * (c["x0"] - xs) / -mu)
        rec.close(psi, want, 0.01, "exact-beam", tag + ": psi against the exact steady attenuation", scale=c["boundary_strength"])
        ed, ep = np.array(r["exit_dist"]), np.array(r["exit_phi"])
        wl = np.array([c["boundary_strength"] * math.exp(-st * 2 * c["x0"] / abs(mu)) if c["boundary_on"][0 if mu > 0 else 1] else 0.0 for mu in mus])
        got = np.array([ed[l, 1] if mu > 0 else ed[l, 0] for l, mu in enumerate(mus)])
        rec.close(got, wl, 0.01, "exit-beam", tag + ": exit distribution against the exact attenuation", scale=c["boundary_strength"])
        rec.bucket(rel, *c["boundary_on"])
    elif rel == "particles":
        tot = slab_total(c, r)
        tol = {"gaussian_IC": 2e-3, "gaussian_source": 4e-3}.get(c["kind"], 2e-5)
        if c["kind"] == "plane_IC": tol = 2e-5
        rec.close(tot, emitted(c), tol, "particle-number", tag + " c=%.3g weights=%s t0=%g: particles at tfinal" % (ss / st, c["weights"], c["t0"]), scale=emitted(c))
        rec.bucket(rel, c["kind"], ss == st, c["t0"] < T, c["weights"])
    elif rel == "uncollided":
        c2 = env.api.cfg(**dict(case, uncollided=True))
        r2 = env.api.solve(c2, choose_xs=True, xs=xs, **kw)
        p2 = np.array(r2["phi"])
        rec.close(p2, phi, 0.16 if "square" in c["kind"] else 0.02, "uncollided-onoff", tag + ": phi with against without the uncollided source treatment", scale=abs(phi).max())
        want = emitted(c) - emitted(dict(c, sigma_s=0.0))
        rec.close(slab_total(c2, r2), want, 4e-3, "collided-total", tag + ": collided particles", scale=emitted(c))
        rec.bucket(rel, c["kind"], "both")
    elif rel == "moving-static":
        xs2 = np.linspace(-1.5, 1.5, 31)
        a = env.api.solve(env.api.cfg(**dict(case, moving=True)), choose_xs=True, xs=xs2, **kw)["phi"]
        b = env.api.solve(env.api.cfg(**dict(case, moving=False)), choose_xs=True, xs=xs2, **kw)["phi"]
        rec.close(a, b, 6e-3, "moving-static", tag + ": phi on the moving against the static mesh", scale=abs(np.array(b)).max())
    elif rel == "scaling":
        c2 = env.api.cfg(**dict(case, sigma_t=k * st, sigma_s=k * ss, sigma=c["sigma"] / k, x0=c["x0"] / k, tfinal=T / k))
        r2 = env.api.solve(c2, **kw)
        rec.close(np.array(r2["xs"]) * k, xs, 1e-9, "scaled-xs", tag, scale=1 + abs(xs).max())
        rec.close(r2["phi"], phi, 2e-5, "scaling", tag + ": phi after rescaling lengths and times by %g" % k, scale=abs(phi).max())
    elif rel == "shell":
        tot = sphere_total(c, r)
        want = S * math.exp(-(st - ss) * T)
        rec.close(tot, want, 0.13, "particle-number", tag + " c=%g: particles at tfinal" % (ss / st), scale=want)
        c2 = env.api.cfg(**dict(case, moving=not c["moving"]))
        tot2 = sphere_total(c2, env.api.solve(c2, **kw))
        rec.close(tot, tot2, 0.03, "moving-static", tag + ": particles on the moving against the static mesh", scale=want)
        rec.bucket(rel, ss / st)
    elif rel == "shell-uncollided":
        tot = sphere_total(c, r)
        # particles that have collided at least once: N_c' = -(st-ss) N_c + ss N_u, N_u = S exp(-st t)
        a = st - ss
        want = S * (math.exp(-a * T) - math.exp(-st * T))
        rec.close(tot, want, 0.12, "collided-total", tag + " c=%g: collided particles" % (ss / st), scale=want)
    elif rel == "plane-uncollided":
        want = emitted(c) - emitted(dict(c, sigma_s=0.0))
        rec.close(slab_total(c, r), want, 1e-3, "collided-total", tag + ": collided particles", scale=emitted(c))
    elif rel == "thick":
        rec.close(slab_total(c, r), emitted(c), 1e-4, "particle-number", tag + ": thick square source", scale=emitted(c))
