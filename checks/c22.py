"""C22 computed fluxes against exact solutions of the transport equation, and their convergence under refinement."""
import numpy as np, math
import exact, problems as P, core

RULE = ("one case = one to three complete solve() runs whose fluxes are compared point by point with the exact solution (Fourier series in space and a collision-by-"
        "collision Volterra equation in time, attenuation along rays, or the ball in an infinite medium); distinct = distinct (relation, problem, mesh, treatment, order) observed")
ASSUMPTIONS = ["coarse discretisations: the tolerance is the discretisation error measured on the unchanged tree for that order and cell count with a margin of three to four",
               "infinite media; sigma_t = 1 where the uncollided source is used (its closed forms assume it)", "discontinuous problems are judged in the mean, not pointwise"]
BUDGET = {"quick": 330, "thorough": 1700}
CASE_LIMIT = 250
G = dict(sigma=0.5, x0=2.0)


def cases(rng, tier):
    out = []
    for n in range(1 if tier == "quick" else 5):
        for kind in ("gaussian_IC", "gaussian_source"):
            for mv in (False, True):
                for unc in (False, True):
                    M = rng.choice([2, 3, 3]); T = rng.uniform(0.5, 1.2)
                    out.append(dict(rel="exact", kind=kind, moving=mv, uncollided=unc, M=M, N_space=rng.choice([8, 9]) if M == 3 else 12, N_ang=rng.choice([2, 4, 6, 8]) if not (unc and "source" in kind) else rng.choice([4, 6]),
                                    weights=rng.choice(["gauss_legendre", "gauss_legendre", "gauss_lobatto"]), tfinal=T, t0=rng.choice([9.0, 9.0, T * 0.6]), sigma_t=1.0 if unc else rng.uniform(0.5, 2),
                                    c=rng.choice([1.0, 0.5, rng.uniform(0, 1.3)]), strength=rng.uniform(0.4, 2), t_nodes=20, **G))
        out.append(dict(rel="refine", kind=rng.choice(["gaussian_IC", "gaussian_source"]), moving=rng.random() < .5, uncollided=rng.random() < .5, M=rng.choice([1, 2]), N_space=8, N_ang=4, tfinal=1.0, t0=9.0,
                        c=rng.uniform(0.4, 1.1), t_nodes=20, **G))
        out.append(dict(rel="order", kind="gaussian_IC", moving=rng.random() < .5, uncollided=rng.random() < .5, M=1, N_space=8, N_ang=4, tfinal=0.8, c=rng.uniform(0.4, 1.1), **G))
        for kind in ("gaussian_IC", "gaussian_source"):
            out.append(dict(rel="spectral", kind=kind, moving=rng.random() < .5, uncollided=rng.random() < .4, M=rng.choice([2, 3, 4]), N_space=6, N_ang=rng.choice([4, 4, 6]), tfinal=rng.uniform(0.5, 1.0), t0=9.0, c=rng.uniform(0.3, 1.2), t_nodes=20, **G))
        for kind in ("square_IC", "square_source"):
            for unc in (True, False):
                out.append(dict(rel="square", kind=kind, moving=rng.random() < .5, uncollided=unc, M=2, N_space=rng.choice([8, 12]), N_ang=4, x0=0.5, tfinal=rng.uniform(0.5, 1), t0=9.0, c=rng.uniform(0.4, 1.2),
                                sigma_t=1.0 if unc else rng.uniform(0.6, 1.6), strength=rng.uniform(0.4, 2), t_nodes=20))
        out.append(dict(rel="plane", kind="plane_IC", moving=True, uncollided=True, M=3, N_space=rng.choice([3, 4, 6]), N_ang=16, x0=1e-6, tfinal=rng.uniform(0.6, 1.4), c=rng.uniform(0.4, 1.1), strength=rng.uniform(0.4, 2)))
        out.append(dict(rel="angles", kind="gaussian_IC", moving=rng.random() < .5, uncollided=False, M=3, N_space=12, N_ang=2, tfinal=1.0, sigma_t=rng.uniform(0.5, 2), c=rng.uniform(0.2, 1), **G))
        out.append(dict(rel="times", kind=rng.choice(["gaussian_IC", "gaussian_source"]), moving=rng.random() < .5, uncollided=False, M=3, N_space=8, N_ang=4, tfinal=1.0, t0=9.0, sigma_t=rng.uniform(0.5, 2),
                        c=rng.uniform(0.2, 1), times=sorted([rng.uniform(0.2, 0.5), rng.uniform(0.5, 0.95), 1.0]), **G))
        for kind, extra in (("gaussian_IC", G), ("square_IC", dict(x0=0.5)), ("square_source", dict(x0=0.5)), ("gaussian_source", G), ("plane_IC", dict(x0=0.02)),
                            ("boundary", dict(boundary_source=True, boundary_on=[1, 0], x0=0.5)), ("square_IC", dict(geometry="sphere", x0=0.5)), ("plane_IC", dict(geometry="sphere", x0=0.5))):
            sphere = extra.get("geometry") == "sphere"
            out.append(dict(rel="linear", kind=kind, moving=rng.random() < .5 if kind != "boundary" else False, uncollided=(rng.random() < .5) and kind != "boundary" and not (sphere and kind == "plane_IC"), M=1 if sphere else 2, N_space=4, N_ang=4, tfinal=0.5,
                            t0=9.0, c=rng.uniform(0.3, 1), k=rng.choice([rng.uniform(0.1, 0.8), rng.uniform(1.5, 8)]), **extra))
        for op in ("gaussian", "siewert1", "siewert2", "fake_sedov"):
            fs = op == "fake_sedov"
            out.append(dict(rel="rays", kind="gaussian_IC", opacity=op, M=3, Msigma=3, N_space=10 if fs else 12, N_ang=rng.choice([2, 4]), sigma=0.5, x0=2.0, tfinal=rng.uniform(0.5, 1.0), moving=rng.random() < .5, c=0.0,
                            sigma_t=rng.uniform(0.5, 1.5), v0=rng.uniform(0.05, 0.3), strength=rng.uniform(0.4, 2)))
            if not fs: out.append(dict(rel="rays", kind="boundary", opacity=op, M=3, Msigma=3, N_space=6, N_ang=rng.choice([2, 4]), x0=rng.uniform(0.4, 0.8), tfinal=7.5, moving=False, c=0.0, t0=50.0,
                            sigma_t=rng.uniform(0.5, 1.5), boundary_source=True, boundary_on=rng.choice([[1, 0], [0, 1], [1, 1]]), boundary_strength=rng.uniform(0.3, 2)))
        for unc, mv in ((False, rng.random() < .5), (True, rng.random() < .5)):
            out.append(dict(rel="ball", kind="square_IC", geometry="sphere", x0=0.5, M=1, N_space=6, N_ang=12 if unc else 16, tfinal=rng.uniform(0.7, 1.1), moving=mv, uncollided=unc, c=rng.choice([1.0, rng.uniform(0.4, 1)]),
                            strength=rng.uniform(0.4, 2)))
    return out


def trap(y, x): return float(np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(x)))
def rel_l1(a, b, x, w=1.0): return trap(abs(a - b) * w, x) / trap(abs(b) * w + 0 * x, x)


XG, WG = np.polynomial.legendre.leggauss(20)
def depth(op, x, mu, T, tau, n=30):
    """optical path per unit sigma_t of the particle at x, T that started tau earlier"""
    h = tau / n; s = (T - tau + h * (np.arange(n)[:, None] + 0.5 + XG / 2)).ravel(); w = np.tile(WG * h / 2, n)
    y = x - mu * (T - s)
    return float((w * np.array([op(np.array([a]), b)[0] for a, b in zip(y, s)])).sum())


# largest error relative to the maximum, by order, for cells of the width these cases use
TOL = {1: 0.2, 2: 0.035, 3: 0.02, 4: 0.01}


def run_case(env, case, rec):
    case = dict({"geometry": "slab"}, **case); rel = case.pop("rel"); kf = case.pop("k", None); times = case.pop("times", None)
    ratio = case.pop("c"); case["sigma_s"] = ratio * case.get("sigma_t", 1.0)
    c = env.api.cfg(**case); unc = c["uncollided"]; T = c["tfinal"]
    tag = "%s %s/%s moving=%s uncollided=%s M=%d N=%d N_ang=%d c=%.3g" % (rel, c["geometry"], c["kind"], c["moving"], unc, c["M"], c["N_space"], c["N_ang"], ratio)
    src = "source" in c["kind"]
    def go(cc, **k):
        r = env.api.solve(cc, **dict(dict(rt=1e-7, at=1e-9, mxstp=T / 40 if src else 1.0), **k))
        return r, np.array(r["xs"]), np.array(r["ws"]) @ np.array(r["psi"])
    def want(cc, xs, mus, ws, T=None):
        u, v = exact.collided(cc, mus, ws, cc["uncollided"], xs, T=T)
        return v if cc["uncollided"] else u + v
    rec.bucket(rel, c["kind"], c["geometry"], c["moving"], unc, c["M"], c["opacity"])
    if rel in ("exact", "square", "plane"):
        r, xs, num = go(c)
        mus, ws = np.array(r["mus"]), np.array(r["ws"])
        rec.note("exact-points", xs.size)
    if rel == "exact":
        ref = want(c, xs, mus, ws)
        scale = max(abs(ref).max(), 0.05 * c["strength"])
        rec.close(num, ref, TOL[c["M"]], "exact-flux", tag + " %s sigma_t=%.3g t0/T=%.2g: %s flux against the exact solution" % (c["weights"], c["sigma_t"], c["t0"] / T, "collided" if unc else "scalar"), scale=scale)
        if unc:
            u = exact.collided(c, mus, ws, True, xs)[0]
            rec.close(r["phi"], ref + u, TOL[c["M"]], "exact-total", tag + ": scalar flux against the exact uncollided and collided flux", scale=abs(ref + u).max())
    elif rel in ("refine", "order"):
        x = np.linspace(-2.4, 2.4, 121); es = []
        for cc in (c, dict(c, N_space=16) if rel == "refine" else dict(c, M=3)):
            r, _, num = go(cc, choose_xs=True, xs=x)
            ref = want(cc, x, np.array(r["mus"]), np.array(r["ws"]))
            es.append(math.sqrt(np.mean((num - ref) ** 2) / np.mean(ref ** 2)))
        lim, fine = {("refine", 1): (0.65, 0.07), ("refine", 2): (0.45, 0.009), ("order", 1): (0.13, 0.015)}[rel, c["M"]]
        rec.ok(es[1] <= lim * es[0], "convergence", tag + ": mean error %.3g with the coarse and %.3g with the fine discretisation" % tuple(es))
        rec.ok(es[1] <= fine, "exact-flux", tag + ": mean error %.3g when refined" % es[1])
    elif rel == "spectral":
        x = np.linspace(-2.4, 2.4, 121); es = []
        for M in (c["M"], c["M"] + 2):
            r, _, num = go(dict(c, M=M), choose_xs=True, xs=x, rt=1e-8, at=1e-10)
            ref = want(c, x, np.array(r["mus"]), np.array(r["ws"]))
            es.append(math.sqrt(np.mean((num - ref) ** 2) / np.mean(ref ** 2)))
        lim = {2: 0.0065, 3: 0.002, 4: 0.0005}[c["M"]]
        rec.ok(es[1] <= lim and es[1] <= 0.2 * es[0], "convergence", tag + ": mean error %.3g, and %.3g with two orders more (limit %g)" % (*es, lim))
    elif rel == "square":
        if unc:
            ref = want(c, xs, mus, ws)
            rec.ok(rel_l1(num, ref, xs) <= 0.06, "exact-flux", tag + ": mean error %.3g of the collided flux" % rel_l1(num, ref, xs))
        else:
            ref = exact.square_uncollided(c, mus, ws, xs) + exact.collided(c, mus, ws, False, xs)[1]
            rec.ok(rel_l1(num, ref, xs) <= 0.16, "exact-flux", tag + " sigma_t=%.3g: mean error %.3g of the scalar flux" % (c["sigma_t"], rel_l1(num, ref, xs)))
    elif rel == "plane":
        ref = want(c, xs, mus, ws)
        rec.ok(rel_l1(num, ref, xs) <= 0.12, "exact-flux", tag + ": mean error %.3g of the collided flux" % rel_l1(num, ref, xs))
    elif rel == "angles":
        x = np.linspace(-2.2, 2.2, 45); cc = dict(c, uncollided=True)
        u, v = exact.collided(cc, None, None, True, x)
        es = []
        for A in (2, 10):
            r = env.api.solve(dict(c, N_ang=A), rt=1e-7, at=1e-9, choose_xs=True, xs=x)
            es.append(abs(np.array(r["phi"]) - (u + v)).max())
        rec.ok(es[1] <= max(0.25 * es[0], 8e-3 * abs(u + v).max()), "convergence", tag + ": largest error %.3g with 2 and %.3g with 10 directions" % tuple(es))
        rec.ok(es[1] <= 0.025 * abs(u + v).max(), "exact-flux", tag + ": error %.3g with 10 directions" % es[1])
    elif rel == "times":
        r = env.api.solve(c, rt=1e-7, at=1e-9, mxstp=T / 40 if src else 1.0, eval_times=True, eval_array=times)
        mus, ws = np.array(r["mus"]), np.array(r["ws"])
        for i, t in enumerate(times):
            xs = np.array(r["xs"])[i]; ref = want(c, xs, mus, ws, T=t)
            rec.close(np.array(r["phi"])[i], ref, TOL[3], "exact-flux", tag + ": scalar flux at output time %.3g" % t, scale=abs(ref).max())
    elif rel == "linear":
        r, xs, _ = go(c, rt=1e-9, at=1e-12)
        key = "boundary_strength" if c["kind"] == "boundary" else "strength"
        r2, x2, _ = go(dict(c, **{key: c[key] * kf}), rt=1e-9, at=1e-12)
        rec.close(x2, xs, 1e-12, "same-points", tag)
        for name in ("phi", "psi", "exit_dist", "exit_phi", "sol"):
            a, b = np.array(r[name]), np.array(r2[name])
            rec.close(b, kf * a, 2e-6, "linear", tag + ": %s with %.3g times the source" % (name, kf), scale=kf * abs(a).max() + 1e-12)
        rec.ok(abs(np.array(r["phi"])).max() > 1e-3, "non-zero", tag)
    elif rel == "rays":
        op = P.opacity_shape(c); fs = c["opacity"] == "fake_sedov"
        r, xs, _ = go(c, rt=1e-5 if fs else 1e-7, at=1e-7 if fs else 1e-9)
        mus = np.array(r["mus"]); xs = xs[::2]; psi = np.array(r["psi"])[:, ::2]; ref = np.zeros_like(psi)
        for l, mu in enumerate(mus):
            for i, x in enumerate(xs):
                if c["kind"] == "gaussian_IC":
                    y = (x - mu * T) / c["sigma"]
                    if abs(y) < 4: ref[l, i] = c["strength"] * 0.5 * math.exp(-y * y - c["sigma_t"] * depth(op, x, mu, T, T))
                elif c["boundary_on"][0 if mu > 0 else 1]:
                    ref[l, i] = c["boundary_strength"] * math.exp(-c["sigma_t"] * depth(op, x, mu, T, (x + c["x0"]) / mu if mu > 0 else (x - c["x0"]) / mu))
        if fs:
            e = max(rel_l1(psi[l], ref[l], xs) for l in range(mus.size))
            rec.ok(e <= 0.15, "attenuation", tag + " %s sigma_t=%.3g v0=%.3g: mean error %.3g of the angular flux" % (c["opacity"], c["sigma_t"], c["v0"], e))
        else: rec.close(psi, ref, 0.03 if c["kind"] == "gaussian_IC" else 2e-3, "attenuation", tag + " %s sigma_t=%.3g: angular flux against attenuation along rays" % (c["opacity"], c["sigma_t"]), scale=abs(ref).max())
    elif rel == "ball":
        r, xs, num = go(c)
        ref = exact.ball(c, xs)
        if not unc: ref = ref + exact.ball_uncollided(c, xs)
        e = rel_l1(num, ref, xs, xs ** 2); tol = 0.15 if unc else 0.25
        rec.ok(e <= tol, "exact-flux", tag + ": mean error %.3g of the %s flux" % (e, "collided" if unc else "scalar"))
