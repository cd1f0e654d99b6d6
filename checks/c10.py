"""C10 uncollided solutions against direct integration over emission time and direction."""
import numpy as np, math
from scipy.integrate import quad

RULE = ("one case = one (problem, parameters, time) and a set of points, including both sides of every wavefront and source boundary; the closed forms are "
        "compared with adaptive integration of the definition; distinct = distinct (problem, angular model, time regime, region) observed with non-zero flux")
ASSUMPTIONS = ["times >= 1e-3 (the package regularises 1/t by 1e-12)", "points within 1e-9 of a wavefront are not judged",
               "the spherical point pulse is a delta function on a surface and is not judged", "two-direction Gaussian source: the closed form loses digits as exp(sqrt(3)|x|), the tolerance follows", "unit total cross section (the closed forms assume it)"]
BUDGET = {"quick": 150, "thorough": 1500}
PROBS = ["plane", "square_IC", "square_source", "square_source_s2", "gaussian_IC", "gaussian_source", "gaussian_source_s2", "gaussian_thick_s2", "sedov", "shell", "point"]


def cases(rng, tier):
    out = []
    for k in range(4000 if tier == "quick" else 9000):
        p = PROBS[k % len(PROBS)]
        t = rng.choice([rng.uniform(0.01, 1), rng.uniform(0.5, 6), rng.uniform(5, 14), 10 ** rng.uniform(-4, 1.7)])
        x0 = rng.choice([0.5, rng.uniform(0.1, 3), 0.5, 10 ** rng.uniform(-2, 2)])
        t0 = rng.choice([rng.uniform(0.1, 3), 5.0, 20.0, 10 ** rng.uniform(-3, -1)])
        sig = rng.choice([0.5, rng.uniform(0.3, 3)])
        if p == "gaussian_thick_s2": sig = rng.uniform(6, 300)
        if p == "gaussian_source": t = min(t, 6.0)
        out.append({"p": p, "t": t, "x0": x0, "t0": t0, "sigma": sig, "strength": rng.choice([1.0, rng.uniform(0.2, 3), 10 ** rng.uniform(-7, 4)]),
                    "v0": rng.choice([0.005, 0.02, 0.02, rng.uniform(0.05, 0.4)]), "fx": [rng.uniform(-1.1, 1.1) for _ in range(8)],
                    "A": rng.choice([3, 4, 5, 8, 8, 12, 16, 24]), "N": rng.choice([1, 2, 4, 4, 7, 20, 40]), "M": rng.choice([0, 1, 1, 3, 6]), "mv": rng.random() < .5, "Tx": rng.choice([1.0, 1.0, 3.0])})
    return out


def clip_len(lo, hi):
    return max(0.0, min(hi, 1.0) - max(lo, -1.0))


def pieces(f, a, b, pts):
    if b <= a: return 0.0
    p = sorted(set([a, b] + [q for q in pts if a < q < b]))
    return sum(quad(f, u, v, limit=200, epsabs=1e-12, epsrel=1e-11)[0] for u, v in zip(p[:-1], p[1:]))


def run_case(env, case, rec):
    p, t, x0, t0, sig, S = case["p"], case["t"], case["x0"], case["t0"], case["sigma"], case["strength"]
    kw = dict(N_space=case["N"], M=case["M"], x0=x0, t0=t0, sigma=sig, strength=S, uncollided=True, geometry="slab", N_ang=case["A"], t_nodes=60, moving=case["mv"], tfinal=case["Tx"] * max(t, 1.0))
    kind = {"plane": "plane_IC", "square_IC": "square_IC", "square_source": "square_source", "square_source_s2": "square_source", "gaussian_IC": "gaussian_IC",
            "gaussian_source": "gaussian_source", "gaussian_source_s2": "gaussian_source", "gaussian_thick_s2": "gaussian_source", "sedov": "boundary", "shell": "square_IC", "point": "plane_IC"}[p]
    kw["kind"] = kind
    if p.endswith("_s2"): kw["N_ang"] = 2
    if p in ("shell", "point"): kw["geometry"] = "sphere"
    if p == "sedov": kw.update(v0=case["v0"], x0=0.5 if x0 < 0.5 else x0, N_ang=case["A"], boundary_source=True, boundary_on=[1, 0]); x0 = kw["x0"]
    if p == "plane": kw["x0"] = x0 = 1e-11
    b = env.api.build(env.api.cfg(**kw))
    sol = env.api.mod("solver_classes.uncollided_solutions").uncollided_solution(b)
    s3 = math.sqrt(3)
    reach = {"plane": t, "sedov": x0}.get(p, x0 + t / (s3 if p.endswith("_s2") else 1))
    if "gaussian" in p: reach = min(t, 4.0) + 2 * sig
    xs = [f * reach for f in case["fx"]]
    for q in (x0, x0 - t, t - x0, x0 - t / s3, t / s3 - x0, x0 - (t - t0), x0 - (t - t0) / s3, 0.0):
        if p not in ("plane", "sedov") and "gaussian" not in p and abs(q) < reach: xs += [q + 1e-3, q - 1e-3]
    if p in ("shell", "point"): xs = [abs(x) + 1e-3 for x in xs] + [0.0]
    if p == "sedov": xs = [x for x in xs if -x0 + 1e-3 < x < x0]
    xs = np.array(xs)
    got = np.array(sol.uncollided_solution(xs.copy(), t))
    rec.ok(got.shape == xs.shape, "shape", p)
    mus, ws = np.array(b.mus), np.array(b.ws)
    tol = 1e-7
    for i, x in enumerate(xs.tolist()):
        ax = abs(x)
        lo, hi = t - min(t, t0), t
        if p == "plane":
            if abs(ax - t) < 1e-6: continue
            want = math.exp(-t) / (2 * t) if ax < t else 0.0
        elif p == "point":
            # a pulse in the centre: everything uncollided sits on the sphere of radius t
            if abs(x - t) < 1e-9: continue
            want = 0.0
            rec.bucket(p, "inside" if x < t else "outside")
        elif p == "square_IC":
            want = math.exp(-t) * 0.5 * clip_len((x - x0) / t, (x + x0) / t)
        elif p == "gaussian_IC":
            want = math.exp(-t) * sig * math.sqrt(math.pi) / (4 * t) * (math.erf((t - x) / sig) + math.erf((t + x) / sig))
        elif p == "square_source":
            f = lambda s: math.exp(-s) * (0.5 * clip_len((x - x0) / s, (x + x0) / s) if s > 0 else (1.0 if ax < x0 else 0.0))
            want = pieces(f, lo, hi, [abs(ax - x0), ax + x0])
        elif p == "square_source_s2":
            f = lambda s: math.exp(-s) * 0.5 * (float(abs(x - s / s3) <= x0) + float(abs(x + s / s3) <= x0))
            want = pieces(f, lo, hi, [s3 * abs(ax - x0), s3 * (ax + x0)])
        elif p == "gaussian_source":
            def f(s):
                if s < 1e-9: return math.exp(-x * x / sig ** 2)
                return math.exp(-s) * sig * math.sqrt(math.pi) / (4 * s) * (math.erf((s - x) / sig) + math.erf((s + x) / sig))
            want = pieces(f, lo, hi, [ax, max(ax - sig, 0), ax + sig]); tol = 1e-5
        elif p in ("gaussian_source_s2", "gaussian_thick_s2"):
            f = lambda s: math.exp(-s) * 0.5 * (math.exp(-(x - s / s3) ** 2 / sig ** 2) + math.exp(-(x + s / s3) ** 2 / sig ** 2))
            want = pieces(f, lo, hi, [s3 * ax, s3 * max(ax - sig, 0), s3 * (ax + sig)])
        elif p == "shell":
            q0 = 3 / (4 * math.pi * x0 ** 3)
            # directions whose backward characteristic starts inside the ball: r^2 + t^2 - 2 r t mu < R^2
            mc = (x * x + t * t - x0 * x0) / (2 * x * t) if x > 0 else math.copysign(math.inf, t - x0)
            want = math.exp(-t) * q0 * 0.5 * (1 - min(1.0, max(-1.0, mc)))
        else:
            xb = -x0; v0 = kw["v0"]; want = 0.0
            skip = False
            for mu, w in zip(mus, ws):
                if mu <= 0: continue
                te = t - (x - xb) / mu
                if abs(te) < 1e-8 or abs(te - t0) < 1e-8: skip = True
                if te < 0 or te > t0: continue
                def sg(s):
                    tt = te + (s - xb) / mu
                    return math.exp(-((s + 1 + v0 * tt) / 2) ** 2) if s >= -v0 * tt else 0.2
                shock = (v0 * xb - te * v0 * mu) / (v0 + mu)
                want += 2 * w * math.exp(-pieces(sg, xb, x, [shock]) / mu)
            if skip: continue
        want *= S
        if p == "gaussian_source_s2": tol = 1e-6 + 1e-13 * math.exp(s3 * ax + 0.75 * sig * sig)      # conditioning of the closed form
        rec.close(got[i], want, tol, p, "%s x=%.6g t=%.6g x0=%.4g t0=%.4g sigma=%.4g" % (p, x, t, x0, t0, sig), scale=max(S * math.exp(-min(t, 30)) / max(t, 1), abs(want)) if p in ("plane", "square_IC", "gaussian_IC") else max(S * 1e-2, abs(want)))
        if want > 1e-12: rec.bucket(p, "after-switch-off" if t > t0 else "source-on", "inside" if ax < x0 else "outside")
    if p == "plane":
        a, bb = -0.3 * t, 0.5 * t
        v = sol.plane_IC_uncollided_solution_integrated(t, a, bb)
        rec.close(v, math.exp(-t) / (2 * t) * math.sqrt(bb - a), 1e-8, "plane-integrated", "integral against the first basis function", scale=math.exp(-t) / (2 * t))
        rec.bucket(p, "integrated")
    off = env.api.mod("solver_classes.uncollided_solutions").uncollided_solution(env.api.build(env.api.cfg(**dict(kw, uncollided=False))))
    rec.close(off.uncollided_solution(xs.copy(), t), 0 * xs, 1e-300, "off-is-zero", "uncollided treatment off must give zero")
