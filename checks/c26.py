"""C26 closed-form and tabulated benchmark solutions of the run scripts against direct solutions of the problems they stand for."""
import numpy as np, math
from scipy.integrate import quad
import exact

RULE = ("one case = one benchmark (moving shock, fake Sedov, steady Gaussian attenuation, Siewert slab, Olson-Henderson source) at random parameters; what the run script computes or plots "
        "is compared with line integrals of the opacity, a Fourier/Volterra solution or a converged discrete-ordinates solution; distinct = distinct (benchmark, region or table) observed")
ASSUMPTIONS = ["tabulated values have three to five digits", "points within 1e-6 of the edge of the emission window are not judged", "the Olson-Henderson table of time 5 is not judged at the domain ends (finite slab)"]
BUDGET = {"quick": 120, "thorough": 900}


class Plots:
    """stand-in for pyplot that keeps what is plotted"""
    def __init__(self): self.calls = []
    def __getattr__(self, name):
        def f(*a, **k):
            if name == "plot": self.calls.append((a, k))
        return f


def cases(rng, tier):
    n = 60 if tier == "quick" else 300
    out = []
    for _ in range(n):
        T = rng.choice([rng.uniform(0.5, 9), rng.uniform(5, 40)])
        out.append(dict(rel="sedov", v0=rng.choice([0.005, 0.02, rng.uniform(0.001, 0.5)]), T=T, t0=rng.choice([rng.uniform(0.2, T), 100.0]), seed=rng.randrange(10 ** 6)))
        out.append(dict(rel="shock", T=T, seed=rng.randrange(10 ** 6)))
        out.append(dict(rel="steady", x0=rng.uniform(0.3, 4), n=rng.choice([2, 4, 8, 16]), k=rng.randrange(3, 12)))
    out.append(dict(rel="sedov", v0=0.4, T=30.0, t0=100.0, seed=1))
    for _ in range(4 if tier == "quick" else 30):
        out.append(dict(rel="sedov-plot", v0=rng.uniform(0.003, 0.1), T=rng.uniform(6, 15), t0=rng.choice([3.0, 100.0]), n=rng.choice([4, 8, 16]), seed=rng.randrange(10 ** 6)))
        out.append(dict(rel="shock-plot", T=rng.uniform(6, 15), n=rng.choice([4, 8, 16])))
    for s in ("siewert1", "siewert2"): out.append(dict(rel="siewert", s=s, k=rng.randrange(10 ** 6)))
    for T in (1.0, 5.0, 2.0): out.append(dict(rel="olson", T=T))
    return out


def sedov_path(v0, mu, T, x, x0=-5.0):
    """optical depth along the ray from the left boundary (opacity of the package: constant ahead of the shock at -v0 t, Gaussian behind it)"""
    te = T - (x - x0) / mu
    def op(y):
        t = te + (y - x0) / mu
        s = y + v0 * t
        return math.exp(-((s + 1.0) / 2.0) ** 2) if s >= 0 else 0.2
    y = (v0 * x0 - v0 * te * mu) / (v0 + mu)
    cuts = [x0] + ([y] if x0 < y < x else []) + [x]
    return sum(quad(op, a, b, epsabs=1e-12, epsrel=1e-11, limit=200)[0] for a, b in zip(cuts[:-1], cuts[1:])) / mu, te


def want_sedov(v0, mu, T, t0, x):
    if mu <= 0: return 0.0
    tau, te = sedov_path(v0, mu, T, x)
    return math.exp(-tau) if 0 <= te <= t0 else 0.0


def edge(mu, T, t0, x): return min(abs(T - (x + 5) / mu), abs(T - (x + 5) / mu - t0)) < 1e-6


def want_shock(T, x, mu):
    te = T - (x + 5) / mu
    if te < 0: return 0.0
    return math.exp(-quad(lambda s: math.exp(-(s + 0.25 * ((s + 5) / mu + te)) ** 2 / 8), -5, x, epsabs=1e-12, limit=200)[0] / abs(mu))


def siewert(s, mu_out, N=40, K=1500):
    """albedo problem, slab of thickness 5, unit total cross section, single-scattering albedo exp(-x/s), isotropic unit incidence at the left: reflected and
    transmitted flux in the directions mu_out (source iteration on the integral form, linear source on a fine grid)"""
    m, w = np.polynomial.legendre.leggauss(N); m, w = 0.5 * (m + 1), 0.5 * w
    x = np.linspace(0, 5.0, K + 1); h = x[1]; alb = np.exp(-x / s) if s else np.ones_like(x)
    mm = np.r_[m, mu_out]
    e = np.exp(-h / mm)
    # exact update for a source linear over the cell: psi1 = psi0 e + a S0 + b S1
    b = 1 - (mm / h) * (1 - e); a = (1 - e) - b
    def sweep(S):
        f = np.ones((mm.size, K + 1)); g = np.zeros((mm.size, K + 1))
        for k in range(K):
            f[:, k + 1] = f[:, k] * e + a * S[k] + b * S[k + 1]
            g[:, K - k - 1] = g[:, K - k] * e + a * S[K - k] + b * S[K - k - 1]
        return f, g
    S = np.zeros(K + 1)
    # acceleration: build the linear operator on a coarse set through Anderson mixing
    hist = []
    for it in range(400):
        f, g = sweep(S)
        new = 0.5 * alb * (w @ (f[:N] + g[:N]))
        r = new - S
        if abs(r).max() < 1e-11: break
        hist.append((S.copy(), r.copy())); hist = hist[-8:]
        if len(hist) > 2:
            R = np.array([q for _, q in hist]); dR = np.diff(R, axis=0); X = np.array([p for p, _ in hist]); dX = np.diff(X, axis=0)
            c, *_ = np.linalg.lstsq(dR.T, r, rcond=None)
            S = S + r - c @ (dX + dR)
        else: S = new
    f, g = sweep(S)
    return g[N:, 0], f[N:, -1]


def run_case(env, case, rec):
    rf = env.api.mod("solver_functions.run_functions")
    obj = rf.run()
    rel = case["rel"]
    r = np.random.default_rng(case.get("seed", case.get("k", 0)))
    plots = Plots(); real, rf.plt = rf.plt, plots
    try:
        if rel == "sedov":
            obj.v0, obj.t0_source = case["v0"], case["t0"]; T = case["T"]
            for i in range(30):
                mu = float(r.choice([1.0, r.uniform(0.05, 1), -r.uniform(0.05, 1)])); x = float(r.uniform(-5, 5))
                if r.random() < 0.5 and mu > 0: x = min(5.0, -5 + mu * T * float(r.uniform(0, 1.1)))
                if x <= -5 + 1e-9 or (mu > 0 and edge(mu, T, case["t0"], x)): continue
                want = want_sedov(case["v0"], mu, T, case["t0"], x)
                rec.close(obj.fake_sedov(mu, T, x), want, 1e-8, "sedov", "fake_sedov(mu=%.4g, T=%.4g, x=%.4g) v0=%.4g t0=%.4g against the attenuation along the ray" % (mu, T, x, case["v0"], case["t0"]), scale=1)
                te = T - (x + 5) / mu
                rec.bucket("sedov", mu > 0, te >= 0, te <= case["t0"], x > -case["v0"] * T, case["v0"] * te > 5, want > 1e-6)
        elif rel == "shock":
            T = case["T"]
            for i in range(20):
                mu = float(r.choice([1.0, r.uniform(0.1, 1)])); x = float(r.uniform(-5, min(5.0, -5 + mu * T * 1.1)))
                if edge(mu, T, 1e9, x): continue
                want = want_shock(T, x, mu)
                rec.close(obj.moving_gaussian_shock(T, x, mu), want, 1e-7, "shock", "moving_gaussian_shock(%.4g, %.4g, %.4g)" % (T, x, mu), scale=1)
                rec.bucket("shock", want > 0, x > -0.25 * T)
        elif rel == "steady":
            x0 = case["x0"]; mus, ws = env.api.quadrature(case["n"], "gauss_legendre"); xs = np.linspace(-x0, x0, case["k"])
            obj.xs, obj.ws, obj.mus, obj.x0 = xs.copy(), np.array(ws), np.array(mus), np.array([x0])
            obj.steady_state_gaussian_benchmark()
            a, k = plots.calls[-1]
            def want(sd): return np.array([sum(w * math.exp(-quad(lambda s: math.exp(-s * s / (2 * sd * sd)), -x0, x, epsabs=1e-12, limit=200)[0] / m) for m, w in zip(mus, ws) if m > 0) for x in xs])
            rec.close(np.array(a[0]), xs, 1e-13, "steady-points", "plotted points")
            # the opacity the solver uses for this problem
            b = env.api.build(env.api.cfg(geometry="slab", kind="boundary", opacity="gaussian", Msigma=1, N_space=2, M=1))
            op = env.api.mod("solver_classes.opacity").sigma_integrator(b)
            s1 = float(op.sigma_function(np.array([1.0]), 0.0)[0])
            narrow = abs(np.array(a[1]) - want(0.5)).max() < 1e-8      # the recorded finding; anything else that is not the solution has its own key
            rec.close(np.array(a[1]), want(math.sqrt(-1 / (2 * math.log(s1)))), 1e-6, "steady-gaussian-width" if narrow else "steady", "benchmark with x0=%.3g against the opacity the solver uses" % x0, scale=1)
            rec.bucket("steady", case["n"])
        elif rel == "sedov-plot":
            mus, ws = env.api.quadrature(case["n"], "gauss_legendre"); T = case["T"]
            obj.v0, obj.t0_source, obj.tfinal, obj.mus, obj.ws = case["v0"], case["t0"], T, np.array(mus), np.array(ws)
            xs = np.linspace(-4.999, 4.999, 40); obj.xs = np.array([xs * 0.9, xs]); obj.phi = np.array([xs * 0 + 7, np.cos(xs)])
            seen = []; rm = rf.RMSE; rf.RMSE = lambda a, b: seen.append((np.array(a), np.array(b))) or rm(a, b)
            try: obj.fake_sedov_benchmark()
            finally: rf.RMSE = rm
            plots.calls.clear()
            obj.fake_sedov_benchmark()
            a, k = plots.calls[-1]; px = np.array(a[0]); got = np.array(a[1])
            rec.close(px, np.linspace(xs[0], xs[-1], 50), 1e-12, "sedov-plot-points", "points of the plotted benchmark")
            ok = [all(not edge(m, T, case["t0"], x) for m in mus if m > 0) for x in px]
            want = np.array([sum(w * want_sedov(case["v0"], m, T, case["t0"], x) for m, w in zip(mus, ws)) for x in px])
            rec.close(got[ok], want[ok], 1e-7, "sedov-plot", "plotted scalar flux T=%.3g v0=%.3g t0=%.3g N_ang=%d" % (T, case["v0"], case["t0"], case["n"]), scale=1)
            rec.ok(len(seen) == 1, "sedov-rmse", "%d comparisons" % len(seen))
            for p, q in seen:
                rec.close(p, np.interp(px, xs, np.cos(xs)), 1e-9, "sedov-rmse", "flux compared with the benchmark of the last output time")
                rec.close(q, got, 1e-12, "sedov-rmse", "benchmark values compared")
            rec.bucket("sedov-plot", case["n"], case["t0"] < T)
        elif rel == "shock-plot":
            mus, ws = env.api.quadrature(case["n"], "gauss_legendre"); obj.tfinal, obj.mus = case["T"], np.array(mus); obj.xs = np.linspace(-4.99, 4.99, 30)
            obj.moving_gaussian_shock_benchmark()
            px = np.linspace(-4.99, 4.99, 25); m2 = mus[np.argmin(np.abs(np.array(mus) - 0.6))]
            rec.ok(len(plots.calls) == 2, "shock-plot", "%d curves plotted" % len(plots.calls))
            for (a, k), mu in zip(plots.calls, (1.0, m2)):
                rec.close(np.array(a[0]), px, 1e-12, "shock-plot", "points")
                ok = [not edge(mu, case["T"], 1e9, x) for x in px]
                rec.close(np.array(a[1])[ok], np.array([want_shock(case["T"], x, mu) for x in px])[ok], 1e-7, "shock-plot", "plotted angular flux mu=%.3g" % mu, scale=1)
            rec.bucket("shock-plot", case["n"])
        elif rel == "siewert":
            n = 8; mus, ws = env.api.quadrature(n, "gauss_legendre")
            obj.mus, obj.exit_dist = np.array(mus), r.uniform(0, 1, (n, 2))
            obj.siewert_bench({k: int(k == case["s"]) for k in ("siewert1", "siewert2")})
            refl, trans = siewert(1.0 if case["s"] == "siewert1" else None, np.array([0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0]))
            c = [a for a, k in plots.calls]
            rec.ok(len(c) == 4, "siewert", "%d curves plotted" % len(c))
            rec.close(np.array(c[0][0]), [0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0], 1e-12, "siewert-directions", "tabulated directions")
            rec.close(np.array(c[0][1]), refl, 2e-4, "siewert-reflected", case["s"] + ": tabulated reflected distribution", scale=1)
            rec.close(np.array(c[1][1]), trans, 3e-5 if case["s"] == "siewert1" else 2e-4, "siewert-transmitted", case["s"] + ": tabulated transmitted distribution", scale=1)
            rec.close(np.array(c[2][0]), -np.array(mus), 1e-14, "siewert-exit", "directions of the plotted left exit distribution"); rec.close(np.array(c[2][1]), obj.exit_dist[:, 0], 1e-14, "siewert-exit", "left exit distribution")
            rec.close(np.array(c[3][0]), np.array(mus), 1e-14, "siewert-exit", "directions of the plotted right exit distribution"); rec.close(np.array(c[3][1]), obj.exit_dist[:, 1], 1e-14, "siewert-exit", "right exit distribution")
            rec.bucket("siewert", case["s"])
        elif rel == "olson":
            T = case["T"]; obj.olson_henderson_bench(T)
            a, k = plots.calls[-1]; xs, got = np.array(a[0]), np.array(a[1])
            rec.close(xs, np.arange(-5, 5.01, 0.5), 1e-12, "olson-points", "points of the table")
            if T == 2.0: rec.close(got, 0 * xs, 1e-15, "olson", "no table for this time")
            else:
                c = dict(kind="square_source", x0=2.5, sigma=1.0, sigma_t=1.0, sigma_s=0.9, strength=1.0, t0=99.0, tfinal=T)
                m, w = np.polynomial.legendre.leggauss(400)
                want = exact.square_uncollided(c, m, w, xs) + exact.collided(c, None, None, True, xs, kmax=60)[1]
                keep = np.abs(xs) < (6 if T == 1.0 else 4.2)
                rec.close(got[keep], want[keep], 2.5e-3, "olson", "tabulated flux of time %g against the exact solution" % T, scale=1)
                rec.close(got, got[::-1], 1e-12, "olson-symmetric", "table of time %g" % T)
            rec.bucket("olson", T)
    finally: rf.plt = real
