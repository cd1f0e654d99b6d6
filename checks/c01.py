"""C01 quadrature rules integrate every polynomial of their exactness class."""
import numpy as np, math

RULE = ("one case = one (rule, number of points) pair with random polynomials at and below the rule's exactness degree; "
        "distinct = distinct (rule, n) pairs observed; all evaluations are integrals compared with closed forms")
ASSUMPTIONS = ["n from 1 (Gauss, Chebyshev) or 2 (Lobatto) up to the largest sizes the solver requests (about 150 quick, 300 thorough)"]
BUDGET = {"quick": 120, "thorough": 1200}
CASE_LIMIT = 60


def cases(rng, tier):
    out = []
    top = 64 if tier == "quick" else 200
    for name, lo in (("gauss_legendre", 1), ("gauss_lobatto", 2), ("chebyshev", 1)):
        ns = set(range(lo, 25)) | {rng.randrange(25, top) for _ in range(24 if tier == "quick" else 120)} | {rng.randrange(64, 2 * top)}
        if name != "chebyshev": ns |= {128, 196, 256, 512, 1024, rng.randrange(129, 257), rng.randrange(257, 1000)} | ({2048} if name == "gauss_legendre" else set())          # what the shipped scripts ask for
        for n in sorted(ns):
            out.append({"rule": name, "n": n, "seed": rng.randrange(1 << 30)})
    return out


def run_case(env, case, rec):
    n, name = case["n"], case["rule"]
    r = np.random.default_rng(case["seed"])
    x, w = env.api.quadrature(n, name)
    x, w = np.asarray(x, float), np.asarray(w, float)
    rec.bucket(name, n)
    if not rec.ok(x.shape == (n,) and w.shape == (n,), "shape", "%s(%d): shapes %s %s" % (name, n, x.shape, w.shape)): return
    rec.ok(np.all(np.isfinite(x)) and np.all(np.isfinite(w)), "finite", "%s(%d) not finite" % (name, n))
    rec.ok(np.all(w > 0), "positive-weights", lambda: "%s(%d): weights %s" % (name, n, w))
    o = np.argsort(x)
    xs, wsort = x[o], w[o]
    rec.ok(n == 1 or np.all(np.diff(xs) > 1e-9), "distinct-points", "%s(%d): repeated points" % (name, n))
    rec.ok(np.all(np.abs(x) <= 1 + 1e-14), "inside", "%s(%d): points outside [-1,1]" % (name, n))
    if name != "chebyshev":
        rec.ok(np.all(np.diff(x) > 0) if n > 1 else True, "ascending", "%s(%d): directions must ascend" % (name, n))
    rec.close(xs, -xs[::-1], 1e-11, "symmetric-points", "%s(%d) points" % (name, n))
    rec.close(wsort, wsort[::-1], 1e-9, "symmetric-weights", "%s(%d) weights" % (name, n))
    if name == "gauss_lobatto":
        rec.close([xs[0], xs[-1]], [-1.0, 1.0], 1e-14, "endpoints", "lobatto(%d) ends" % n)
    deg = {"gauss_legendre": 2 * n - 1, "gauss_lobatto": 2 * n - 3, "chebyshev": 2 * n - 1}[name]
    degs = {0, 1, 2, deg, deg - 1} | {int(r.integers(0, deg + 1)) for _ in range(6)}
    for d in sorted(k for k in degs if 0 <= k <= deg):
        # in the family's own orthogonal polynomials: only the degree-0 member has a nonzero integral
        if name == "chebyshev":
            got, want, tol = float(np.sum(w * np.cos(d * np.arccos(np.clip(x, -1, 1))))), (math.pi if d == 0 else 0.0), 1e-10
        else:
            from scipy.special import eval_legendre
            got, want, tol = float(np.sum(w * eval_legendre(d, x))), (2.0 if d == 0 else 0.0), 1e-9
        rec.close(got, want, tol, "exactness", "%s(%d): orthogonal polynomial of degree %d" % (name, n, d))
        # and as plain powers (independent of the orthogonal basis)
        if d <= 60:
            got = float(np.sum(w * x ** d))
            if name == "chebyshev":
                want = 0.0 if d % 2 else math.pi * math.comb(d, d // 2) / 2.0 ** d
            else:
                want = 0.0 if d % 2 else 2.0 / (d + 1)
            rec.close(got, want, 1e-9, "exactness-power", "%s(%d): x^%d" % (name, n, d), scale=1.0)
