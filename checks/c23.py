"""C23 numerical helpers: each routine computes what its name says, on its whole domain."""
import numpy as np, math
import oracle as O
from numpy.polynomial import legendre as Lg

RULE = ("one case = one helper routine executed on one random data set; the result is compared with an independent evaluation of its defining formula, or with the identity it has to satisfy "
        "(exactness class, telescoping sum, root of the function); distinct = distinct (routine, data class, position) observed")
ASSUMPTIONS = ["derivative formulas of Legendre polynomials are evaluated strictly inside (-1, 1), as their closed form requires", "bisection and Newton are given a bracket or a starting point from which the method converges"]
BUDGET = {"quick": 120, "thorough": 900}
MIN_BUCKETS = 20
KINDS = ["fdu", "fdu2", "ang", "legder", "roots", "step", "special", "quad", "recon", "order", "shape", "two-direction"]


def cases(rng, tier):
    return [{"what": KINDS[k % len(KINDS)], "seed": rng.randrange(10 ** 9)} for k in range(len(KINDS) * (200 if tier == "quick" else 3000))]


def grid(r, n, lo=-1.0, hi=1.0, ends=0):
    """sorted distinct points in (lo, hi), of one of several spacings"""
    k = int(r.integers(4 + ends))
    if k == 0: x = Lg.leggauss(n)[0] * 1.0
    elif k == 1: x = np.linspace(-1, 1, n + 2)[1:-1]
    elif k == 2: x = np.cumsum(10 ** r.uniform(-2, 0, n + 1)); x = 2 * x[:-1] / x[-1] - 1
    elif k == 3: x = np.cos(np.pi * (np.arange(n, 0, -1) - .5) / n)
    else: x = np.r_[-1.0, np.sort(r.uniform(-.98, .98, n - 2)), 1.0]           # end points included, as in the Lobatto rule
    return lo + (x + 1) * (hi - lo) / 2, k


def run_case(env, case, rec):
    f = env.api.mod("solver_classes.functions"); r = np.random.default_rng(case["seed"]); what = case["what"]
    if what == "fdu":
        n = int(r.integers(2, 14)); x, k = grid(r, n, ends=1); u = r.normal(size=n)
        got = np.array([f.finite_diff_uneven(x, i, u, left=(i == 0), right=(i == n - 1)) for i in range(n)])
        e = np.r_[-1.0, 0.5 * (x[1:] + x[:-1]), 1.0]; d = np.diff(e)
        fl = np.r_[0.0, (1 - e[1:-1] ** 2) * 0.5 * (u[1:] + u[:-1]), 0.0]
        rec.close(got * d, np.diff(fl), 1e-12, "angular-difference", "finite_diff_uneven on %d points (grid %d)" % (n, k))
        rec.close((got * d).sum(), 0.0, 1e-12, "telescoping", "sum of cell width times difference over all angles, %d points" % n)
        for i in range(n): rec.bucket(what, k, n, "left" if i == 0 else "right" if i == n - 1 else "inner")
        a, v = r.normal(), r.normal(size=n)
        g2 = np.array([f.finite_diff_uneven(x, i, a * u + v, left=(i == 0), right=(i == n - 1)) for i in range(n)])
        gv = np.array([f.finite_diff_uneven(x, i, v, left=(i == 0), right=(i == n - 1)) for i in range(n)])
        rec.close(g2, a * got + gv, 1e-12, "linear", "finite_diff_uneven of a combination", scale=1 + np.abs(g2).max() + np.abs(gv).max() + abs(a) * np.abs(got).max())
    elif what == "fdu2":
        n = int(r.integers(3, 12)); lo = r.uniform(-3, 1); x, k = grid(r, n, lo, lo + 10 ** r.uniform(-1, 1))
        p = r.normal(size=3)
        for i in range(n):
            end = i in (0, n - 1)
            q = p[:2] if end else p
            u = sum(c * x ** m for m, c in enumerate(q)); du = sum(m * c * x[i] ** (m - 1) for m, c in enumerate(q) if m)
            g = f.finite_diff_uneven_2(x, i, u, left=(i == 0), right=(i == n - 1))
            rec.close(g, du, 1e-9, "uneven-derivative", "finite_diff_uneven_2 at point %d of %d, polynomial of degree %d" % (i, n, len(q) - 1), scale=1 + np.abs(u).max() / np.diff(x).min())
            rec.bucket(what, k, "end" if end else "inner")
    elif what == "ang":
        n = int(r.integers(3, 12)); x, k = grid(r, n); K = int(r.integers(1, 4)); N = int(r.integers(1, 4)); sp = int(r.integers(N))
        U = r.normal(size=(n, N, K))
        # angular flux whose (1-mu^2) psi is a random quadratic (linear at the ends): the difference is exact
        for i in range(n):
            end = i in (0, n - 1); p = r.normal(size=(2 if end else 3, K))
            w = sum(np.outer(x ** m, c) for m, c in enumerate(p))
            V = U.copy(); V[:, sp, :] = w / (1 - x ** 2)[:, None]
            g = f.angular_deriv(n, i, x, V, sp)
            du = sum(m * c * x[i] ** (m - 1) for m, c in enumerate(p) if m)
            rec.close(g, du, 1e-9, "angular-derivative", "angular_deriv at angle %d of %d" % (i, n), scale=1 + np.abs(w).max() / np.diff(x).min())
            rec.bucket(what, k, "end" if end else "inner")
    elif what == "legder":
        n = int(r.integers(2, 40)); x = float(r.uniform(-.98, .98)); c = np.eye(n + 1)[n]
        g1, g2 = f.eval_legendre_deriv(n, x), f.eval_second_legendre_deriv(n, x)
        rec.close(g1, Lg.legval(x, Lg.legder(c)), 1e-10, "legendre-derivative", "eval_legendre_deriv(%d, %g)" % (n, x), scale=n * (n + 1) / 2 / (1 - x * x))
        rec.close(g2, Lg.legval(x, Lg.legder(c, 2)), 1e-9, "legendre-second", "eval_second_legendre_deriv(%d, %g)" % (n, x), scale=n ** 4 / (1 - x * x) ** 2)
        xs = r.uniform(-1, 1, 7)
        rec.close(f.Pn(n, xs, -1.0, 1.0), Lg.legval(xs, c), 1e-12, "Pn", "Pn(%d)" % n)
        rec.close(f.Pn_scalar(n, float(xs[0]), -1.0, 1.0), Lg.legval(xs[0], c), 1e-12, "Pn", "Pn_scalar(%d)" % n)
        a = r.uniform(-3, 2); b = a + 10 ** r.uniform(-2, 1); y = a + (b - a) * r.uniform(0, 1)
        rec.close(f.normPn_scalar(n, y, a, b), f.normPn(n, np.array([y]), a, b)[0], 1e-12, "normPn-scalar", "normPn_scalar(%d)" % n, scale=math.sqrt((2 * n + 1) / (b - a)))
        rec.bucket(what, n)
    elif what == "roots":
        n = int(r.integers(2, 9)); c = r.normal(size=n + 1); root = float(r.uniform(-2, 2))
        g = lambda x: (x - root) * (1.5 + np.cos(x)) * c[0]            # one sign change, at root
        a, b = root - r.uniform(.1, 3), root + r.uniform(.1, 3)
        m = f.bisection(g, a, b, tol=1e-12); rec.close(m, root, 4e-12, "bisection", "bisection of a function with its root at %g in [%g, %g]" % (root, a, b))
        try: f.bisection(g, root + .1, root + 1.0)
        except AssertionError: rec.bucket(what, "no sign change refused"); rec.ok(True, "bracket")
        else: rec.ok(False, "bracket", "bisection accepted an interval without a sign change")
        p = np.poly([root, root + 3.0, root - 4.0]); dp = np.polyder(p)
        x = f.newtons(root + r.uniform(-.1, .1), lambda x: np.polyval(p, x), lambda x: np.polyval(dp, x), tol=1e-10)
        rec.close(x, root, 1e-9, "newton", "newtons near the root %g" % root)
        rec.bucket(what, "newton", n)
    elif what == "step":
        x = np.r_[r.normal(size=int(r.integers(1, 9))), 0.0, -0.0, 1e-300, -1e-300]
        x = x[r.permutation(x.size)]; want = (x >= 0).astype(float); keep = x.copy()
        rec.close(f.heaviside_vector(x), want, 0, "step", "heaviside_vector(%s)" % x)
        rec.ok(np.array_equal(x, keep), "input-changed", "heaviside_vector changed its argument")
        for v, w in zip(x, want): rec.close(f.heaviside_scalar(float(v)), w, 0, "step", "heaviside_scalar(%g)" % v)
        for i in range(-2, 6): rec.close(f.kronecker(i), float(i == 0), 0, "kronecker", "kronecker(%d)" % i)
        rec.bucket(what, x.size)
    elif what == "special":
        from scipy.special import expi
        for x in np.r_[-10 ** r.uniform(-6, 2.5, 6), 10 ** r.uniform(-6, 2, 3)]:
            rec.close(f.numba_expi(float(x)), expi(x), 1e-13, "expi", "numba_expi(%g)" % x, scale=abs(expi(x)) + 1e-300)
            rec.bucket(what, "expi", int(np.sign(x)), int(np.log10(abs(x))))
        n = int(r.integers(0, 13)); x = r.uniform(-1, 1, 5)
        rec.close([f.eval_Tn(n, float(v)) for v in x], np.cos(n * np.arccos(x)), 1e-11, "chebyshev", "eval_Tn(%d)" % n)
        rec.bucket(what, "Tn", n)
    elif what == "quad":
        a = r.uniform(-3, 2); b = a + 10 ** r.uniform(-2, 1); n = int(r.integers(2, 8)); xs, ws = Lg.leggauss(n)
        deg = 2 * n - 1; d1 = int(r.integers(0, deg + 1)); d2 = deg - d1 - int(r.integers(0, 2)) * (d1 < deg); c1, c2 = r.normal(size=2); m = 0.5 * (a + b) + 0.2 * (b - a)
        f1, f2 = (lambda x: c1 * (2 * (x - m) / (b - a)) ** d1), (lambda x: c2 * (2 * (x - m) / (b - a)) ** d2 + 0 * x)
        want = c1 * c2 * (b - a) / 2 * ((2 * (b - m) / (b - a)) ** (d1 + d2 + 1) - (2 * (a - m) / (b - a)) ** (d1 + d2 + 1)) / (d1 + d2 + 1)
        if env.engine == "jit":
            import numba
            f1, f2 = numba.njit(f1), numba.njit(f2)
        rec.close(f.integrate_quad(a, b, xs, ws, f1, f2), want, 1e-11, "integrate-quad", "integrate_quad of degrees %d and %d with %d points on [%g, %g]" % (d1, d2, n, a, b),
                  scale=(b - a) * abs(c1 * c2) * 1.5 ** (d1 + d2))
        rec.bucket(what, n)
    elif what == "recon":
        A, N, M = int(r.integers(1, 5)), int(r.integers(1, 6)), int(r.integers(0, 5))
        e = np.cumsum(np.r_[r.uniform(-3, 0), 10 ** r.uniform(-2, .5, N)]); ws = r.uniform(0, 1, A); U = r.normal(size=(A, N, M + 1))
        cell = r.integers(0, N, 12); xs = e[cell] + (e[cell + 1] - e[cell]) * r.uniform(.01, .99, 12)
        want = np.array([ws @ np.array([sum(U[l, k, n] * O.Bleg(n, np.array([x]), e[k], e[k + 1])[0] for n in range(M + 1)) for l in range(A)]) for k, x in zip(cell, xs)])
        rec.close(f.make_phi(A, ws, xs, U, M, e), want, 1e-11, "flux", "make_phi on %d cells" % N, scale=1 + np.abs(want).max())
        rec.bucket(what, N, M)
    elif what == "order":
        p, C = r.uniform(-1, 6), 10 ** r.uniform(-9, 2); x1 = float(r.integers(2, 20)); x2 = x1 * float(r.choice([2.0, 1.5, 3.0, .5]))
        rec.close(f.convergence(C * x1 ** -p, x1, C * x2 ** -p, x2), p, 1e-9, "order", "convergence of C x^-%g" % p)
        rec.bucket(what, round(x2 / x1, 1))
    elif what == "two-direction":
        from scipy.integrate import quad
        s3 = math.sqrt(3); t = float(r.uniform(0.1, 12)); t0 = float(r.uniform(0.05, 1) * t); sig = float(r.uniform(250, 900)); x = float(r.uniform(-20, 20))
        # wide gaussian source after it was switched off: the expansion in 1/sigma
        want = quad(lambda tau: 0.5 * math.exp(tau - t) * (math.exp(-((x - (t - tau) / s3) / sig) ** 2) + math.exp(-((x + (t - tau) / s3) / sig) ** 2)), 0, t0, epsrel=1e-11)[0]
        if abs(x) + t > 0.1 * sig: x = 0.0; want = quad(lambda tau: math.exp(tau - t) * math.exp(-((t - tau) / s3 / sig) ** 2), 0, t0, epsrel=1e-11)[0]
        rec.close(f.uncollided_s2_gaussian_thick(x, t, sig, t0), want, 1e-7, "gaussian-thick", "uncollided_s2_gaussian_thick(x=%g, t=%g, sigma=%g, t0=%g)" % (x, t, sig, t0), scale=want)
        # integrand of the square source in two directions: fraction of the two beams that started inside the source
        x0 = float(r.uniform(0.1, 3)); x = float(r.uniform(-1, 1) * (x0 + t / s3) * 1.2); tau = float(r.uniform(0, .999) * t0)
        at = [abs(x - m * (t - tau) / s3) for m in (1, -1)]
        if min(abs(a - x0) for a in at) > 1e-9:
            rec.close(f.su_olson_s2_integrand(tau, x, t, x0, t0), 0.5 * math.exp(tau - t) * sum(a < x0 for a in at), 1e-12, "two-direction-integrand", "su_olson_s2_integrand(tau=%g, x=%g, t=%g, x0=%g)" % (tau, x, t, x0), scale=1)
        rec.bucket(what, sum(a < x0 for a in at), abs(x) < x0)
    elif what == "shape":
        A, N, M = (int(v) for v in r.integers(1, 30, 3))
        st = np.zeros(15, dtype=np.int64); i = int(r.integers(0, 5)); st[i if i < 4 else 14] = 1              # indices 4 and 5 are named differently in different parts of the package: not judged
        want = {0: "plane_IC", 1: "square_IC", 2: "square_source", 3: "gaussian_IC"}.get(i, "none")
        rec.ok(f.problem_identifier(st) == want, "identifier", "problem_identifier of source type %d: %r" % (i, f.problem_identifier(st)))
        rec.bucket(what, i)
        for th in (True, False):
            got = np.array(f.shaper(A, N, M, th))
            rec.ok(list(got) == [A + int(th), N, M + 1], "shape", "shaper(%d, %d, %d, %s) is %s" % (A, N, M, th, got))
        ms = env.api.mod("misc_functions")
        names = ["plane_IC", "square_IC", "square_s", "gaussian_IC", "MMS", "gaussian_s", "gaussian_IC_2D", "line_source", "P1_su_olson_rad", "P1_su_olson_mat", "P1_gaussian_rad", "P1_gaussian_mat",
                 "P1_gaussian_rad_thick", "P1_gaussian_mat_thick", "P1_su_olson_rad_thick", "P1_su_olson_mat_thick"]
        k = int(r.integers(16)); rec.close(ms.source_name_finder(names[k]), np.eye(16)[k], 0, "name", "source_name_finder(%s)" % names[k])
        try: ms.source_name_finder(names[k] + "x")
        except AssertionError: rec.ok(True, "name")
        else: rec.ok(False, "name", "an unknown source name was accepted")
        rec.bucket("name", k)
