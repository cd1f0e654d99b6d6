"""C19 interpolation and elimination utilities."""
import numpy as np, ast, os, types, sys, importlib
from scipy.interpolate import CubicSpline

RULE = ("one case = random data for one utility (cubic spline, elimination with row exchanges, table interpolation); results are compared with scipy/numpy; "
        "distinct = distinct (utility, size class, relation) observed")
ASSUMPTIONS = ["splines on intervals of moderate size (the package solves for monomial coefficients in the global coordinate)", "well conditioned systems"]
BUDGET = {"quick": 120, "thorough": 900}


def cases(rng, tier):
    n = 6 if tier == "quick" else 60
    out = [{"kind": "spline", "n": rng.choice([2, 3, 4, 7, 12]), "seed": rng.randrange(10 ** 9)} for _ in range(24 * n)]
    out += [{"kind": "gauss", "n": rng.choice([1, 2, 3, 5, 9, 17]), "zero": rng.choice([0, 0, 1, 2, 3]), "seed": rng.randrange(10 ** 9)} for _ in range(40 * n)]
    out += [{"kind": "table", "n": rng.choice([2, 3, 5, 20]), "seed": rng.randrange(10 ** 9)} for _ in range(40 * n)]
    return out


def load(env):
    """the module runs its demonstration when it is imported: import it without those statements"""
    def make():
        name = "moving_mesh_transport.solver_classes.cubic_spline"
        if env.engine == "jit":
            return env.api.mod("solver_classes.cubic_spline")
        import engines
        path = os.path.join(engines.REPO, "moving_mesh_transport/solver_classes/cubic_spline.py")
        tree = ast.parse(open(path).read())
        tree.body = [x for x in tree.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call))]
        m = types.ModuleType(name); m.__file__ = path; m.__package__ = "moving_mesh_transport.solver_classes"
        exec(compile(tree, path, "exec"), m.__dict__)
        return m
    return env.cache("spline", make)


def run_case(env, case, rec):
    r = np.random.default_rng(case["seed"]); n = case["n"]; kind = case["kind"]
    if kind == "spline":
        m = load(env)
        x = np.cumsum(r.uniform(.2, 1, n + 1)); x = (x - x.mean()) / (x[-1] - x[0]) * r.uniform(1, 3) + r.uniform(-.5, .5)
        y = r.uniform(-2, 2, n + 1); x0, y0 = x.copy(), y.copy()
        s = m.cubic_spline(x, y); ref = CubicSpline(x, y, bc_type="natural")
        q = np.concatenate((x, r.uniform(x[0], x[-1], 40), r.permutation(np.linspace(x[0], x[-1], 17))))
        q = np.clip(q, x[0], x[-1])
        got = s.eval_spline(q)
        rec.close(got, ref(q), 2e-7, "spline", "natural cubic spline through %d points" % (n + 1), scale=np.abs(ref(q)).max())
        rec.close(s.eval_spline(q[::-1].copy())[::-1], got, 0.0, "spline-pure", "evaluation order changes the result")
        rec.ok(np.array_equal(x, x0) and np.array_equal(y, y0), "input-changed", "spline data modified")
        rec.bucket("spline", n)
    elif kind == "gauss":
        m = load(env)
        A = r.normal(size=(n, n)) + 2 * np.diag(r.choice([-1, 1], n)) * (n ** .5)
        A = A[r.permutation(n)]
        if case["zero"] and n > 1: A[0, 0] = 0.0                       # needs a row exchange
        if case["zero"] == 3 and n > 1:                                 # tiny (not zero) entries where elimination starts
            for _ in range(40):
                A = r.normal(size=(n, n)) + 2 * np.diag(r.choice([-1, 1], n)) * (n ** .5)
                A = A[r.permutation(n)]; A[0, 0] = 10.0 ** r.uniform(-18, -12)
                if n > 3 and r.random() < .5: A[1] = A[0] * A[1, 1] / A[0, 1]; A[1, 0] = 0.0; A[1, 2:] = r.normal(size=n - 2)
                if np.linalg.cond(A) < 1e3: break
        if case["zero"] == 2: A = A * np.exp(r.uniform(-3, 3, n))[:, None]
        if np.linalg.cond(A) > 1e7: return
        b = r.normal(size=n)
        A0, b0 = A.copy(), b.copy()
        xx = m.GaussElim(A, b)
        rec.close(xx, np.linalg.solve(A, b), 1e-8 * max(1, np.linalg.cond(A) * 1e-4) if case["zero"] != 3 else 1e-9 * max(1, np.linalg.cond(A)), "elimination", "solution of a %dx%d system" % (n, n))
        rec.ok(np.array_equal(A, A0) and np.array_equal(b, b0), "input-changed", "the system was modified")
        rec.bucket("gauss", n, case["zero"])
        if n > 1:
            B = A.copy(); i, j = int(r.integers(n)), int(r.integers(n))
            m.swap_rows(B, i, j); p = np.arange(n); p[[i, j]] = p[[j, i]]
            rec.ok(np.array_equal(B, A[p]), "swap", "rows %d and %d exchanged" % (i, j))
            U = np.concatenate((np.triu(A) + 3 * np.eye(n), b[:, None]), axis=1); z = np.zeros(n)
            m.BackSub(U, z); rec.close(np.triu(U[:, :n]) @ z, b, 1e-9, "backsub", "back substitution", scale=1 + np.abs(z).max())
    else:
        f = env.api.mod("solver_classes.mesh_functions")._interp1d
        x = np.cumsum(r.uniform(.1, 1, n)); y = np.cumsum(r.uniform(0, 1, n))
        ext_x, ext_y = np.concatenate(([0.0], x)), np.concatenate(([0.0], y))
        for t in list(r.uniform(0, x[-1], 8)) + [x[0], x[-1], x[n // 2], x[0] * .5, 1e-9]:
            q = np.full(n, t)
            if n > 1 and r.random() < .5: q[1:] = r.uniform(0, x[-1], n - 1)       # the value asked for is the first one
            out = f(q, x, y, np.zeros(n))
            rec.close(out[0], np.interp(t, ext_x, ext_y), 1e-11, "table", "piecewise linear value at %.6g of a table with %d points on [%.3g, %.3g]" % (t, n, x[0], x[-1]))
            rec.bucket("table", n, "before" if t < x[0] else "node" if t in x else "inside")
