"""C18 benchmark loading: the values compared with are the tabulated ones of the problem, interpolated inside the table and zero beyond."""
import numpy as np, h5py, os, shutil

RULE = ("one case = a synthesised benchmark file (every problem and time different) and a query grid (inside, beyond, symmetric, at the nodes); returned values are compared with the table's nodes, "
        "with the smooth function it was sampled from and with zero outside; distinct = distinct (problem, time, grid kind, relation) observed")
ASSUMPTIONS = ["symmetric grids have an even number of points (the package assumes it)", "the last two grid points before the end of the table may be treated as outside (the package cuts at the nearest grid point)"]
BUDGET = {"quick": 120, "thorough": 900}
NAMES = ["plane_IC", "square_IC", "square_source", "gaussian_IC", "MMS", "gaussian_source", "gaussian_IC_2D", "line_source", "P1_su_olson_rad", "P1_su_olson_mat", "P1_gaussian_rad", "P1_gaussian_mat",
         "P1_gaussian_rad_thick", "P1_gaussian_mat_thick", "P1_su_olson_rad_thick", "P1_su_olson_mat_thick"]
TIMES = [1.0, 5.0, 10.0, 31.6228, 0.5, 2.5, 0.8333333333333334, 1.25, 2.54, 5.004, 1.0008]


def cases(rng, tier):
    out = []
    for k in range(len(NAMES) * (20 if tier == "quick" else 120)):
        out.append({"src": k % len(NAMES), "t": rng.choice(TIMES), "grid": rng.choice(["inside", "beyond", "symmetric", "symbeyond", "symodd", "symodd", "nodes", "barely", "window"]), "n": rng.choice([11, 40, 77, rng.randrange(8, 90)]), "c": rng.choice([1.0, 0.5, 0.25, 0.8, 1.2]),
                    "scale": rng.random() < .4, "seed": rng.randrange(10 ** 9)})
    out += [{"su": t, "seed": rng.randrange(10 ** 9)} for t in (1.0, 5.0)]
    return out


def func(i, t):
    a, b = 0.3 + 0.11 * i, 0.5 + 0.07 * t
    return (lambda x: (1 + 0.2 * i) * np.exp(-a * x) * (1 + 0.3 * np.sin(b * x + i))), (lambda x: (1e-6 if t > 9 else 1e-3 if t == 2.5 else 1.0) * (2 + 0.1 * i) * np.cos(a * x / 3 + 0.1 * t))


def setup(env):
    d = "moving_mesh_transport/benchmarks"
    def make():
        ends = {}
        with h5py.File(d + "/benchmarks.hdf5", "w") as f:
            for i, nm in enumerate(NAMES):
                g = f.create_group(nm)
                for t in TIMES:
                    L = 1.5 + 0.3 * i + 0.05 * t
                    xs = L * np.linspace(0, 1, 151)
                    p, u = func(i, t)
                    g.create_dataset("t = " + str(t), data=np.array([xs, p(xs), u(xs)]))
                    ends[i, t] = L
        r = np.random.default_rng(5)
        tabs = {1.0: r.uniform(0, 1, (12, 3)), 31.6228: r.uniform(0, 1, (9, 3))}
        np.savetxt(d + "/su_olson_1.txt", tabs[1.0]); np.savetxt(d + "/su_olson_31.txt", tabs[31.6228])
        return ends, tabs
    return env.cache("bench18-%s" % os.getcwd(), make)


def run_case(env, case, rec):
    ends, tabs = setup(env)
    if "su" in case:
        m = env.api.mod("loading_and_saving.load_bench_su_olson")
        b = m.load_bench_su_olson(case["su"], 0.5)
        if case["su"] == 1.0:
            g = b()
            for k in range(3): rec.close(g[k], tabs[1.0][:, k], 1e-12, "su-olson", "column %d of the Su-Olson table" % k)
            rec.bucket("su_olson class")
        else:
            rec.ok(b() is None, "su-olson", "a Su-Olson solution was returned for a time without a table")
        return
    m = env.api.mod("loading_and_saving.load_bench")
    i, c = case["src"], case["c"]
    st = np.zeros(16, dtype=np.int64); st[i] = 1
    t = case["t"]
    scaled = case["scale"] and t != 31.6228 and t * c in TIMES
    if case["scale"] and c == 0.5 and t == 31.6228: t, scaled = 63.2456, True # scaled time of a table
    arg_t = t
    if scaled: tb = t * c
    else: tb = t
    p, u = func(i, tb); L = ends[i, tb]
    b = m.load_bench(st if case["seed"] % 2 else list(st), arg_t, 0.5, c, bool(scaled))
    r = np.random.default_rng(case["seed"]); g = case["grid"]; n = case["n"]
    if g == "inside": xs = np.sort(r.uniform(0, L, n)); xs[0] = 0.0
    elif g == "nodes": xs = L * np.linspace(0, 1, 151)[:: int(r.integers(1, 4))]
    elif g == "beyond": xs = np.linspace(0, L * r.uniform(1.05, 2.5), n)
    elif g == "barely": # the last point is a rounding error to a promille outside
        xs = np.linspace(0, L * (1 + 10 ** r.uniform(-9, -3)), n)
    elif g == "window": # a short window across the end of the table
        h = 10 ** r.uniform(-6, -2); xs = L + np.linspace(-h, h * r.uniform(0.1, 2), n)
    elif g == "symodd":
        # a cell boundary at the centre and an odd number of points
        half = np.linspace(0, L * r.uniform(0.9, 2.5), n)[1:]
        xs = np.abs(np.concatenate((-half[::-1], [0.0], half)))
    else:
        half = np.linspace(0, L * (0.99 if g == "symmetric" else r.uniform(1.05, 2.5)), n)[1:] - 1e-3 * r.uniform()
        xs = np.abs(np.concatenate((-half[::-1], half)))
    if g.startswith("sym") and r.uniform() < .5: # cell edges left and right of the centre differ by rounding
        xs = np.where(np.arange(xs.size) < xs.size // 2, xs + np.spacing(xs) * r.integers(-2, 3, xs.size) * (np.abs(xs - L) > 1e-9) * (xs > 0), xs)
    keep = xs.copy()
    res = b(xs)
    rec.ok(np.array_equal(keep, xs), "input-changed", "the query grid was modified")
    tag = "%s t=%g c=%g scaled=%s grid=%s" % (NAMES[i], t, c, scaled, g)
    for got, f, nm in ((res[0], p, "flux"), (res[1], u, "uncollided")):
        want = f(xs)
        inside = xs <= L
        far = np.unique(np.round(xs[inside], 13))
        last = far[-2:] if g in ("beyond", "symbeyond", "symodd", "barely", "window") and far.size > 2 else np.array([])
        free = np.isin(np.round(xs, 13), last)
        rec.close(np.asarray(got)[inside & ~free], want[inside & ~free], 3e-6 if g != "nodes" else 1e-12, "inside", "%s %s" % (tag, nm), scale=max(np.abs(want).max(), 1e-300))
        rec.ok(np.all(np.asarray(got)[~inside] == 0), "outside", "%s %s is not zero beyond the table" % (tag, nm))
        for v, w in zip(np.asarray(got)[free], want[free]): rec.ok(v == 0 or abs(v - w) <= 1e-5 * np.abs(want).max(), "edge", "%s %s at the end of the table: %g, expected 0 or %g" % (tag, nm, v, w))
        if (~inside).any(): rec.bucket(NAMES[i], "outside", g)
        rec.bucket(NAMES[i], tb, g, nm)
    if tb in tabs: rec.close(res[2], tabs[tb], 1e-12, "su-olson", tag + ": Su-Olson table"); rec.bucket("su_olson", tb)
    with h5py.File("moving_mesh_transport/benchmarks/benchmarks.hdf5", "r") as f:
        rec.ok(np.array_equal(f[NAMES[i]]["t = " + str(tb)][1], p(L * np.linspace(0, 1, 151))), "file-changed", "the benchmark file was modified")
