"""C24 a solve integrates exactly the configured equations and reports exactly the states the integrator returned."""
import numpy as np, contextlib
import oracle as O
import problems as P
import core

RULE = ("one case = one call of solve() with the time integrator replaced by a monitor that records what it is handed, evaluates the right-hand side at a random history of times and "
        "states, and hands back random states; span, initial state, options, right-hand side and every returned array are judged against independent evaluations on fresh objects. A second "
        "kind of case runs the real integrators and compares the states at common times. distinct = distinct (problem, geometry, options, monitored quantity) observed")
ASSUMPTIONS = ["uncoupled problems (coupled ones cannot be solved: recorded under C09)", "the uncollided part of an output is the package's own uncollided solution at that time, which C10 judges",
               "query points are not exactly on interior cell edges"]
BUDGET = {"quick": 200, "thorough": 1500}
CASE_LIMIT = 150
MIN_BUCKETS = 12


def cases(rng, tier):
    out = []
    for k in range(150 if tier == "quick" else 1500):
        c = P.config(rng, opacity=rng.random() < .5)
        if c["M"] == 0: c["M"] = rng.choice([0, 1, 2, 3])
        c["Msigma"] = min(c.get("Msigma", 0), c["M"])
        if c.get("opacity", "constant") == "constant" and c["kind"] != "boundary" and rng.random() < .45: c.update(uncollided=True, t_nodes=rng.choice([6, 10, 13]))
        T = c["tfinal"]
        ev = k % 2 == 0
        n = rng.choice([1, 2, 3, 5])
        times = sorted(rng.uniform(0.05, 1.0) * T for _ in range(n))
        if rng.random() < .5: times[-1] = T
        out.append({"rel": "fake", "cfg": c, "eval": ev, "times": times, "choose": rng.random() < .4, "rt": rng.choice([1e-5, 10 ** rng.uniform(-12, -2)]), "at": rng.choice([1e-6, 10 ** rng.uniform(-14, -2)]), "mx": rng.choice([1.0, 0.3 * T, T * 10 ** rng.uniform(-4, 1)]),
                    "integrator": rng.choice(["DOP853", "RK45", "BDF", "Radau"]), "estimate": (not ev) and rng.random() < .1, "seed": rng.randrange(10 ** 8)})
    for k in range(4 if tier == "quick" else 40):
        kind = ["gaussian_IC", "square_source", "shell", "gaussian_source"][k % 4]
        c = P.config(rng, kinds=[kind], opacity=False)
        c.update(M=rng.choice([1, 2]), N_ang=4, N_space=4, tfinal=rng.uniform(0.3, 0.8), t0=9.0, moving=rng.random() < .7, weights="gauss_legendre")
        out.append({"rel": "real", "cfg": c, "f": sorted(rng.uniform(0.1, 0.9) for _ in range(3)), "other": rng.choice(["RK45", "LSODA", "BDF"]), "seed": rng.randrange(10 ** 8)})
    return out


class Fake:
    """stands for scipy.integrate.solve_ivp"""
    def __init__(self, case, n, mu):
        self.r = np.random.default_rng(case["seed"]); self.n = n; self.calls = []; self.case = case
        self.evals = []
    def __call__(self, fun, t_span, y0, method="RK45", t_eval=None, dense_output=False, events=None, vectorized=False, args=None, **options):
        from scipy.integrate._ivp.ivp import OptimizeResult
        te = None if t_eval is None else np.array(t_eval, dtype=float)
        self.calls.append(dict(span=[float(v) for v in t_span], y0=np.array(y0, dtype=float), method=method, t_eval=te, options=dict(options), other=(dense_output, events, vectorized, args)))
        T = float(t_span[1]); n = np.asarray(y0).size
        for f in self.r.uniform(0.02, 1.0, 3):
            t = float(f * T); y = self.r.normal(size=n); y1 = y.copy()
            d = np.array(fun(t, y), dtype=float)
            self.evals.append((t, y1, d, np.array_equal(y, y1)))
        ts = te if te is not None else np.array([0.0, T])
        res = OptimizeResult(t=ts.copy(), y=self.r.normal(size=(n, ts.size)), sol=None, t_events=None, y_events=None, nfev=3, njev=0, nlu=0, status=0, message="", success=True)
        self.y = res.y.copy(); self.t = ts.copy()
        return res


@contextlib.contextmanager
def patched(api, fake):
    import scipy.integrate as si
    real = si.solve_ivp; mf = api.mod("solver_functions.main_functions")
    names = [(m, k) for m in (si, mf) for k, v in list(vars(m).items()) if v is real]
    for m, k in names: setattr(m, k, fake)
    try: yield
    finally:
        for m, k in names: setattr(m, k, real)


def eval_state(api, c, U, t, xs, mus, ws, unc):
    """independent evaluation of the reported quantities for state U at time t"""
    m = api.mesh(c); m.move(float(t)); e = np.array(m.edges); g = c["geometry"]
    psi = np.zeros((c["N_ang"], xs.size))
    for i, x in enumerate(xs):
        if e[0] <= x <= e[-1]:
            k = min(max(np.searchsorted(e, x) - 1, 0), e.size - 2)
            psi[:, i] = O.recon(g, U[:, k, :], np.array([x]), e[k], e[k + 1])[:, 0]
    col = np.array(unc.uncollided_solution(xs.copy(), float(t))) if c["uncollided"] else 0.0
    ends = np.stack([O.recon(g, U[:, 0, :], e[:1], e[0], e[1])[:, 0], O.recon(g, U[:, -1, :], e[-1:], e[-2], e[-1])[:, 0]], axis=1)
    cole = np.array(unc.uncollided_solution(np.array([e[0], e[-1]]), float(t))) if c["uncollided"] else 0.0
    return e, psi, ws @ psi + col, ends, ws @ ends + cole


def run_case(env, case, rec):
    api = env.api; c = api.cfg(**case["cfg"])
    if case["rel"] == "real": return real(env, case, c, rec)
    r = np.random.default_rng(case["seed"] + 1); T = c["tfinal"]; g = c["geometry"]
    b = api.build(c, True); ic = np.array(b.IC)
    # degenerate meshes (start from a point) are moved away from zero before they are read
    xs = None
    if case["choose"]:
        m = api.mesh(c); m.move(T); e = np.array(m.edges); L = e[-1] - e[0]
        xs = np.concatenate([e[0] + L * r.uniform(0, 1, 9), [e[0] - 0.2 * L, e[-1] + 0.3 * L]])
        if g == "sphere": xs = np.abs(xs)
        xs = np.sort(xs) if r.random() < .5 else xs
    xs_in = None if xs is None else xs.copy()
    times = np.array(case["times"]) if case["eval"] else np.array([T])
    fake = Fake(case, ic.size, None)
    with patched(api, fake):
        res = api.solve(c, rt=case["rt"], at=case["at"], choose_xs=case["choose"], xs=xs, eval_times=case["eval"], eval_array=times.copy(), integrator=case["integrator"], mxstp=case["mx"],
                        estimate=case["estimate"])
    if len(fake.calls) != 1: raise core.Skip("solve does not call scipy's solve_ivp exactly once")
    k = fake.calls[0]; tag = "%s %s moving=%s uncollided=%s" % (g, c["kind"], c["moving"], c["uncollided"])
    opt = (g, c["kind"], c["moving"], c["uncollided"], case["eval"], case["choose"])
    rec.close(k["span"], [0.0, T], 0, "time-span", tag)
    rec.close(k["y0"], ic.reshape(-1), 1e-12, "initial-state", tag + ": state handed to the integrator against the initial coefficients", scale=1 + abs(ic).max())
    rec.ok(k["method"] == case["integrator"], "integrator", "%s: %r instead of %r" % (tag, k["method"], case["integrator"]))
    for name, want in (("rtol", case["rt"]), ("atol", case["at"]), ("max_step", case["mx"])):
        rec.ok(name in k["options"] and float(k["options"][name]) == want, name, "%s: %s=%r, configured %r" % (tag, name, k["options"].get(name), want))
    if k["t_eval"] is None: rec.ok(not case["eval"] and not case["estimate"], "output-times", tag + ": no output times")
    elif case["estimate"] and not case["eval"]: rec.ok(k["t_eval"][-1] == T, "output-times", tag)
    else: rec.close(k["t_eval"], times, 0, "output-times", tag)
    for t, y, d, same in fake.evals:
        s = api.system(c)
        want = s.rhs(t, y)
        rec.ok(same, "state-modified", tag + ": the right-hand side changed the state it was given")
        rec.close(d.reshape(-1), want.reshape(-1), 1e-9, "right-hand-side", "%s: right-hand side at t=%.6g against freshly built objects of the same configuration" % (tag, t), scale=1 + abs(want).max())
        rec.bucket("rhs", *opt[:4], c["opacity"])
    mus, ws = api.quadrature(c["N_ang"], c["weights"]); unc = api.mod("solver_classes.uncollided_solutions").uncollided_solution(b)
    A, N, K = ic.shape if ic.ndim == 3 else (c["N_ang"], c["N_space"], c["M"] + 1)
    shp = (c["N_ang"], c["N_space"], c["M"] + 1)
    cols = [fake.y[:, i].reshape(shp) for i in range(fake.y.shape[1])]
    if not case["eval"]: cols = [cols[-1]]
    lead = (times.size,) if case["eval"] else ()
    R = {n: np.array(res[n]) for n in ("xs", "phi", "psi", "exit_dist", "exit_phi", "e", "sol", "edges", "mus", "ws")}
    find_nodes = api.mod("solver_classes.functions").find_nodes
    for i, t in enumerate(times):
        sel = (i,) if case["eval"] else ()
        m = api.mesh(c); m.move(float(t))
        x_want = xs_in if case["choose"] else np.array(find_nodes(np.array(m.edges), c["M"], api.geom(g)))
        rec.ok(R["xs"].shape == lead + x_want.shape, "xs-shape", "%s: %s" % (tag, R["xs"].shape))
        if R["xs"].shape != lead + x_want.shape: return
        x = R["xs"][sel]
        rec.close(x, x_want, 1e-12, "xs", "%s: output points at t=%.6g" % (tag, t), scale=1 + abs(x_want).max())
        e, psi, phi, ends, ephi = eval_state(api, c, cols[i], t, x_want, mus, ws, unc)
        sc = 1 + abs(psi).max()
        rec.ok(R["phi"].shape == lead + x.shape and R["psi"].shape == lead + (c["N_ang"],) + x.shape, "shapes", "%s: phi %s psi %s" % (tag, R["phi"].shape, R["psi"].shape))
        rec.close(R["psi"][sel], psi, 1e-9, "psi", "%s: angular flux at t=%.6g (output %d of %d)" % (tag, t, i + 1, times.size), scale=sc)
        rec.close(R["phi"][sel], phi, 1e-9, "phi", "%s: scalar flux at t=%.6g (output %d of %d)" % (tag, t, i + 1, times.size), scale=2 * sc)
        rec.close(R["exit_dist"][sel], ends, 1e-9, "exit", "%s: exit distribution at t=%.6g" % (tag, t), scale=1 + abs(ends).max())
        rec.close(R["exit_phi"][sel], ephi, 1e-9, "exit-phi", "%s: exit scalar flux at t=%.6g" % (tag, t), scale=1 + 2 * abs(ends).max())
        rec.bucket("out", *opt, "last" if i == times.size - 1 else "inner")
    rec.close(R["sol"], cols[-1], 0, "state", tag + ": returned coefficients against the last state")
    m = api.mesh(c); m.move(float(times[-1]))
    rec.close(R["edges"], np.array(m.edges), 1e-12, "edges", tag + ": returned edges against the mesh at the time of the returned coefficients", scale=1 + abs(np.array(m.edges)).max())
    rec.ok(R["e"].shape == R["phi"].shape and not R["e"].any(), "energy", tag + ": material energy of an uncoupled problem: %s" % (R["e"].shape,))
    rec.close(R["mus"], mus, 0, "angles", tag); rec.close(R["ws"], ws, 0, "weights", tag)
    rec.close(R["angles"], mus, 0, "angles", tag) if "angles" in R else None
    if case["choose"]: rec.ok(np.array_equal(xs, xs_in), "grid-modified", tag + ": the caller's grid was modified")


def real(env, case, c, rec):
    api = env.api; T = c["tfinal"]; kw = dict(rt=1e-8, at=1e-10, mxstp=T / 20)
    tag = "%s %s moving=%s" % (c["geometry"], c["kind"], c["moving"])
    a = api.solve(c, **kw)
    t1 = np.array([f * T for f in case["f"]] + [T])
    b = api.solve(c, eval_times=True, eval_array=t1, **kw)
    sc = 1 + abs(np.array(a["phi"])).max()
    rec.close(b["sol"], a["sol"], 1e-7, "times-change-solution", tag + ": final state with against without intermediate outputs", scale=1 + abs(np.array(a["sol"])).max())
    rec.close(np.array(b["phi"])[-1], a["phi"], 1e-7, "times-change-solution", tag + ": final flux with against without intermediate outputs", scale=sc)
    d = api.solve(c, eval_times=True, eval_array=t1[1:3], **kw)
    rec.close(d["phi"], np.array(b["phi"])[1:3], 1e-7, "times-change-solution", tag + ": fluxes at common times for two lists of output times", scale=sc)
    # the state at an intermediate output time is the final state of a shorter run (problems whose mesh does not depend on the final time)
    o = api.solve(c, integrator=case["other"], **kw)
    rec.close(o["sol"], a["sol"], 2e-5, "integrators", tag + ": %s against DOP853" % case["other"], scale=1 + abs(np.array(a["sol"])).max())
    rec.bucket("real", c["geometry"], c["kind"], c["moving"], case["other"])
