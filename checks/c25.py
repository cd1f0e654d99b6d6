"""C25 the driver runs the solver once per configured run with the configured values, and reports, saves and compares exactly what the solver returned."""
import numpy as np, math, os, inspect, contextlib, copy, h5py
import core
import oracle as O
from checks import c17

RULE = ("one case = one randomly generated script run through run.* or main_class.main with the solver replaced by a monitor that records its arguments and returns synthetic results (or, in some "
        "cases, with the real solver); every argument of every call, the reported results, the saved file, the errors against synthesised benchmark tables and the wave table are judged; "
        "distinct = distinct (source, mode, option, relation) observed")
ASSUMPTIONS = ["benchmarking is used with a single output time", "the key of a saved run does not contain the polynomial order: of several runs that share a key the last one stays",
               "boundary-source runs are followed by the post-processing the package supports for their opacity (one width; output times only for the moving shock)"]
BUDGET = {"quick": 240, "thorough": 1500}
CASE_LIMIT = 120
MIN_BUCKETS = 20
NAME = {"plane_IC": "plane_IC", "square_IC": "square_IC", "square_source": "square_s", "gaussian_IC": "gaussian_IC", "MMS": "MMS", "gaussian_source": "gaussian_s", "boundary_source": "boundary_source",
        "dipole": "dipole", "self_sim_plane": "self_sim_plane"}
FOLDER = {"transport": "transport", "su_olson": "su_olson", "rad_transfer_constant_cv": "rad_transfer_const_cv"}
FIELDS = ["xs", "phi", "psi", "exit_dist", "exit_phi", "e", "time", "sol", "angles", "ws", "edges", "wavespeed", "tpnts", "left", "right", "wave_t", "wave_x", "T_front", "mus"]


def cases(rng, tier):
    out = []
    n = 2 if tier == "quick" else 14
    for _ in range(n):
        for s in c17.SOURCES:
            for mode in ("plain", "times", "save", "save-times"):
                out.append({"mode": mode, "source": s, "thick": 0, "seed": rng.randrange(10 ** 9)})
            out.append({"mode": "all", "source": s, "thick": 0, "seed": rng.randrange(10 ** 9)})
        for s in ("plane_IC", "square_IC", "square_source", "gaussian_IC", "gaussian_source", "MMS"):
            for cs in (0, 1): out.append({"mode": "bench", "source": s, "thick": 0, "cs": cs, "seed": rng.randrange(10 ** 9)})
        for s, v in (("square_source", 0.5), ("square_source", 400.0), ("gaussian_source", 0.5), ("gaussian_source", 300.0)): out.append({"mode": "bench-s2", "source": s, "thick": 0, "val": v, "seed": rng.randrange(10 ** 9)})
        for s in ("square_source", "gaussian_source", "square_IC"):
            for tf in (1.0, 31.6228): out.append({"mode": "bench-su", "source": s, "thick": 0, "tf": tf, "seed": rng.randrange(10 ** 9)})
        for tf in (1.0, 5.0, 2.0): out.append({"mode": "olson", "source": "square_source", "thick": 0, "tf": tf, "seed": rng.randrange(10 ** 9)})
        for s in ("square_source", "gaussian_source"):
            for k in (0, 1): out.append({"mode": "wave", "source": s, "thick": 1, "k": k, "seed": rng.randrange(10 ** 9)})
        for s in ("square_IC", "gaussian_IC", "plane_IC"): out.append({"mode": "find", "source": s, "thick": 0, "seed": rng.randrange(10 ** 9)})
        for op in c17.SIG[2:]: out.append({"mode": "plain", "source": "boundary_source", "thick": 0, "op": op, "seed": rng.randrange(10 ** 9)})
        for s in ("square_IC", "gaussian_IC", "square_source", "gaussian_source"):
            for ev in (False, True): out.append({"mode": "real", "source": s, "thick": 0, "ev": ev, "seed": rng.randrange(10 ** 9)})
    return out


class FakeSolve:
    def __init__(self, real, seed):
        self.sig = inspect.signature(real); self.calls = []; self.results = []; self.r = np.random.default_rng(seed)
    def __call__(self, *a, **k):
        b = self.sig.bind(*a, **k); b.apply_defaults(); q = {n: (np.array(v) if isinstance(v, np.ndarray) else dict(v) if hasattr(v, "keys") else v) for n, v in b.arguments.items()}
        self.calls.append(q)
        r = self.r; A, N, M = int(q["N_ang"]), int(q["N_space"]), int(q["M"]); nx = getattr(self, "half", None) or int(r.integers(5, 14)); ev = q["eval_times"] == True
        lead = (np.asarray(q["eval_array"]).size,) if ev else ()
        xs = np.sort(r.uniform(-1, 1, nx)) * 2
        xs = np.concatenate([-np.abs(xs[::-1]), np.abs(xs)]); xs.sort()
        xs = xs * np.ones(lead + (1,)) if lead else xs
        nx = xs.shape[-1]
        m = np.sort(r.uniform(-1, 1, A)); nt = int(r.integers(2, 6))
        edges = np.sort(r.uniform(-3, 3, N + 1))
        R = dict(xs=xs, phi=r.uniform(0, 1, lead + (nx,)), psi=r.uniform(0, 1, lead + (A, nx)), exit_dist=r.uniform(0, 1, lead + (A, 2)), exit_phi=r.uniform(0, 1, lead + (2,)), e=r.uniform(0, 1, lead + (nx,)),
                 time=float(r.uniform(0.1, 9)), sol=r.normal(size=(A, N, M + 1)), angles=m, ws=r.uniform(0, 1, A), edges=edges, wavespeed=np.zeros((1, 1, 1)), tpnts=np.sort(r.uniform(0, 1, nt)),
                 left=r.normal(size=nt), right=r.normal(size=nt), wave_t=np.zeros(1), wave_x=np.zeros(1), T_front=r.normal(size=nt), mus=m)
        self.results.append({k2: (v.copy() if isinstance(v, np.ndarray) else v) for k2, v in R.items()})
        return tuple(R[f] for f in FIELDS)


@contextlib.contextmanager
def patched(api, seed, use=True):
    mf = api.mod("solver_functions.main_functions"); real = mf.solve
    if not use: yield None; return
    import sys
    fake = FakeSolve(real, seed)
    names = [(m, k) for nm, m in list(sys.modules.items()) if nm.startswith("moving_mesh_transport") and m is not None for k, v in list(vars(m).items()) if v is real]
    for m, k in names: setattr(m, k, fake)
    try: yield fake
    finally:
        for m, k in names: setattr(m, k, real)


def make_scripts(case):
    r = np.random.default_rng(case["seed"]); s = case["source"]; mode = case["mode"]
    while True:
        P, Mp = c17.scripts(r, s, case["thick"])
        A, q = P["all"], P[s]
        if A["major"] == "Ms" and len(A["N_spaces"]) < 2: continue
        break
    n = len(A["N_spaces"])
    A["N_runs"] = int(r.integers(1, 4)); A["N_spaces"] = [int(x) for x in r.choice(range(2, 40), n, replace=False)]; A["Ms"] = [int(x) for x in r.integers(0, 6, n)]
    q["N_angles"] = [int(2 * x) for x in r.integers(1, 8, n)]
    q["x0"] = q["x0"] + [float(x) for x in np.round(r.uniform(0.1, 3, n), 4)]
    A["radiative_transfer"] = {"none": True, "su_olson": False, "rad_transfer_constant_cv": False}
    q["benchmarking"] = False; q["bench_type"] = "full"; q["move_type"] = [1, 0, 0]
    if mode in ("plain", "times", "save") and r.random() < .5: q["move_type"] = [[0, 1, 0], [0, 0, 1]][int(r.integers(2))]
    Mp["find_wave_loc"] = False
    Mp["eval_times"] = mode in ("times", "save-times")
    Mp["eval_array"] = sorted(float(x) for x in np.round(r.uniform(0.05, 1, 3) * A["tfinal"], 5))
    A["save_solution"] = mode in ("save", "save-times", "find")
    A["epsilon"] = float(r.choice([1.0, 0.25]))
    if s == "boundary_source":
        q["x0"] = q["x0"][:1]
        op = "fake_sedov" if Mp["eval_times"] else case.get("op") or str(r.choice(["constant", "gaussian", "siewert1", "siewert2"]))
        if op == "fake_sedov": Mp["eval_times"] = True
        if op == "linear": op = "constant"
        Mp["sigma_func"] = {k: k == op for k in c17.SIG}
        A["N_spaces"], A["Ms"], q["N_angles"], A["major"] = [5], [2], [4], "cells"
    if mode == "bench":
        A["sigma_s"] = float(np.round(A["sigma_t"] * r.uniform(0.2, 1), 6))
        q["benchmarking"] = True; A["c_scaling"] = bool(case["cs"]); A["tfinal"] = float(r.choice([2.0, 5.0, 0.5, 1.25, 10.0])); A["problem_name"] = "transport"
    if mode == "bench-su":      # Su-Olson table at its own points
        q["benchmarking"] = True; A["c_scaling"] = False; A["tfinal"] = case["tf"]; q["bench_type"] = "full"; A["weights"] = "gauss_lobatto"; A["sigma_s"] = A["sigma_t"]
        A["radiative_transfer"] = {"none": False, "su_olson": True, "rad_transfer_constant_cv": False}; A["problem_name"] = "su_olson"; Mp["eval_times"] = False
        q["x0"] = [0.5] * len(q["x0"]) if s != "gaussian_source" else q["x0"]; q["sigma"] = 0.5
    if mode == "olson": q["x0"] = [2.5] * len(q["x0"]); A["tfinal"] = case["tf"]; Mp["eval_times"] = False
    if mode == "bench-s2":
        A["sigma_s"] = float(np.round(A["sigma_t"] * r.uniform(0.2, 1), 6))
        q["benchmarking"] = True; A["c_scaling"] = False; A["tfinal"] = float(r.choice([2.0, 5.0, 10.0])); q["bench_type"] = "S2"; A["weights"] = "gauss_legendre"
        A["radiative_transfer"] = {"none": False, "su_olson": True, "rad_transfer_constant_cv": False}; A["problem_name"] = "su_olson"
        if s == "square_source": q["x0"][0] = case["val"]
        else: q["sigma"] = case["val"]
    if mode == "wave":
        q["move_type"] = [0, 1, 0]; A["problem_name"] = ["su_olson_thick", "rad_transfer_constant_cv_thick"][case["k"]]
    if mode == "find": Mp["find_wave_loc"] = True; A["problem_name"] = "transport"
    if mode == "real": real_config(P, Mp, s, case["ev"], r)
    return P, Mp


def real_config(P, Mp, s, ev, r):
    A, q = P["all"], P[s]; T = float(np.round(r.uniform(0.3, 0.8), 4))
    A.update(tfinal=T, sigma_t=1.0, sigma_s=float(np.round(r.uniform(0.2, 1), 4)), t0=9.0, N_spaces=[4, 6], Ms=[1, 2], N_runs=1, rt=1e-6, at=1e-8, mxstp=T / 10, major="cells", tnodes=8, weights="gauss_legendre", particle_v="one",
             edge_v="one", thick=False, integrator="DOP853", geometry={"slab": True, "sphere": False}, save_solution=True, epsilon=1.0, epsilon_scaling=False, temperature_dependence=[0, 0, 0, 0], problem_name="transport",
             e_initial=1e-10, c_scaling=False)
    if "square" in s: A["N_spaces"] = [4, 8]
    q.update(x0=[2.0, 2.0] if "gauss" in s else [0.5], N_angles=[2, 4], move_type=[1, 0, 0], sigma=0.5, source_strength=float(np.round(r.uniform(0.5, 2), 3)))
    Mp.update(save_wave_loc=False, estimate_wavespeed=False, find_wave_loc=False, choose_xs=False, eval_times=ev, eval_array=[T / 3, T / 2, T], finite=False, boundary_on=[0, 0], boundary_source=False,
              sigma_func={k: k == "constant" for k in c17.SIG}, Msigma=0, fake_sedov_v0=0.0, sqrt_t_move_factor=1.0)


def expected(P, Mp, s, count, unc, mov, wave):
    A, q = P["all"], P[s]; v = {"one": 1.0, "sqrt_3": 1 / math.sqrt(3)}
    per_run = s in ("gaussian_IC", "MMS")
    return dict(tfinal=A["tfinal"], N_space=A["N_spaces"][count] if A["major"] == "cells" else A["N_spaces"][1], N_ang=q["N_angles"][count], M=A["Ms"][count], x0=q["x0"][count] if per_run else q["x0"][0], t0=A["t0"],
                sigma_t=A["sigma_t"], sigma_s=A["sigma_s"], t_nodes=A["tnodes"], source_type=q["source_type"], uncollided=unc, moving=mov, move_type=q["move_type"], thermal_couple=A["radiative_transfer"],
                temp_function=A["temperature_dependence"], rt=A["rt"], at=A["at"], e_initial=A["e_initial"], choose_xs=Mp["choose_xs"], specified_xs=Mp["xs_list"] if Mp["choose_xs"] else None, weights=A["weights"],
                sigma=q["sigma"] if "gauss" in s else 0.0, particle_v=v[A["particle_v"]], edge_v=v[A["edge_v"]], cv0=A["cv_const"], estimate_wavespeed=Mp["estimate_wavespeed"], find_wave_loc=Mp["find_wave_loc"],
                thick=A["thick"], mxstp=A["mxstp"], wave_loc_array=wave, find_edges_tol=Mp["find_edges_tol"], source_strength=q["source_strength"], move_factor=Mp["sqrt_t_move_factor"], integrator=A["integrator"],
                l=q["l"] if A["thick"] else 1.0, save_wave_loc=Mp["save_wave_loc"], pad=Mp["pad"], leader_pad=Mp["leader_pad"], xs_quad_order=Mp["xs_quad"], eval_times=Mp["eval_times"], eval_array=Mp["eval_array"],
                boundary_on=Mp["boundary_on"], boundary_source_strength=Mp["boundary_source_strength"], boundary_source=Mp["boundary_source"], sigma_func=Mp["sigma_func"], Msigma=Mp["Msigma"], finite_domain=Mp["finite"],
                domain_width=Mp["domain_width"] if Mp["finite"] else -1.0, fake_sedov_v0=Mp["fake_sedov_v0"], test_dimensional_rhs=A["epsilon_scaling"], epsilon=A["epsilon"], geometry=A["geometry"])


def same(got, want):
    if isinstance(want, dict): return {k: int(got[k]) for k in got} == {k: int(v) for k, v in want.items()}
    if isinstance(want, str): return got == want
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    return g.shape == w.shape and np.array_equal(g, w) or (g.shape == w.shape and np.allclose(g, w, rtol=1e-14, atol=0))


def bench_file(s, i, times, L, seed):
    """one table per listed name; cubic polynomials, which the loader's interpolation reproduces"""
    r = np.random.default_rng(seed); c = {}
    d = "moving_mesh_transport/benchmarks"
    with h5py.File(d + "/benchmarks.hdf5", "w") as f:
        for nm in i:
            for t in times:
                co = r.uniform(0.1, 1, 4) / np.array([1, L, L * L, L ** 3]); xs = L * np.linspace(0, 1, 61)
                f.create_dataset("%s/t = %s" % (nm, str(t)), data=np.array([xs, np.polyval(co[::-1], xs), xs * 0])); c[nm, t] = co
    return lambda nm, t, x: np.polyval(c[nm, t][::-1], x)


BENCHES = ("steady_state_gaussian_benchmark", "siewert_bench", "olson_henderson_bench", "moving_gaussian_shock_benchmark", "fake_sedov_benchmark")


def watch_benchmarks(R):
    """records which of the benchmark methods of the run object are used; None where they are no longer there"""
    if not all(hasattr(R, nm) for nm in BENCHES): return None
    got = []
    def wrap(nm, f):
        def g(*a, **k):
            got.append(nm); return f(*a, **k)
        return g
    for nm in BENCHES: setattr(R, nm, wrap(nm, getattr(R, nm)))
    return got


def run_case(env, case, rec):
    import matplotlib.pyplot as plt
    api = env.api; s, mode = case["source"], case["mode"]; P, Mp = make_scripts(case); A, q = P["all"], P[s]
    P0, M0 = copy.deepcopy(P), copy.deepcopy(Mp)
    r = np.random.default_rng(case["seed"] + 1)
    folder = "moving_mesh_transport/local_run_data"
    for nm in ("run_data.hdf5", "wavepoints_crc.hdf5", "wavepoints.h5"): h5py.File(os.path.join(folder, nm), "w").close()
    unc, mov = bool(r.integers(2)), bool(r.integers(2))
    if s in ("MMS",) and mode == "real": unc = False
    wave = np.zeros((1, 1, 1)); tag = "%s %s" % (s, mode)
    if mode == "wave":
        w = np.sort(r.uniform(0.01, 5, (4, 6)), axis=1); wave = w[None]
        name = "t = " + str(float(A["tfinal"])); grp = "su_olson_thick" if case["k"] == 0 else "transfer_const_cv=%s_thick" % float(A["cv_const"])
        with h5py.File(folder + "/wavepoints.h5", "w") as f:
            for k, nm in enumerate(("tpnts_", "left_", "right_", "T_wave_")): f.create_dataset("%s/%s%s%s" % (grp, nm, NAME[s], name), data=w[k])
    bench = None
    if mode in ("bench", "bench-s2", "bench-su"):
        tb = A["tfinal"] * (A["sigma_s"] / A["sigma_t"]) if A["c_scaling"] else A["tfinal"]
        L = 10 + 2 * (A["tfinal"] + max(q["x0"]) + 3) * max(1.0, A["sigma_s"] / A["sigma_t"])
        names = {"square_source": {0.5: ("P1_su_olson_rad", "P1_su_olson_mat"), 400.0: ("P1_su_olson_rad_thick", "P1_su_olson_mat_thick")}, "gaussian_source": {0.5: ("P1_gaussian_rad", "P1_gaussian_mat"), 300.0: ("P1_gaussian_rad_thick", "P1_gaussian_mat_thick")}}
        want = names[s][case["val"]] if mode == "bench-s2" else (s,)
        others = ["plane_IC", "square_IC", "square_source", "gaussian_IC", "MMS", "gaussian_source", "gaussian_IC_2D", "line_source"] + [x for y in names.values() for z in y.values() for x in z]
        bench = bench_file(s, list(dict.fromkeys(list(want) + others)), [tb], L, case["seed"])
    rf = api.mod("solver_functions.run_functions"); mc = api.mod("solver").main_class
    try:
        with patched(api, case["seed"] + 2, mode != "real") as fake:
            if mode == "bench-su":
                fake.half = int(r.integers(4, 9)); tab = r.uniform(0, 1, (2 * fake.half, 3))
                np.savetxt("moving_mesh_transport/benchmarks/su_olson_%s.txt" % ("1" if case["tf"] == 1.0 else "31"), tab)
            if mode == "all":
                R = rf.run(); R.parameters, R.mesh_parameters = P, Mp
                getattr(R, s)(All=True)
            elif mode in ("bench", "bench-s2", "bench-su", "wave", "find"):
                S = mc(s, P, Mp); S.main(unc, mov)
            else:
                R = rf.run(); R.parameters, R.mesh_parameters = P, Mp
                benches = watch_benchmarks(R)
                getattr(R, s)(unc, mov)
    finally:
        plt.close("all")
    rec.ok(P == P0 and Mp == M0, "script-changed", tag + ": the scripts were modified")
    if R_or_none(mode, locals()) is not None and mode != "all" and benches is not None:      # which benchmark the run is compared with
        op = [k for k, v in Mp["sigma_func"].items() if v]
        want = {"gaussian": ["steady_state_gaussian_benchmark"], "siewert1": ["siewert_bench"], "siewert2": ["siewert_bench"], "fake_sedov": ["fake_sedov_benchmark"]}.get(op[0], []) if s == "boundary_source" else \
            ["olson_henderson_bench"] if s == "square_source" and q["x0"][0] == 2.5 else []
        rec.ok(sorted(set(benches)) == want, "benchmark-chosen", "%s opacity %s x0=%s: compared with %s, the problem is that of %s" % (tag, op, q["x0"][0], sorted(set(benches)), want))
        rec.bucket("benchmark-chosen", s, *want)
    if mode == "real": return judge_real(env, case, P, Mp, s, unc, mov, R, rec)
    n = len(A["N_spaces"]); runs = [(u, m) for u, m in ((True, True), (False, True), (True, False), (False, False))] if mode == "all" else [(unc, mov)]
    if not fake.calls: raise core.Skip("the driver does not call main_functions.solve")
    rec.ok(len(fake.calls) == A["N_runs"] * n * len(runs), "number-of-runs", "%s: the solver was called %d times, configured %d x %d x %d" % (tag, len(fake.calls), len(runs), A["N_runs"], n))
    order = [(u, m, c) for u, m in runs for _ in range(A["N_runs"]) for c in range(n)]
    if mode == "all":      # any order of the four treatments
        seen = [(bool(k["uncollided"]), bool(k["moving"])) for k in fake.calls[:: A["N_runs"] * n]]
        rec.ok(sorted(seen) == sorted(runs), "all-treatments", "%s: treatments run: %s" % (tag, seen))
        order = [(u, m, c) for u, m in seen for _ in range(A["N_runs"]) for c in range(n)]
    for k, (u, m, c) in zip(fake.calls, order):
        ex = expected(P, Mp, s, c, u, m, wave)
        for nm, want in ex.items():
            if nm not in k: raise core.Skip("solve has no argument " + nm)
            if want is None: continue
            rec.ok(same(k[nm], want), "argument-" + nm, "%s run %d of %d: the solver got %s=%r, configured %r" % (tag, c + 1, n, nm, k[nm], want))
        rec.bucket("call", s, mode, A["major"], n)
    if mode == "all": return
    last = fake.results[-1]
    holder = S if mode in ("bench", "bench-s2", "bench-su", "wave", "find") else R
    for nm in ("xs", "phi", "e", "psi", "exit_dist", "ws", "exit_phi"):
        rec.ok(np.array_equal(getattr(holder, nm), last[nm]), "result-" + nm, "%s: reported %s is not what the solver returned for the last run" % (tag, nm))
    rec.ok(np.array_equal(getattr(holder, "angles" if holder is not R_or_none(mode, locals()) else "mus"), last["mus"]), "result-angles", tag)
    rec.bucket("results", s, mode)
    if holder is R_or_none(mode, locals()):
        for nm, want in (("tfinal", A["tfinal"]), ("v0", Mp["fake_sedov_v0"]), ("t0_source", A["t0"]), ("eval_array", Mp["eval_array"]), ("x0", q["x0"])):
            rec.ok(same(getattr(R, nm), want), "result-" + nm, "%s: reported %s is %r, configured %r" % (tag, nm, getattr(R, nm), want))
    else:
        times = np.array([x["time"] for x in fake.results]).reshape(A["N_runs"], n)
        rec.close(S.r_times, times.mean(axis=0), 1e-12, "times", tag + ": computing time per run (mean over the repetitions)")
    if bench is not None:
        for c in range(n):
            x = fake.results[-n + c]; ax = np.abs(x["xs"]); ratio = A["sigma_s"] / A["sigma_t"]
            if mode == "bench":
                b = bench(s, tb, ax * ratio) * ratio * math.exp(-(1 - ratio) * A["tfinal"]) if A["c_scaling"] else bench(s, tb, ax)
            elif mode == "bench-su":
                b = tab[:, 1]; rec.close(S.RMS_list_energy[c], math.sqrt(np.mean((x["e"] - tab[:, 2]) ** 2)), 1e-9, "energy-error", "%s run %d: error of the energy against the Su-Olson table" % (tag, c + 1))
            else:
                b = bench(want_names(case)[0], tb, ax); be = bench(want_names(case)[1], tb, ax)
                rec.close(S.RMS_list_energy[c], math.sqrt(np.mean((x["e"] - be) ** 2)), 1e-7, "energy-error", "%s run %d: error of the energy" % (tag, c + 1))
            rec.close(S.RMS_list[c], math.sqrt(np.mean((x["phi"] - b) ** 2)), 1e-7, "error", "%s run %d scaled=%s: error against the benchmark" % (tag, c + 1, A["c_scaling"]))
            rec.bucket("bench", s, mode, A["c_scaling"], case.get("val"))
    f = h5py.File(folder + "/run_data.hdf5", "r"); groups = list(f.keys()); f.close()
    if not A["save_solution"]:
        rec.ok(groups == [], "saved-unasked", "%s: saving is off, but the file has %s" % (tag, groups)); return
    if A["problem_name"] not in FOLDER: return
    lo = api.mod("loading_and_saving.load_solution"); x0s = q["sigma"] if "gauss" in s else q["x0"][0]
    model = {}
    for k, x in zip(fake.calls, fake.results):
        for it, tt in enumerate(Mp["eval_array"] if Mp["eval_times"] else [A["tfinal"]]): model[(k["N_space"], tt)] = (x, it)
    for (N, tt), (x, it) in model.items():
        Ld = lo.load_sol(FOLDER[A["problem_name"]], NAME[s], "transport", A["sigma_s"] / A["sigma_t"], False, float(A["cv_const"]), "run_data.hdf5")
        try: Ld.call_sol(float(tt), 2, x0s, N, "transport", unc, mov, A["epsilon"])
        except KeyError as e:
            rec.ok(False, "saved-missing", "%s: no saved run for N_space=%d t=%g: %s" % (tag, N, tt, e)); continue
        sel = (it,) if Mp["eval_times"] else ()
        w = "%s N_space=%d t=%g: saved " % (tag, N, tt)
        for nm, want in (("xs", x["xs"][sel]), ("phi", x["phi"][sel]), ("e", x["e"][sel] if A["problem_name"] != "transport" else 0 * x["xs"][sel])): rec.close(getattr(Ld, nm), want, 2e-7, "saved-" + nm, w + nm)
        rec.close(Ld.psi, x["psi"][sel], 0, "saved-psi", w + "psi"); rec.close(Ld.ws, x["ws"], 0, "saved-ws", w + "ws"); rec.close(Ld.mus, x["mus"], 0, "saved-mus", w + "mus")
        if not Mp["eval_times"] or tt == Mp["eval_array"][-1]:
            rec.close(Ld.edges, x["edges"], 0, "saved-edges", w + "edges"); rec.close(Ld.coeff_mat, x["sol"], 0, "saved-coefficients", w + "coefficients")
        rec.bucket("saved", s, mode, A["problem_name"], unc, mov)
    if mode == "find":
        x = fake.results[-1]
        with h5py.File(folder + "/wavepoints_crc.hdf5", "r") as f:
            for nm, fld in (("tpnts_", "tpnts"), ("left_", "left"), ("right_", "right"), ("T_wave_", "T_front")):
                key = "transport/%s%st = %s" % (nm, NAME[s], str(float(A["tfinal"])))
                rec.ok(key in f and np.array_equal(f[key][:], x[fld]), "saved-wave", "%s: %s" % (tag, key))
        rec.bucket("wave-saved", s)


def want_names(case):
    k = ("P1_su_olson_%s", "P1_gaussian_%s")[case["source"] == "gaussian_source"] + ("_thick" if case["val"] > 100 else "")
    return k % "rad", k % "mat"


def R_or_none(mode, loc):
    return loc.get("R") if mode not in ("bench", "bench-s2", "bench-su", "wave", "find") else None


def judge_real(env, case, P, Mp, s, unc, mov, R, rec):
    """driver with the real solver: its results are those of a direct solve, and what is saved represents the saved flux"""
    api = env.api; A, q = P["all"], P[s]; kind = s; tag = "real %s uncollided=%s moving=%s" % (s, unc, mov)
    lo = api.mod("loading_and_saving.load_solution"); x0s = 0.5
    for c in range(2):
        cfg = api.cfg(kind=kind, geometry="slab", N_space=A["N_spaces"][c], N_ang=q["N_angles"][c], M=A["Ms"][c], tfinal=A["tfinal"], x0=q["x0"][c] if s == "gaussian_IC" else q["x0"][0], t0=A["t0"], sigma_t=1.0,
                      sigma_s=A["sigma_s"], uncollided=unc, moving=mov, t_nodes=8, strength=q["source_strength"], sigma=0.5 if "gauss" in s else 0.0, e_init=1e-10, cv0=A["cv_const"], pad=Mp["pad"], leader_pad=Mp["leader_pad"],
                      boundary_strength=Mp["boundary_source_strength"])
        kw = dict(eval_times=True, eval_array=np.array(Mp["eval_array"])) if case["ev"] else {}
        D = api.solve(cfg, rt=A["rt"], at=A["at"], mxstp=A["mxstp"], **kw)
        if c == 1:
            for nm in ("xs", "phi", "psi", "exit_dist", "exit_phi"): rec.close(getattr(R, nm), D[nm], 1e-10, "driver-" + nm, "%s: %s of the driver against a direct solve" % (tag, nm), scale=1 + abs(np.array(D[nm])).max())
        unco = api.mod("solver_classes.uncollided_solutions").uncollided_solution(api.build(cfg)); mus, ws = api.quadrature(cfg["N_ang"], "gauss_legendre")
        for it, tt in enumerate(Mp["eval_array"] if case["ev"] else [A["tfinal"]]):
            Ld = lo.load_sol("transport", NAME[s], "transport", A["sigma_s"], False, 0.0, "run_data.hdf5")
            Ld.call_sol(float(tt), A["Ms"][c], x0s, A["N_spaces"][c], "transport", unc, mov, 1.0)
            xs = np.array(D["xs"][it] if case["ev"] else D["xs"]); ph = np.array(D["phi"][it] if case["ev"] else D["phi"])
            rec.close(Ld.phi, ph, 1e-6, "saved-phi", "%s N=%d t=%g: saved flux against a direct solve" % (tag, A["N_spaces"][c], tt), scale=1 + abs(ph).max())
            e = np.array(Ld.edges); k = np.clip(np.searchsorted(e, xs) - 1, 0, e.size - 2); inside = (xs >= e[0]) & (xs <= e[-1])
            rep = np.array([ws @ O.recon("slab", np.array(Ld.coeff_mat)[:, k[i], :], xs[i:i + 1], e[k[i]], e[k[i] + 1])[:, 0] if inside[i] else 0.0 for i in range(xs.size)])
            if unc: rep = rep + np.array(unco.uncollided_solution(xs.copy(), float(tt)))
            lastt = not case["ev"] or it == len(Mp["eval_array"]) - 1
            rec.close(rep, ph, 1e-6, "saved-coefficients" if lastt else "eval-times-coefficients", "%s N=%d t=%g: the saved coefficients and edges do not represent the saved flux" % (tag, A["N_spaces"][c], tt), scale=1 + abs(ph).max())
            rec.bucket("real", s, unc, mov, "last" if lastt else "earlier")
