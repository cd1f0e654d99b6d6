"""C17 input scripts: every configured value reaches the solver unchanged, contradictory scripts are refused."""
import numpy as np, math, os, copy

RULE = ("one case = one randomly generated pair of scripts (every field random), loaded directly and through a yaml file; every attribute is compared with the configured value; "
        "contradictory variants of the same script must be refused; distinct = distinct (source, option, value class) observed")
ASSUMPTIONS = ["scripts have the fields of the shipped transport script", "N_spaces, Ms and N_angles are lists of integers; a width list has one entry per run"]
BUDGET = {"quick": 120, "thorough": 900}
SOURCES = ["plane_IC", "square_IC", "square_source", "gaussian_IC", "gaussian_source", "MMS", "boundary_source", "dipole", "self_sim_plane"]
ST = {"plane_IC": (0, 1), "square_IC": (1, 1), "square_source": (2, 1), "gaussian_IC": (3, 1), "MMS": (4, 1), "gaussian_source": (5, 1), "dipole": (0, 2), "self_sim_plane": (0, 3)}
SHIPPED = ["transport.yaml", "transport_s2.yml", "su_olson.yaml", "su_olson_s2.yaml", "su_olson_thick.yaml", "su_olson_thick_s2.yaml", "rad_transfer_const_cv.yaml", "rad_transfer_const_cv_s2.yaml",
           "rad_transfer_const_cv_thick.yaml", "rad_transfer_const_cv_thick_s2.yaml"]
SIG = ["constant", "linear", "siewert1", "siewert2", "gaussian", "fake_sedov"]


def cases(rng, tier):
    out = [{"seed": rng.randrange(10 ** 9), "source": s, "thick": k} for s in SOURCES for k in (0, 1)]
    for _ in range(200 if tier == "quick" else 1500):
        out.append({"seed": rng.randrange(10 ** 9), "source": rng.choice(SOURCES), "thick": rng.random() < .4})
    out.append({"shipped": 1})
    for f in SHIPPED: out.append({"file": f})
    return out


def scripts(r, source, thick):
    fl = lambda lo=0.01, hi=9.0: float(np.round(math.exp(r.uniform(math.log(lo), math.log(hi))), 6))
    n = int(r.integers(1, 5))
    bo = lambda: bool(r.integers(2))
    one = lambda keys: {k: bool(k == pick) for pick in [str(r.choice(keys))] for k in keys}
    P = {"all": dict(problem_name=str(r.choice(["transport", "su_olson", "rad_transfer_constant_cv"])), tfinal=fl(), c_scaling=bo(), epsilon_scaling=bo(), epsilon=fl(), sigma_t=fl(), sigma_s=fl(), t0=fl(),
                     N_spaces=[int(x) for x in r.integers(2, 64, n)], tnodes=int(r.integers(2, 99)), Ms=[int(x) for x in r.integers(0, 9, n)], N_runs=int(r.integers(1, 5)), rt=fl(1e-13, 1e-3), at=fl(1e-13, 1e-3),
                     mxstp=fl(), major=str(r.choice(["cells", "Ms"])), radiative_transfer=one(["none", "su_olson", "rad_transfer_constant_cv"]), temperature_dependence=[int(x) for x in r.integers(0, 2, 4)],
                     e_initial=fl(1e-12, 1.0), weights=str(r.choice(["gauss_lobatto", "gauss_legendre"])), save_solution=bo(), particle_v=str(r.choice(["one", "sqrt_3"])), edge_v=str(r.choice(["one", "sqrt_3"])),
                     cv_const=fl(), thick=bool(thick), integrator=str(r.choice(["DOP853", "RK45", "BDF"])), geometry=one(["slab", "sphere"]))}
    for s in SOURCES:                 # every section gets its own values: reading the wrong section shows
        st = [0] * 15
        if s in ST: st[ST[s][0]] = ST[s][1]
        P[s] = dict(x0=[fl() for _ in range(int(r.integers(1, 5)))], source_strength=fl(), source_type=st, N_angles=[int(2 * x) for x in r.integers(1, 99, n)],
                    move_type=[int(x) for x in r.permutation([1, 0, 0])], benchmarking=bo(), l=fl(), bench_type=str(r.choice(["full", "S2"])), sigma=fl())
    Mp = dict(find_edges_tol=fl(1, 1e9), sqrt_t_move_factor=fl(), save_wave_loc=bo(), estimate_wavespeed=bo(), find_wave_loc=bo(), choose_xs=bo(), pad=fl(), leader_pad=fl(), xs_list=[fl() for _ in range(4)],
              xs_quad=int(r.integers(2, 60)), eval_times=bo(), eval_array=[fl() for _ in range(3)], finite=bo(), domain_width=fl(), boundary_on=[int(x) for x in r.integers(0, 2, 2)], boundary_source_strength=fl(),
              boundary_source=bo(), boundary_source_loc=[10, 0], sigma_func=one(SIG), Msigma=int(r.integers(0, 9)), fake_sedov_v0=fl())
    return P, Mp


def judge(rec, S, source, P, Mp, how):
    A, q = P["all"], P[source]
    def eq(attr, want, tag="value"):
        got = getattr(S, attr, None)
        if isinstance(want, dict):
            same = got is not None and {k: int(got[k]) for k in got} == {k: int(v) for k, v in want.items()}
        elif isinstance(want, (list, tuple)):
            same = got is not None and np.shape(got) == np.shape(want) and np.array_equal(np.asarray(got), np.asarray(want))
        elif isinstance(want, str):
            same = isinstance(got, str) and got == want
        else:
            same = got is not None and np.ndim(got) == 0 and not isinstance(got, str) and abs(float(got) - float(want)) <= 1e-14 * abs(float(want))
        rec.ok(same, tag, "%s %s: %s is %r, configured %r" % (how, source, attr, got, want))
        rec.bucket(source, attr, str(want)[:12] if isinstance(want, (bool, str)) or attr == "l" and not A["thick"] else "")
    for attr, k in (("tfinal", "tfinal"), ("N_spaces", "N_spaces"), ("Ms", "Ms"), ("N_runs", "N_runs"), ("t_nodes", "tnodes"), ("c_scaling", "c_scaling"), ("rt", "rt"), ("at", "at"), ("t0", "t0"), ("major", "major"),
                    ("thermal_couple", "radiative_transfer"), ("temp_function", "temperature_dependence"), ("e_initial", "e_initial"), ("weights", "weights"), ("cv0", "cv_const"), ("problem_type", "problem_name"),
                    ("sigma_t", "sigma_t"), ("sigma_s", "sigma_s"), ("integrator", "integrator"), ("epsilon", "epsilon"), ("geometry", "geometry"), ("thick", "thick"), ("mxstp", "mxstp"), ("saving", "save_solution"),
                    ("test_dimensional_rhs", "epsilon_scaling")):
        eq(attr, A[k])
    v = {"one": 1.0, "sqrt_3": 1 / math.sqrt(3)}
    eq("edge_v", v[A["edge_v"]]); eq("particle_v", v[A["particle_v"]])
    eq("scattering_ratio", A["sigma_s"] / A["sigma_t"])
    eq("l", q["l"] if A["thick"] else 1.0)
    for attr in ("N_angles", "source_type", "source_strength", "x0", "move_type", "benchmarking"): eq(attr, q[attr])
    gauss = source in ("gaussian_IC", "gaussian_source")
    eq("sigma", q["sigma"] if gauss else 0.0)
    eq("x0_or_sigma", q["sigma"] if gauss else q["x0"])
    eq("bench_type", q["bench_type"] if source in ("square_source", "gaussian_source") else "full")
    for attr, k in (("find_edges_tol",) * 2, ("move_factor", "sqrt_t_move_factor"), ("save_wave_loc",) * 2, ("find_wave_loc",) * 2, ("estimate_wavespeed",) * 2, ("choose_xs",) * 2, ("specified_xs", "xs_list"), ("pad",) * 2,
                    ("leader_pad",) * 2, ("xs_quad",) * 2, ("eval_times",) * 2, ("eval_array",) * 2, ("boundary_on",) * 2, ("boundary_source",) * 2, ("boundary_source_strength",) * 2, ("sigma_func",) * 2, ("Msigma",) * 2,
                    ("finite_domain", "finite"), ("fake_sedov_v0",) * 2):
        eq(attr, Mp[k])
    eq("domain_width", Mp["domain_width"] if Mp["finite"] else -1.0)


def run_case(env, case, rec):
    lp = env.api.mod("loading_and_saving.load_parameters"); rf = env.api.mod("solver_functions.run_functions")
    if case.get("shipped"):
        R = rf.run(); R.load(); P, Mp = R.parameters, R.mesh_parameters
        for s in SOURCES:
            if s not in P: continue
            for k, vv in P["all"]["geometry"].items(): rec.bucket("shipped", k, vv)
            rec.ok(sum(bool(x) for x in P["all"]["geometry"].values()) == 1, "shipped", "geometry of the shipped script")
            rec.ok(sum(bool(x) for x in Mp["sigma_func"].values()) == 1, "shipped", "opacity of the shipped script")
        want = set(SIG)
        rec.ok(want == set(Mp["sigma_func"]), "shipped", "opacities selectable in the shipped script: %s; the solver reads %s" % (sorted(Mp["sigma_func"]), sorted(want)))
        return
    if case.get("file"):
        import yaml
        path = "moving_mesh_transport/input_scripts/" + case["file"]
        if not os.path.exists(path): rec.ok(False, "shipped-missing", path); return
        for s in [x for x in SOURCES if x in yaml.safe_load(open(path))]:
            P = yaml.safe_load(open(path)); Mp = yaml.safe_load(open("moving_mesh_transport/input_scripts/mesh_parameters.yaml"))
            n = len(P[s]["N_angles"])
            P["all"]["N_spaces"], P["all"]["Ms"] = [4] * n, [2] * n          # the user's choice of runs
            try: S = lp.parameter_load_class(s, P, Mp)
            except Exception as e:
                rec.ok(False, "shipped-%s-%s" % (case["file"].split(".")[0], type(e).__name__), "%s of the shipped %s cannot be loaded: %s %s" % (s, case["file"], type(e).__name__, e)); continue
            rec.bucket("shipped", case["file"], s)
            rec.ok(S.source_strength == P[s]["source_strength"] and S.sigma_t == P["all"]["sigma_t"], "shipped", "%s of %s" % (s, case["file"]))
        return
    r = np.random.default_rng(case["seed"])
    source = case["source"]
    P, Mp = scripts(r, source, case["thick"])
    P0, M0 = copy.deepcopy(P), copy.deepcopy(Mp)
    judge(rec, lp.parameter_load_class(source, P, Mp), source, P, Mp, "direct")
    rec.ok(P == P0 and Mp == M0, "input-changed", "%s: the script given to the loader was modified" % source)
    # through files
    import yaml
    name = "prob%d" % (case["seed"] % 7)
    yaml.safe_dump(P, open("moving_mesh_transport/input_scripts/%s.yaml" % name, "w"))
    keep = open("moving_mesh_transport/input_scripts/mesh_parameters.yaml").read()
    yaml.safe_dump(Mp, open("moving_mesh_transport/input_scripts/mesh_parameters.yaml", "w"))
    try:
        R = rf.run(); R.load(name)
    finally:
        open("moving_mesh_transport/input_scripts/mesh_parameters.yaml", "w").write(keep)
    rec.ok(R.parameters == P and R.mesh_parameters == Mp, "file", "scripts read from the files differ from the scripts written")
    judge(rec, env.api.mod("solver").main_class(source, R.parameters, R.mesh_parameters), source, P, Mp, "file")
    # contradictions
    def refused(P2, M2, why):
        try: lp.parameter_load_class(source, P2, M2)
        except (AssertionError, ValueError): rec.ok(True, "refuse"); rec.bucket("refused", why)
        else: rec.ok(False, "refuse", "%s: a script with %s was accepted" % (source, why))
    for k in ("geometry", "radiative_transfer"):
        Q = copy.deepcopy(P); Q["all"][k] = {a: True for a in Q["all"][k]}
        refused(Q, Mp, "several choices of " + k)
    Q = copy.deepcopy(Mp); a, b = [SIG[i] for i in r.permutation(6)[:2]]
    for k in SIG: Q["sigma_func"][k] = k in (a, b)
    refused(P, Q, "two opacities")
    for k, where in (("N_spaces", "all"), ("Ms", "all"), ("N_angles", source)):
        for d in (1, -1):
            Q = copy.deepcopy(P)
            Q[where][k] = Q[where][k] + [4] if d == 1 else Q[where][k][:-1]
            if Q[where][k]: refused(Q, Mp, "%s %s" % (k, "longer" if d == 1 else "shorter"))
