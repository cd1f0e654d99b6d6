"""C27 convergence tables: what the plotting tools load, fit and draw is what the runs stored."""
import numpy as np, math, os, shutil
import h5py

RULE = ("one case = a random set of error tables stored by the package for every source, treatment and kind, then loaded, fitted and drawn by its plotting tools on real (off-screen) figures; "
        "loaded rows, fitted constants and every drawn curve are compared with what was stored; distinct = distinct (tool, problem, treatment, time) observed")
ASSUMPTIONS = ["the package stores tables in local_run_data and its plotting tools read them one folder up; the check copies them, as their user has to", "a curve may leave out leading or trailing points (the published figures do)",
               "tables are kept in single precision, as the package creates them", "label positions, limits and colours are not judged beyond telling the four treatments apart"]
BUDGET = {"quick": 150, "thorough": 1200}
TRANSPORT = ["plane_IC", "square_IC", "square_s", "gaussian_IC", "MMS", "gaussian_s"]
# plotter name -> (problem type of the run, stored name, number of directions or None)
P1 = {"su_olson_s2": ("square_s", 2, False), "su_olson_energy_s2": ("square_s", 2, True), "gaussian_s2": ("gaussian_s", 2, False), "gaussian_energy_s2": ("gaussian_s", 2, True),
      "gaussian_s_thick_s2": ("gaussian_s_thick", 2, False), "gaussian_s_thick_s2_energy": ("gaussian_s_thick", 2, True), "gaussian_s_thick_s8": ("gaussian_s_thick", 8, False),
      "gaussian_s_thick_s8_energy": ("gaussian_s_thick", 8, True), "su_olson_thick_s2": ("su_olson_thick", 2, False), "su_olson_thick_s2_energy": ("su_olson_thick", 2, True),
      "su_olson_thick_s8": ("su_olson_thick", 8, False), "su_olson_thick_s8_energy": ("su_olson_thick", 8, True)}
FULL = {"su_olson": ("square_s", None, False), "su_olson_energy": ("square_s", None, True)}
TREAT = [(True, True), (True, False), (False, True), (False, False)]
BENCH = {"plane_IC": 0, "square_IC": 1, "square_source": 2, "gaussian_IC": 3, "gaussian_source": 5, "square_source_s2": (8, 9), "gaussian_source_s2": (10, 11)}


def cases(rng, tier):
    out = []
    k = 1 if tier == "quick" else 8
    for _ in range(k):
        for src in TRANSPORT + list(P1) + list(FULL):
            for major in ("cells", "Ms"):
                for tf in ([1, 10] if tier == "quick" else [1, 5, 10]) + ([1.25, 0.8333333333333334] if src in ("square_IC", "gaussian_IC") else [100, 31.6228] if src in P1 else []):
                    out.append(dict(rel="table", src=src, major=major, tf=tf, M=rng.choice([2, 3, 4, 6]), n=rng.choice([5, 6, 7]), seed=rng.randrange(10 ** 6)))
        for M in (2, 4, 6): out.append(dict(rel="table", src="MMS", major="cells", tf=1, M=M, n=6, seed=rng.randrange(10 ** 6)))
        for tool in ("plot_all_rms_cells", "plot_all_rms_Ms", "plot_all_rms_times", "plot_rms_cells", "plot_rms_Ms", "plot_rms_Ms_times", "plot_best", "plot_best_static", "compare_rms", "plot_square_s_times"):
            out.append(dict(rel="tool", tool=tool, tf=1, M=6, seed=rng.randrange(10 ** 6), src=rng.choice(["square_IC", "gaussian_IC", "gaussian_s", "MMS", "su_olson_thick_s2", "gaussian_s2"])))
        for src in BENCH:
            for tf in (1, 5, 10): out.append(dict(rel="bench", src=src, tf=tf, seed=rng.randrange(10 ** 6)))
        for _ in range(4): out.append(dict(rel="coeff", M=rng.randrange(0, 7), A=rng.choice([2, 4, 8]), N=rng.choice([2, 4, 8]), mat=rng.choice(["rad", "mat"]), seed=rng.randrange(10 ** 6)))
    return out


def rms_files():
    folder = "moving_mesh_transport/local_run_data"
    for nm in ("run_data_transport_RMS.h5", "run_data_su_olson_RMS.h5"):
        h5py.File(os.path.join(folder, nm), "w").close()
    for d in ("plots/RMS_plots", "plots/benchmark_plots", "plots"): os.makedirs("moving_mesh_transport/" + d, exist_ok=True)


def publish():
    for nm in ("run_data_transport_RMS.h5", "run_data_su_olson_RMS.h5"): shutil.copy("moving_mesh_transport/local_run_data/" + nm, "moving_mesh_transport/" + nm)


def store(env, src, tf, major, unc, mov, M, r, n=6, model=None):
    """one error table, as the driver would store it; returns its rows"""
    so = env.api.mod("loading_and_saving.save_output")
    name, ang, _ = P1.get(src) or FULL.get(src) or (src, None, False)
    i = 5 if name.startswith("gaussian_s") else 2 if name in ("square_s", "su_olson_thick") else TRANSPORT.index(name)
    st = np.zeros(8, dtype=np.int64); st[i] = 1
    sg = 300.0 if name == "gaussian_s_thick" else 0.5; x0 = 400.0 if name == "su_olson_thick" else 0.5
    Ns = [int(v) for v in 2 * np.cumsum(r.integers(1, 5, n))] if major == "cells" else [int(r.integers(2, 33))] * n
    Ms = [M] * n if major == "cells" else [int(v) for v in np.cumsum(r.integers(1, 3, n))]
    rms, en, tm = np.exp(-np.cumsum(r.uniform(0.3, 2, n))), np.exp(-np.cumsum(r.uniform(0.3, 2, n))), np.cumsum(r.uniform(0.1, 2, n))
    ang_row = [int(v) for v in r.integers(1, 200, n) * 2]
    prob = "transport" if src in TRANSPORT else {"su_olson_thick": "su_olson_thick_s2", "gaussian_s_thick": "su_olson_thick_s2"}.get(name, "su_olson_s2") if ang else "su_olson"
    s = so.save_output(tf, Ns, Ms, st, mov, unc, major, {"none": 1 if prob == "transport" else 0}, np.zeros(4), 1.0, sg, np.array([x0]), 0.0, prob, [ang or 4], 1.0)
    if ang: s.save_RMS_P1_su_olson(rms, en, ang_row, tm, ang)
    else: s.save_RMS(rms, en, ang_row, tm)
    row = dict(x=np.array(Ns if major == "cells" else Ms, float), cells=np.array(Ns, float), rms=rms, energy=en, angles=np.array(ang_row, float), times=tm)
    if model is not None: model[(src, tf, major, unc, mov, M if major == "cells" else None)] = row
    return row


def curves(plt, fign):
    """data curves on a figure: (x, y, line style, colour), reference triangles and trend lines left out"""
    out = []
    for ax in plt.figure(fign).axes:
        for ln in ax.get_lines():
            if ln.get_marker() in (None, "None", "", " "): continue
            out.append((np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float), ln.get_linestyle(), ln.get_color()))
    return out


def part(x, y, X, Y, least=2):
    """is (x, y) a contiguous part of (X, Y)?"""
    if x.size < least or x.size > X.size or x.shape != y.shape: return False
    for k in range(X.size - x.size + 1):
        if np.allclose(x, X[k:k + x.size], rtol=3e-7, atol=0) and np.allclose(y, Y[k:k + x.size], rtol=3e-7, atol=0): return True
    return False


def patched(env):
    """plotting modules with file output switched off"""
    import matplotlib; matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    mp = env.api.mod("plots.make_plots"); ps = env.api.mod("plots.plotting_script")
    plt.close("all"); plt.ioff()
    saved = []
    plt.savefig = lambda *a, **k: saved.append(a[0] if a else None)
    plt.show = lambda *a, **k: None
    return plt, mp, ps, saved


def run_case(env, case, rec):
    r = np.random.default_rng(case["seed"])
    {"table": table, "tool": tool, "bench": bench, "coeff": coeff}[case["rel"]](env, case, rec, r)


def fit(x, y, log):
    """least-squares line through the points after the first"""
    A = np.vander(np.log(x[1:]) if log else x[1:], 2); s, i = np.linalg.lstsq(A, np.log(y[1:]), rcond=None)[0]
    return s, i


def table(env, case, rec, r):
    plt, mp, ps, saved = patched(env)
    rms_files()
    src, major, tf, M = case["src"], case["major"], case["tf"], case["M"]
    info = P1.get(src) or FULL.get(src)
    if info and info[1] is None and tf not in (1, 5, 10): return
    model = {}
    order = [TREAT[i] for i in r.permutation(4)]
    others = [s for s in (list(P1) if info and info[1] else TRANSPORT) if s != src and (P1.get(s) or (s,))[:2] != (P1.get(src) or (src,))[:2]]
    for unc, mov in order:
        if r.random() < .3: store(env, src, tf, major, unc, mov, M, r, 5)                         # replaced by the next run
        store(env, src, tf, major, unc, mov, M, r, case["n"], model)
        store(env, others[int(r.integers(len(others)))], tf, major, unc, mov, M, r)               # a neighbour
        if not (info and info[1] is None): store(env, src, {1: 10, 10: 1, 5: 1}.get(tf, 1), major, unc, mov, M, r)      # another time
        store(env, src, tf, "Ms" if major == "cells" else "cells", unc, mov, M, r)
        if major == "cells": store(env, src, tf, major, unc, mov, M + 1, r)
    publish()
    seen = {}; nd = 0
    for unc, mov in TREAT:
        m = model[(src, tf, major, unc, mov, M if major == "cells" else None)]
        p = mp.rms_plotter(tf, M, src, major); p.load_RMS_data(unc, mov)
        tag = "%s %s t=%s M=%d uncollided=%s moving=%s" % (src, major, tf, M, unc, mov)
        rec.close(p.cells, m["cells"], 3e-7, "rows", tag + ": cells"); rec.close(p.RMS, m["rms"], 3e-7, "rows", tag + ": RMS errors", scale=1.0)
        rec.close(p.angles, m["angles"], 3e-7, "rows", tag + ": directions"); rec.close(p.times, m["times"], 3e-7, "rows", tag + ": run times")
        if major == "Ms": rec.close(p.Ms, m["x"], 3e-7, "rows", tag + ": polynomial orders")
        if info: rec.close(p.energy_RMS, m["energy"], 3e-7, "rows", tag + ": energy RMS errors", scale=1.0)
        en = bool(info and info[2])
        if major == "cells":
            s, i = fit(m["x"], m["rms"], True)
            rec.close(math.log(float(p.find_c())), i, 1e-4, "intercept", tag + ": log of the fitted constant")
        else:
            s, i = fit(m["x"], m["rms"], False)
            rec.close(float(p.find_c_semilog()), s, 1e-5, "slope", tag + ": fitted decay rate")
        # drawn curves
        if src == "MMS" and (unc, mov) != (False, True): rec.bucket("rows", src, major); continue          # the only case of that problem
        if major == "cells" and tf != 5 and tf != 31.6228:
            p.plot_RMS_vs_cells(11)
        elif major == "Ms":
            p.plot_RMS_vs_Ms(src, 11)
        else: continue
        cs = curves(plt, 11)
        nd += 1
        rec.ok(len(cs) == nd, "drawn", "%s: %d curves after %d treatments" % (tag, len(cs), nd))
        if len(cs) == nd:
            x, y, ls, col = cs[-1]
            rec.ok(part(x, y, m["x"], m["energy"] if en else m["rms"]), "drawn", lambda: "%s: drawn %s %s, stored %s %s" % (tag, x, y, m["x"], m["energy"] if en else m["rms"]))
            rec.ok((ls, col) not in seen, "told-apart", "%s is drawn like %s" % (tag, seen.get((ls, col)))); seen[ls, col] = tag
        q = mp.rms_plotter(tf, M, src, major); q.load_RMS_data(unc, mov); q.plot_RMS_vs_times(12)
        x, y, ls, col = curves(plt, 12)[-1]
        rec.ok(part(x, y, m["times"], m["rms"]), "drawn-times", lambda: "%s: error against run time: drawn %s %s" % (tag, x, y))
        rec.bucket("table", src, major, tf, unc, mov); rec.bucket("fit", major, M)
    plt.close("all")


def tool(env, case, rec, r):
    plt, mp, ps, saved = patched(env)
    rms_files()
    t, tf, M, src = case["tool"], case["tf"], case["M"], case["src"]
    model = {}
    for major in ("cells", "Ms"):
        for s in TRANSPORT + list(P1):
            if (P1.get(s) or (0, 0, False))[2]: continue
            for unc, mov in TREAT:
                for m in ((2, 4, 6) if s == "MMS" and major == "cells" else (M,)): store(env, s, tf, major, unc, mov, m, r, 7, model)
    for s in P1:           # energy names read the same tables
        if P1[s][2]:
            o = [k for k in P1 if P1[k][:2] == P1[s][:2] and not P1[k][2]][0]
            for k in list(model):
                if k[0] == o: model[(s,) + k[1:]] = model[k]
    publish()
    def get(s, unc, mov, major="cells", m=M): return model[(s, tf, major, unc, mov, m if major == "cells" else None)]
    figs = {}      # figure -> expected list of (x, y)
    def add(fig, s, unc, mov, major="cells", m=M, kind="err"):
        w = get(s, unc, mov, major, m); y = w["energy"] if (P1.get(s) or (0, 0, False))[2] else w["rms"]
        figs.setdefault(fig, []).append((w["times"] if kind == "times" else w["x"], y if kind == "err" else w["rms"], "%s uncollided=%s moving=%s M=%s" % (s, unc, mov, m)))
    C = [(True, True), (True, False), (False, True), (False, False)]
    if t == "plot_all_rms_cells":
        ps.plot_all_rms_cells(tf, M)
        names = ["plane_IC", "square_IC", "square_s", "gaussian_IC", "gaussian_s", "su_olson_s2", "su_olson_energy_s2", "gaussian_s2", "gaussian_energy_s2", "gaussian_s_thick_s2", "gaussian_s_thick_s2", "su_olson_thick_s2", "su_olson_thick_s8"]
        for k, s in enumerate(names):
            for c in C:
                if s == "plane_IC" and c == (False, True): continue
                add(k + 1, s, *c)
        for m in (2, 4, 6): add(25, "MMS", False, True, m=m)
    elif t == "plot_all_rms_Ms":
        ps.plot_all_rms_Ms(tf)
        for k, s in ((3, "gaussian_IC"), (4, "gaussian_s")):
            for c in C: add(k, s, *c, major="Ms")
        add(5, "MMS", False, True, major="Ms")
    elif t == "plot_all_rms_times":
        ps.plot_all_rms_times(tf, M, "cells")
        for k, s in enumerate(["plane_IC", "square_IC", "square_s", "gaussian_IC", "gaussian_s"]):
            for c in C:
                if s == "plane_IC" and c == (False, True): continue
                add(k + 1, s, *c, kind="times")
        for m in (2, 4, 6): add(6, "MMS", False, True, m=m, kind="times")
    elif t == "plot_rms_cells":
        ps.plot_rms_cells(tf, src, M)
        for c in ([(False, True)] if src == "MMS" else [(True, False), (False, False)] if src == "su_olson_thick_s2" else C): add(1, src, *c)
    elif t == "plot_rms_Ms":
        ps.plot_rms_Ms(tf, src, 3)
        for c in ([(False, True)] if src == "MMS" else [(True, False), (False, False)] if src == "su_olson_thick_s2" else C): add(3, src, *c, major="Ms")
    elif t == "plot_rms_Ms_times":
        ps.plot_rms_Ms_times(tf, src, 1)
        if src == "MMS": add(1, "MMS", False, True, major="Ms")
        else:
            for c in C: add(1, src, *c, major="Ms", kind="times")
    elif t in ("plot_best", "plot_best_static"):
        getattr(ps, t)()
        for s in ("plane_IC", "square_IC", "square_s", "gaussian_IC", "gaussian_s"): add(1, s, True, t == "plot_best")
    elif t == "plot_square_s_times":
        env.api.mod("plots.plot_square_s_times").main()
        for c in C: add(10, "square_s", *c, kind="times")
    elif t == "compare_rms":
        import io, contextlib, re
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf): ps.compare_rms(tf, M)
        got = [float(v) for v in re.findall(r"(\S+) average percent difference", buf.getvalue())]
        want = []
        for s in ("plane_IC", "square_IC", "square_s", "gaussian_IC", "gaussian_s"):
            b = get(s, True, True)["rms"]
            for c in ((False, True), (True, False), (False, False)):
                want.append(0.0 if s == "plane_IC" and c == (False, True) else float(np.mean((get(s, *c)["rms"] - b) / b)))
        rec.close(np.array(got), np.array(want), 1e-5, "compare", "average differences between the treatments"); rec.bucket("tool", t)
        plt.close("all"); return
    for fig, want in figs.items():
        cs = curves(plt, fig)
        rec.ok(len(cs) == len(want), "tool-curves", "%s(t=%s, %s): figure %s has %d curves, expected %d (%s)" % (t, tf, src, fig, len(cs), len(want), "; ".join(w[2] for w in want)))
        if len(cs) == len(want):
            for (x, y, ls, col), (X, Y, nm) in zip(cs, want):
                rec.ok(part(x, y, X, Y), "tool-data", lambda: "%s: figure %s, %s: drawn %s %s, stored %s %s" % (t, fig, nm, x, y, X, Y))
                rec.bucket("tool", t, nm)
    plt.close("all")


def bench(env, case, rec, r):
    plt, mp, ps, saved = patched(env)
    from checks import c18
    ends, tabs = c18.setup(env)
    src, tf = case["src"], case["tf"]
    for d in ("plots/RMS_plots", "plots/benchmark_plots"): os.makedirs("moving_mesh_transport/" + d, exist_ok=True)
    p = mp.rms_plotter(tf, 3, src, "cells"); p.plot_bench(tf, src, 21)
    idx = BENCH[src] if isinstance(BENCH[src], tuple) else (BENCH[src],)
    lines = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l.get_linestyle()) for ax in plt.figure(21).axes for l in ax.get_lines()]
    funcs = {}
    for i in idx:
        f, u = c18.func(i, float(tf)); L = ends[i, float(tf)]
        funcs[i] = (f, u, L)
    done = set()
    for x, y, ls in lines:
        side = "right" if x[-1] > 0 else "left"; xx = np.abs(x)
        if src == "plane_IC": xx, y = xx[xx <= tf], y[xx <= tf]                # the pulse ends at its front
        hit = None
        for i, (f, u, L) in funcs.items():
            for nm, g in (("flux", f), ("uncollided", u)):
                inside = xx < L * (1 - 2e-3)
                if inside.sum() < 10 or hit: continue
                if np.allclose(y[inside], g(xx[inside]), rtol=0, atol=3e-6 * max(np.abs(g(xx[inside])).max(), 1e-300)) and np.all(y[xx > L] == 0): hit = (i, nm)
        rec.ok(hit is not None, "bench-curve", "benchmark plot of %s at t=%s: a curve is neither the flux nor the uncollided flux of that benchmark" % (src, tf))
        if hit: done.add(hit + (side,)); rec.bucket("bench", src, tf, *hit)
    for i in idx:
        for side in ("left", "right"): rec.ok((i, "flux", side) in done, "bench-missing", "benchmark plot of %s at t=%s: the flux of table %d is not drawn on the %s" % (src, tf, i, side))
    plt.close("all")


def coeff(env, case, rec, r):
    plt, mp, ps, saved = patched(env)
    M, A, N = case["M"], case["A"], case["N"]
    cc = env.api.mod("plots.plot_functions.coeff_con").coeff_con
    ws = r.uniform(0.1, 1, A); sol = r.normal(size=(A, N, M + 1)); k = int(r.integers(N))
    rec.close(cc(ws, sol, A, M, k), np.tensordot(ws, sol[:, k, :], 1) / ws.sum(), 1e-12, "coeff", "direction-averaged coefficients of cell %d" % k)
    e = r.normal(size=(N, M + 1))
    rec.close(cc(ws, e, A, M, k), e[k], 0.0, "coeff", "energy coefficients of cell %d" % k)
    # stored solution -> averaged coefficient magnitudes
    so = env.api.mod("loading_and_saving.save_output"); folder = "moving_mesh_transport/local_run_data/"
    h5py.File(folder + "run_data.hdf5", "w").close()
    st = np.zeros(8, dtype=np.int64); st[2] = 1
    full = {}
    for n in (N, 2 * N):
        sm = r.normal(size=(A + 1, n, M + 1)); full[n] = sm
        s = so.save_output(1.0, [n], [M], st, False, False, "cells", {"none": 0}, np.zeros(4), 1.0, 0.5, np.array([0.5]), 0.0, "su_olson", [A], 1.0)
        xs = np.linspace(0, 1, 5); s.save_solution(xs, xs, xs, sm, np.linspace(-1, 1, n + 1), 0.5, ws, n, False, np.zeros((A, 5)), 1.0, np.linspace(-1, 1, A))
    shutil.copy(folder + "run_data.hdf5", folder + "run_data_crc_dec15-3.hdf5")
    p = mp.rms_plotter(1.0, M, "square_s", "cells")
    p.plot_coefficients(1.0, M, "square_s", [N, 2 * N], "su_olson", "transfer", 0.5, 1.0, 0.0, False, False, case["mat"], False, "-")
    for c, n in enumerate((N, 2 * N)):
        a = full[n][-1] if case["mat"] == "mat" else np.tensordot(ws, full[n][:-1], 1) / ws.sum()
        rec.close(p.j_matrix[c], np.abs(a).mean(axis=0), 1e-12, "coeff-average", "mean magnitude of the %s coefficients, %d cells" % (case["mat"], n))
    if M >= 2:
        p.plot_coeff_boyd()
        cs = curves(plt, 1)
        for c, n in enumerate((N, 2 * N)):
            a = full[n][-1] if case["mat"] == "mat" else np.tensordot(ws, full[n][:-1], 1) / ws.sum()
            rec.ok(len(cs) == 2 and part(cs[c][0], cs[c][1], np.arange(M + 1.0), np.abs(a).mean(axis=0)), "coeff-drawn", "curve of %d cells is not the stored coefficients" % n)
    rec.bucket("coeff", M, A, case["mat"])
    plt.close("all")
