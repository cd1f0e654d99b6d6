"""C16 saved results: what is loaded back is what was last saved under that key, whatever else was saved in between."""
import numpy as np, os
import h5py

RULE = ("one case = a random history of saves (new keys, overwrites with different sizes, other problems, other options) and loads against a map model of the file; every loaded array is compared "
        "with the last one saved under its key; distinct = distinct (operation, problem, source, options, relation) observed")
ASSUMPTIONS = ["the solution dataset is kept in single precision, as the package creates it", "the key consists of problem, source, uncollided, moving, N_space, t, c, x0 or sigma and epsilon: runs that differ in nothing else share a key",
               "wave locations: the package saves to wavepoints_crc.hdf5 and loads from wavepoints.h5; the check copies the one to the other, as its user has to"]
BUDGET = {"quick": 120, "thorough": 1200}
PROBLEMS = [("transport", "transport"), ("su_olson", "su_olson"), ("su_olson_s2", "su_olson_s2"), ("su_olson_thick", "su_olson_thick"), ("su_olson_thick_s2", "su_olson_thick_s2"),
            ("rad_transfer_constant_cv", "rad_transfer_const_cv"), ("rad_transfer_constant_cv_thick", "rad_transfer_const_cv_thick"),
            ("rad_transfer_constant_cv_s2", "transfer_const_cv=%s_s2"), ("rad_transfer_constant_cv_thick_s2", "transfer_const_cv=%s_thick_s2")]
SOURCES = ["plane_IC", "square_IC", "square_s", "gaussian_IC", "MMS", "gaussian_s", "dipole", "self_sim_plane", "boundary_source"]


def cases(rng, tier):
    out = []
    for k in range(160 if tier == "quick" else 1200):
        pool = []
        base = dict(tfinal=rng.choice([1.0, 5.0, 0.5, 31.6228]), x0=rng.choice([0.5, 400.0, 0.25]), N=rng.choice([4, 8, 16]), c=rng.choice([1.0, 0.9, 0.3]), source=rng.randrange(9), eps=1.0, unc=True, mov=True, prob=rng.randrange(9), cv=0.03)
        for _ in range(6):
            d = dict(base)
            f = rng.choice(["tfinal", "x0", "N", "c", "source", "eps", "unc", "mov", "prob", "prob", "cv"])
            if f == "tfinal": d[f] = rng.choice([10.0, 1.25, 2.0, base[f] * (1 + 2e-4), base[f] + 0.004])
            elif f == "x0": d[f] = rng.choice([0.05, 1.5, base[f] * (1 + 2e-4), base[f] + 0.003])
            elif f == "N": d[f] = rng.choice([2, 32])
            elif f == "c": d[f] = rng.choice([0.5, 0.95, base[f] * (1 + 2e-4), base[f] + 0.003])
            elif f == "source": d[f] = rng.randrange(9)
            elif f == "eps": d[f] = rng.choice([0.1, 0.5, 0.502, 0.999, 1.001, 1e-3])
            elif f in ("unc", "mov"): d[f] = False
            elif f == "prob": d[f] = rng.randrange(9)
            else: d[f] = 0.1
            if rng.random() < .3: base = d
            pool.append(d)
        ops = []
        for _ in range(rng.choice([8, 14, 24])):
            ops.append([rng.choice(["save", "save", "load", "wave", "rms", "p1", "nowave"]), rng.randrange(6), rng.randrange(10 ** 6)])
        out.append({"pool": pool, "ops": ops})
    return out


def key(d):
    cv = d["cv"] if PROBLEMS[d["prob"]][0].startswith("rad") else 0
    return (d["prob"], cv, d["source"], d["unc"], d["mov"], d["N"], d["tfinal"], d["c"], d["x0"], d["eps"])


def run_case(env, case, rec):
    so = env.api.mod("loading_and_saving.save_output"); lo = env.api.mod("loading_and_saving.load_solution")
    folder = "moving_mesh_transport/local_run_data"
    for nm in ("run_data.hdf5", "wavepoints_crc.hdf5", "wavepoints.h5", "run_data_transport_RMS.h5", "run_data_su_olson_RMS.h5"):
        h5py.File(os.path.join(folder, nm), "w").close()
    model = {}; waves = {}; rms = {}; p1 = {}

    def saver(d, Ns=None, Ms=None, major="cells"):
        st = np.zeros(8, dtype=np.int64); st[min(d["source"], 5) if d["source"] < 6 else 0] = {6: 2, 7: 3, 8: 0}.get(d["source"], 1)
        return so.save_output(d["tfinal"], Ns or [d["N"]], Ms or [2], st, d["mov"], d["unc"], major, {"none": 1}, np.zeros(4), d["c"], 0, np.array([d["x0"]]), d["cv"], PROBLEMS[d["prob"]][0], [4], d["eps"])

    def check(d, why):
        k = key(d)
        prob, load = PROBLEMS[d["prob"]]
        nm = load % d["cv"] if "%s" in load else load
        for mat in ("transport", "rad", "mat"):
            L = lo.load_sol(nm, SOURCES[d["source"]], "transport" if mat == "transport" else "transfer", d["c"], False, d["cv"], "run_data.hdf5")
            L.call_sol(d["tfinal"], 2, d["x0"], d["N"], mat, d["unc"], d["mov"], d["eps"])
            m = model[k]
            tag = "%s: %s %s N=%d t=%g x0=%g c=%g uncollided=%s moving=%s epsilon=%g" % (why, prob, SOURCES[d["source"]], d["N"], d["tfinal"], d["x0"], d["c"], d["unc"], d["mov"], d["eps"])
            for nme in ("xs", "phi", "e"):
                want = m[nme] if not (nme == "e" and prob == "transport") else 0 * m["xs"]
                rec.close(getattr(L, nme), want, 2e-7, "solution", "%s: %s" % (tag, nme), scale=np.abs(want).max() + 1e-30)
            rec.close(L.psi, m["psi"], 0.0, "psi", tag); rec.close(L.mus, m["mus"], 0.0, "angles", tag)
            rec.close(L.ws, m["ws"], 0.0, "weights", tag); rec.close(L.edges, m["edges"], 0.0, "edges", tag)
            co = m["sol"] if mat == "transport" else m["sol"][:-1] if mat == "rad" else m["sol"][-1]
            rec.close(L.coeff_mat, co, 0.0, "coefficients", tag + " " + mat)
        rec.bucket(why, prob, SOURCES[d["source"]]); rec.bucket("options", d["unc"], d["mov"], d["eps"] != 1.0)

    saved = []
    for n, (op, i, sd) in enumerate(case["ops"]):
        d = case["pool"][i]; r = np.random.default_rng(sd)
        if op == "save":
            nx = int(r.integers(3, 40)); A = int(r.choice([2, 4, 8])); M = int(r.integers(0, 4))
            m = dict(xs=np.sort(r.uniform(-5, 5, nx)), phi=r.uniform(0, 1, nx), e=r.uniform(0, 1, nx), psi=r.uniform(0, 1, (A, nx)), mus=np.sort(r.uniform(-1, 1, A)), ws=r.uniform(0, 1, A),
                     edges=np.sort(r.uniform(-5, 5, d["N"] + 1)), sol=r.normal(size=(A + 1, d["N"], M + 1)))
            if key(d) in model: rec.bucket("overwrite", PROBLEMS[d["prob"]][0])
            saver(d).save_solution(m["xs"], m["phi"], m["e"], m["sol"], m["edges"], d["x0"], m["ws"], d["N"], False, m["psi"], d["eps"], m["mus"])
            model[key(d)] = m; saved.append(d)
            check(d, "after saving")
        elif op == "load" and saved:
            check(saved[sd % len(saved)], "later")
        elif op == "wave" and PROBLEMS[d["prob"]][0] in ("transport", "su_olson", "su_olson_s2", "su_olson_thick", "su_olson_thick_s2", "rad_transfer_constant_cv_thick", "rad_transfer_constant_cv_thick_s2"):
            w = [r.uniform(0, 9, 7) for _ in range(4)]
            saver(d).save_wave_loc(*w)
            prob = PROBLEMS[d["prob"]][0]
            waves[(prob, d["cv"] if prob.startswith("rad") else 0, d["source"], d["tfinal"])] = (w, d)
            import shutil
            shutil.copy(folder + "/wavepoints_crc.hdf5", folder + "/wavepoints.h5")
            for (pr, cv, s, tf), (ww, dd) in waves.items():
                L = lo.load_sol(pr, SOURCES[s], "transfer", dd["c"], False, dd["cv"], "run_data.hdf5")
                L.call_wavepoints(tf)
                for nme, want in zip(("tpnts", "left", "right", "T_wave"), ww):
                    rec.close(getattr(L, nme), want, 0.0, "wave", "wave locations of %s %s t=%g: %s" % (pr, SOURCES[s], tf, nme))
                rec.bucket("wave", pr)
        elif op == "rms" and PROBLEMS[d["prob"]][0] == "transport":
            d = dict(d, tfinal=[1, 5, 10, 1.25, 0.8333333333333334, 2.0][sd % 6])
            major = "cells" if sd % 3 else "Ms"
            n3 = [r.uniform(0, 1, 3) for _ in range(4)]
            Ns, Ms = [4, 8, 16], [2, 3, 4]
            saver(d, Ns, Ms, major).save_RMS(n3[0], n3[1], n3[2], n3[3])
            nm = ("Ms_" if major == "Ms" else "") + ("uncollided_" if d["unc"] else "no_uncollided_") + ("moving" if d["mov"] else "static") + ("_M_2" if major == "cells" else "")
            if (SOURCES[d["source"]], d["tfinal"], nm) in rms: rec.bucket("rms-overwrite", major)
            if d["tfinal"] != 2.0: rms[(SOURCES[d["source"]], d["tfinal"], nm)] = [Ns if major == "cells" else Ms, n3[0], n3[2], n3[3], Ms if major == "cells" else Ns, n3[1]]
            with h5py.File(folder + "/run_data_transport_RMS.h5", "r") as f:
                rec.ok(not any("t=2" in k for g in f for k in f[g]), "rms-unasked", "errors at times other than the published ones are not kept")
                for (src, tf, nme), want in rms.items():
                    got = f["%s/t=%s/RMS/%s" % (src, tf, nme)][:]
                    rec.close(got, np.array(want), 2e-7, "rms", "%s t=%s %s" % (src, tf, nme), scale=16.0)
            rec.bucket("rms", major, d["unc"], d["mov"])
        elif op == "p1" and PROBLEMS[d["prob"]][0] in ("su_olson", "su_olson_s2", "su_olson_thick", "su_olson_thick_s2"):
            # errors of the two-direction problems: one table per number of directions, thick problems under their own names
            tf = [1, 5, 10, 100, 31.6228, 31, 1.0, 10.25][sd % 8]; x0 = [0.5, 400.0, 0.5][sd % 3]; sg = [0.5, 0.5, 300.0][sd % 3]; src = (2, 5, 5)[sd % 3] if sd % 3 != 1 else 2; ang = [2, 4][(sd // 3) % 2]; major = "cells" if sd % 4 else "Ms"
            d = dict(d, tfinal=tf, x0=x0, source=src); n3 = [r.uniform(0, 1, 3) for _ in range(4)]; Ns, Ms = [4, 8, 16], [int(r.integers(1, 4)), 5, 6]
            sv = saver(d, Ns, Ms, major); sv.sigma = sg; sv.save_RMS_P1_su_olson(n3[0], n3[1], n3[2], n3[3], ang)
            name = "gaussian_s_thick" if sg == 300.0 else "su_olson_thick" if x0 == 400.0 else SOURCES[src]
            nm = ("Ms_" if major == "Ms" else "") + ("uncollided_" if d["unc"] else "no_uncollided_") + ("moving" if d["mov"] else "static") + ("_M_%d" % Ms[0] if major == "cells" else "")
            if (name, tf, ang, nm) in p1: rec.bucket("p1-overwrite", major)
            p1[(name, tf, ang, nm)] = [Ns if major == "cells" else Ms, n3[0], n3[2], n3[3], Ms if major == "cells" else Ns, n3[1]]
            with h5py.File(folder + "/run_data_su_olson_RMS.h5", "r") as f:
                for (src, tf, ang, nme), want in p1.items():
                    rec.close(f["%s/t=%s/RMS/S%d/%s" % (src, int(tf) if tf == int(tf) else tf, ang, nme)][:], np.array(want), 2e-7, "rms-two-directions", "%s t=%s S%d %s" % (src, tf, ang, nme), scale=16.0)
            rec.bucket("p1", name, major, ang)
        elif op == "nowave" and PROBLEMS[d["prob"]][0] in ("su_olson_thick_s2", "rad_transfer_constant_cv_thick", "rad_transfer_constant_cv_thick_s2"):
            # nothing saved under this time: a neutral table, and the tables that are there stay
            pr = PROBLEMS[d["prob"]][0]; L = lo.load_sol(pr, SOURCES[d["source"]], "transfer", d["c"], False, d["cv"], "run_data.hdf5"); L.call_wavepoints(77.0)
            rec.close([float(L.tpnts[0]), float(L.left[0]), float(L.right[0]), float(L.T_wave[0])], [77.0, 0, 0, 0], 0, "wave-default", pr); rec.bucket("wave-default", pr)
    for d in saved: check(d, "at the end")
    with h5py.File(folder + "/run_data.hdf5", "r") as f:
        n = sum(len(f[g]["solution"]) for g in f if "solution" in f[g])
    rec.ok(n == len(model), "entries", "%d solutions in the file, %d distinct keys saved" % (n, len(model)))
