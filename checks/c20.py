"""C20 the compiled program computes what its source says: no out-of-bounds access, no uninitialised memory, same numbers as the source interpreted."""
import numpy as np, os, json, subprocess, sys, tempfile
if __name__ == "__main__":
    _here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, os.path.join(_here, "lib")); sys.path.insert(0, _here)
import core, problems as P, meshes

ENGINE = "jit"
RULE = ("one case = one configuration run twice: by the compiled code with array-bounds checking on, and by the same source interpreted (every attribute read before it is written is trapped there); initial state, mesh, "
        "right-hand sides along a history of times, uncollided flux and reconstructed outputs are compared; distinct = distinct (geometry, problem, treatment, moving, opacity, quantity) observed")
ASSUMPTIONS = ["the two executions differ by rounding only (tolerance 1e-9 relative to the largest entry)"]
BUDGET = {"quick": 330, "thorough": 1500}


def cases(rng, tier):
    out = []
    kinds = ["square_source", "gaussian_IC", "plane_IC", "shell", "point", "boundary", "gaussian_source", "square_IC"]
    n = 26 if tier == "quick" else 250
    for k in range(n):
        c = P.config(rng, kinds=[kinds[k % 8]])
        if c["kind"] == "plane_IC" and c["geometry"] == "slab": c["x0"] = 0.3
        if k % 3 == 1 and c["kind"] not in ("boundary",) and not (c["geometry"] == "sphere" and c["kind"] == "plane_IC"):
            c.update(uncollided=True, weights="gauss_legendre", N_ang=4, M=min(c["M"], 2)); c.pop("opacity", None); c.pop("Msigma", None)
        if c["kind"] == "square_IC" and c["geometry"] == "slab" and k % 16 == 7: c["noniso"] = False
        out.append({"c": c, "ts": [rng.uniform(.02, 1) * c["tfinal"] for _ in range(3)] + [c["tfinal"], 0.0 if k % 4 == 0 else 0.01], "seed": rng.randrange(10 ** 6)})
    for f in ("thick_gauss_static", "thick_gauss_moving", "thick_square_linear", "thick_square_follow", "thick_square_static", "finite_source", "dipole"):
        c = meshes.config(rng, f); c.pop("family")
        out.append({"c": dict(c, M=1, N_ang=4), "ts": meshes.times(rng, c, 2), "seed": 1, "mesh": 1})
    for k in range(4 if tier == "quick" else 24):
        kind = ["shell", "square_source", "gaussian_IC", "plane_IC"][k % 4]
        c = P.config(rng, kinds=[kind], opacity=False)
        c.update(M=rng.choice([0, 1, 2]), N_ang=4, N_space=4, weights="gauss_legendre", tfinal=rng.uniform(.2, .5), moving=k % 2 == 0, uncollided=k % 4 != 2, t_nodes=6, sigma_t=1.0, sigma_s=rng.uniform(.2, 1), edge_v=1.0)
        out.append({"c": c, "solve": rng.choice([0, 3]), "seed": 1})
    return out


def compute(env, case):
    c = env.api.cfg(**case["c"]); D = {}
    if "solve" in case:
        n = case["solve"]
        r = env.api.solve(c, rt=1e-7, at=1e-8, **(dict(eval_times=True, eval_array=list(np.minimum(c["tfinal"], c["tfinal"] * np.arange(1, n + 1) / n))) if n else {}))
        return {"s_" + k: np.array(r[k], dtype=float) for k in ("xs", "phi", "psi", "exit_dist", "exit_phi", "e", "sol", "edges", "ws", "mus")}
    if case.get("mesh"):
        m = env.api.mesh(c)
        for i, t in enumerate(case["ts"]):
            m.move(float(t)); D["edges%d" % i] = np.array(m.edges); D["vel%d" % i] = np.array(m.Dedges)
        return D
    s = env.api.system(c)
    D["IC"] = np.array(s.build.IC)
    for i, t in enumerate(case["ts"]):
        V = P.state(case["seed"] + i, s.shape).reshape(-1)
        if t > 0 or not c["uncollided"]: D["rhs%d" % i] = s.rhs(t, V)
        D["edges%d" % i] = np.array(s.mesh.edges); D["vel%d" % i] = np.array(s.mesh.Dedges)
    t = c["tfinal"]
    s.mesh.move(t)
    e = np.array(s.mesh.edges)
    xs = np.sort(np.concatenate((e, 0.37 * e[1:] + 0.63 * e[:-1], e[-1:] + .5)))
    if c["uncollided"]: D["unc"] = np.array(s.uncollided.uncollided_solution(xs, t))
    o = env.api.mod("solver_classes.make_phi").make_output(float(t), c["N_ang"], s.ws, xs, P.state(3, s.shape), c["M"], e, int(c["uncollided"]), env.api.geom(c["geometry"]))
    D["phi"] = np.array(o.make_phi(s.uncollided)); D["psi"] = np.array(o.psi_out)
    a, b = o.get_exit_dist(s.uncollided); D["exit"] = np.array(a); D["exit_phi"] = np.array(b)
    D["nodes"] = np.array(env.api.mod("solver_classes.functions").find_nodes(e, c["M"], env.api.geom(c["geometry"])))
    return D


def interp(env, case):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = os.path.join(env.scratch, "case.json"); q = os.path.join(env.scratch, "ref.npz")
    json.dump(case, open(p, "w"))
    r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(here, "checks", "c20.py"), p, q], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, cwd=here)
    if r.returncode:
        tail = r.stdout.decode(errors="replace").strip().splitlines()[-1:]
        if tail and tail[0].startswith("TRAP "): return tail[0][5:]
        raise core.HarnessError("reference execution failed:\n" + r.stdout.decode(errors="replace")[-1500:])
    return dict(np.load(q))


def run_case(env, case, rec):
    c = env.api.cfg(**case["c"])
    key = (c["geometry"], c["kind"], c["uncollided"], c["moving"], c["opacity"], bool(c["thick"]))
    got = compute(env, case)
    ref = interp(env, case)
    if isinstance(ref, str):
        rec.ok(False, "trap", "%s: %s" % (key, ref)); return
    rec.ok(set(ref) == set(got), "quantities")
    for k in sorted(ref):
        rec.ok(np.isfinite(got[k]).all(), "finite", "%s %s: non-finite entries in the compiled result" % (key, k))
        rec.close(got[k], ref[k], 1e-4 if k.startswith("s_") else 1e-9, "differs", "%s: compiled %s differs from the interpreted source" % (key, k), scale=np.abs(ref[k]).max() + 1e-12)
        rec.bucket(*key, k.rstrip("0123456789"))
    again = compute(env, case)
    for k in sorted(ref): rec.close(again[k], got[k], 1e-12, "repeat", "%s: second compiled run of %s differs (uninitialised memory)" % (key, k), scale=np.abs(ref[k]).max() + 1e-12)


if __name__ == "__main__":
    env = core.make_env("interp", "quick")
    import engines
    try: D = compute(env, json.load(open(sys.argv[1])))
    except (engines.UninitialisedRead, IndexError) as e:
        where = core._from_repo(e.__traceback__)
        if where is None: raise
        print("\nTRAP %s in %s: %s" % (type(e).__name__, where, e), flush=True); sys.exit(1)
    np.savez(sys.argv[2], **D)
