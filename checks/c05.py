"""C05 mesh kinematics: velocities are the time derivatives of the edges; the mesh at t depends on t only; static = moving at tfinal."""
import numpy as np
import meshes

RULE = ("one case = one mesh configuration and a shuffled history of move() calls; after every call the edges and velocities are compared with those of "
        "a fresh mesh moved once, with central differences of fresh meshes and (static configurations) with the moving mesh at tfinal; "
        "distinct = distinct (family, moving, relation, order class) combinations observed")
ASSUMPTIONS = ["derivatives are compared away from the kinks of tabulated wave positions and of the source switch-off"]
BUDGET = {"quick": 150, "thorough": 1400}
FAMS = meshes.FAMILIES


def cases(rng, tier):
    out = []
    for k in range(540 if tier == "quick" else 3000):
        c = meshes.config(rng, FAMS[k % len(FAMS)])
        ts = meshes.times(rng, c, 6)
        if c["family"] == "sqrt_t": ts += [10 ** rng.uniform(-9, -1.5) for _ in range(4)]        # the edges start with an unbounded velocity
        out.append({"c": c, "ts": ts})
    # finite domains, asked for increasing times: the mesh moves until it reaches the end of the domain and rests from then on
    for k in range(12 if tier == "quick" else 120):
        w = rng.uniform(2, 6); ts = sorted(rng.uniform(0, 1) for _ in range(9))
        c = dict(family="finite_rest", N_space=rng.choice([4, 8, 12]), x0=0.5, tfinal=w, edge_v=rng.choice([1.0, 0.7]), moving=True, geometry="slab", M=1, finite=True, width=w,
                 kind=rng.choice(["square_IC", "square_source"]), t0=3 * w, pad=w / 2)
        out.append({"c": c, "ts": [t * w * 0.999 for t in ts], "rest": True})
    # recorded findings: meshes of finite domains remember where they stopped
    base = dict(family="finite_stop", N_space=8, x0=0.5, tfinal=4.0, edge_v=1.0, moving=True, geometry="slab", M=1, finite=True, width=4.0)
    out.append({"c": dict(base, kind="square_source", t0=3.9, pad=3.0), "ts": [3.0, 2.0, 1.0], "finding": "finite-domain-stop-source"})
    out.append({"c": dict(base, kind="square_IC"), "ts": [3.0, 2.0, 1.0], "finding": "finite-domain-stop-IC"})
    # recorded finding: the evenly spaced mesh of half width width/2 replaces the mesh at t == tfinal
    out.append({"c": dict(base, kind="square_IC", tfinal=1.0), "ts": [1.0], "finding": "finite-domain-final-jump"})
    return out


def at(env, c, t):
    m = env.api.mesh(c); m.move(t)
    return np.array(m.edges), np.array(m.Dedges)


def rests(env, c, m, ts, rec):
    """the edges follow straight lines until the outermost one is at the end of the domain; a resting mesh has zero velocities"""
    e0, d0 = np.array(m.edges), np.array(m.Dedges)
    half, at_rest, last = c["width"] / 2, False, e0
    for t in ts:
        m.move(t)
        e, d = np.array(m.edges), np.array(m.Dedges)
        tag = "%s in a domain of half width %.4g, t=%.6g" % (c["kind"], half, t)
        if at_rest:
            rec.close(e, last, 1e-13, "rest", tag + ": a mesh at the end of its domain moved on", scale=half)
            rec.close(d, 0 * d, 1e-15, "rest-velocity", tag + ": a resting mesh reports velocities", scale=1)
        else:
            rec.close(e, e0 + d0 * t, 1e-12, "rest-line", tag + ": edges on their way", scale=1 + abs(e).max())
            rec.close(d, d0, 1e-12, "rest-line", tag + ": velocities on their way", scale=1)
        rec.bucket(c["kind"], "finite", at_rest)
        if last[-1] >= half - 9e-3 or e[-1] >= half - 9e-3: at_rest = True
        elif e[-1] > half - 1.1e-2: return                                     # within the tolerance of the stopping rule
        last = e


def run_case(env, case, rec):
    c = env.api.cfg(**case["c"]); fam = c.pop("family")
    m = env.api.mesh(c)
    T = c["tfinal"]
    if case.get("rest"): return rests(env, c, m, case["ts"], rec)
    prev = -1.0
    wave = c["wave"][0] if c["wave"] is not None else []
    if case.get("finding") == "finite-domain-final-jump":
        a, b = at(env, c, T * (1 - 1e-9))[0], at(env, c, T)[0]
        rec.close(b, a, 1e-6, "finite-domain-final-jump", "edges at tfinal against those just before", scale=1)
        return
    for t in case["ts"]:
        m.move(t)
        e, d = np.array(m.edges), np.array(m.Dedges)
        fe, fd = at(env, c, t)
        sc = 1 + abs(fe).max()
        tag = "%s N=%d moving=%s t=%.9g (after t=%.9g)" % (fam, c["N_space"], c["moving"], t, prev)
        key = case.get("finding") or "history"
        rec.close(e, fe, 1e-12, key, tag + " edges depend on the call history", scale=sc)
        if case.get("finding"): continue
        rec.close(d, fd, 1e-6, "history-velocity", tag + " velocities depend on the call history", scale=1 + abs(fd).max())
        order = "back" if t < prev else "fwd"
        rec.bucket(fam, c["moving"], "history", order)
        prev = t
        if not c["moving"]:
            rec.ok((d == 0).all(), "static-velocity", tag)
            rec.bucket(fam, "static"); continue
        h = 1e-5 * max(T, 0.1)
        kinks = list(wave) + [c["t0"]] if c.get("finite") else list(wave)
        if fam == "sqrt_t" and t > 2e-10: h = min(h, 1e-3 * t)
        if min([abs(t - k) for k in kinks] + [9]) < 3 * h or t < 2 * h: continue
        if fam == "thick_square_follow" and t < 2 * T / 11: continue       # the wave table starts inside the source layer there
        (ep, dp), (em, dm) = at(env, c, t + h), at(env, c, t - h)
        if fam == "thick_square_follow" and abs(dp - dm).max() > 1e-3 * (1 + abs(dp).max()): continue        # an edge starts to move here
        fdiff = (ep - em) / (2 * h)
        rec.close(d, fdiff, 2e-5, "velocity-is-derivative", tag + " Dedges against central difference", scale=1 + abs(fdiff).max())
        rec.bucket(fam, "derivative", order)
    if not c["moving"] and not case.get("finding") and not (fam == "thick_plane" and c["move"] == 2) and fam not in ("boundary", "thick_gauss_static", "thick_square_static", "thick_square_follow", "finite_source"):
        c2 = dict(c, moving=True)
        me = at(env, c2, T)[0]
        se = np.array(env.api.mesh(c).edges)
        rec.close(se, me, 1e-12, "static-is-final", "%s N=%d: static mesh against the moving mesh at tfinal" % (fam, c["N_space"]), scale=1 + abs(me).max())
        rec.bucket(fam, "static-is-final")
