"""C04 the mesh is a valid partition at every time the integrator may ask for."""
import numpy as np, contextlib, io
import meshes

RULE = ("one case = one mesh configuration (18 families) asked for a shuffled sequence of times in [0, tfinal]; the partition is judged after every "
        "move; distinct = distinct (family, moving, cell-count class, time class) combinations observed")
ASSUMPTIONS = ["square-source meshes with a number of cells divisible by 4 (the package's own layout requires it)", "boundary-driven meshes: the shock stays inside the domain"]
BUDGET = {"quick": 120, "thorough": 1200}


def cases(rng, tier):
    out = []
    fams = meshes.FAMILIES
    for k in range(2700 if tier == "quick" else 4000):
        c = meshes.config(rng, fams[k % len(fams)])
        out.append({"c": c, "ts": meshes.times(rng, c, 6)})
    return out


def run_case(env, case, rec):
    c = env.api.cfg(**case["c"]); fam = c.pop("family")
    m = env.api.mesh(c)
    N, x0, T = c["N_space"], c["x0"], c["tfinal"]
    slab = c["geometry"] == "slab"
    for t in case["ts"]:
        m.move(t)
        e, d = np.array(m.edges), np.array(m.Dedges)
        tag = "%s N=%d t=%g" % (fam, N, t)
        rec.ok(e.shape == (N + 1,) and d.shape == (N + 1,), "shape", "%s: %s edges, %s velocities" % (tag, e.shape, d.shape))
        rec.ok(np.isfinite(e).all() and np.isfinite(d).all(), "finite", tag)
        rec.ok((np.diff(e) > 0).all(), "ordered", lambda: "%s: edges not strictly increasing: %s" % (tag, e))
        if slab and fam != "boundary" and c["kind"] != "dipole":
            rec.close(e, -e[::-1], 1e-9, "symmetric", tag, scale=1 + abs(e).max())
            rec.close(d, -d[::-1], 1e-6, "symmetric-velocity", tag, scale=1 + abs(d).max())
        if not slab:
            rec.ok(e[0] == 0.0 and d[0] == 0.0, "origin", "%s: innermost edge %g velocity %g" % (tag, e[0], d[0]))
        if not c["moving"]:
            rec.ok((d == 0).all(), "static-velocity", "%s: static mesh has a moving edge" % tag)
        # the mesh covers the initial support and, where it follows the wavefront, the wavefront
        te = T if not c["moving"] else t
        tol = 1e-9 * (1 + x0)
        if fam in ("plane", "gaussian_IC", "gaussian_source", "square_IC", "square_source", "shell", "point", "thick_gauss_moving", "thick_square_linear", "thick_square_thin") \
                or (fam == "thick_plane" and c["kind"] == "plane_IC"):
            rec.ok(e[-1] >= x0 + c["edge_v"] * te - tol, "covers-wavefront", lambda: "%s: outermost edge %.12g, wavefront %.12g" % (tag, e[-1], x0 + c["edge_v"] * te))
            rec.ok(e[-1] <= x0 + c["edge_v"] * te + 0.0100001, "tracks-wavefront", lambda: "%s: outermost edge %.12g, wavefront %.12g" % (tag, e[-1], x0 + c["edge_v"] * te))
        elif fam == "sqrt_t":
            front = x0 + c["move_factor"] * c["edge_v"] * max(te, 1e-10) ** 0.5
            rec.ok(front - 1e-6 <= e[-1] <= front + 0.0100001, "tracks-wavefront", lambda: "%s: outermost edge %.12g, estimated wavefront %.12g" % (tag, e[-1], front))
        elif fam == "thick_square_follow":
            # the tabulated thermal front: one edge on it, the outermost ahead of it by the leading pad (never inside the initial mesh)
            w = case["c"]["wave"]; front = float(np.interp(te, w[0], w[3]))
            if front >= x0 and te > 0:
                e0 = x0 + 1e-3
                rec.ok(abs(e[-1] - max(front + c["leader_pad"], e0)) <= 1e-7, "leads-front", lambda: "%s: outermost edge %.12g, front %.12g, leading pad %g" % (tag, e[-1], front, c["leader_pad"]))
                if front > e0: rec.ok(np.min(abs(e - front)) <= 1e-7, "tracks-front", lambda: "%s: no edge on the front at %.12g: %s" % (tag, front, e))
        elif fam == "thick_gauss_static" and c["move"] == 1:
            front = case["c"]["wave"][3][-1]
            rec.ok(abs(e[-1] - front - c["pad"]) <= 1e-9 * (1 + front), "covers-front", lambda: "%s: outermost edge %.12g, front at the end of the table %.12g, pad %g" % (tag, e[-1], front, c["pad"]))
        else:
            rec.ok(e[-1] >= x0 - tol, "covers-initial", "%s: outermost edge %g" % (tag, e[-1]))
        if fam in ("square_IC", "square_source", "shell", "thick_square_thin", "thick_square_static", "thick_square_follow", "sqrt_t"):
            # material interface: an edge stays on the source boundary
            rec.ok(np.min(abs(e - x0)) <= tol, "source-edge", "%s: no edge at the source boundary %g" % (tag, x0))
            if fam != "shell" and slab: rec.ok(np.min(abs(e + x0)) <= tol, "source-edge", tag)
        if fam == "finite_source" and t == T:
            # after the source is switched off the edges spread to an even mesh of half width pad
            rec.close(e, np.linspace(-c["pad"], c["pad"], N + 1), 1e-9, "final-layout", tag + ": layout at the final time", scale=1 + c["pad"])
        rec.bucket(fam, c["moving"], "N%d" % min(N, 9), "t0" if t == 0 else ("end" if t == T else "mid"))
