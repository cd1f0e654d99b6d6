"""Mesh configurations of every family the package offers (JSON-able dicts for Api.cfg)."""

FAMILIES = ["plane", "dipole", "gaussian_IC", "gaussian_source", "square_IC", "square_source", "boundary", "shell", "point", "thick_gauss_static",
            "thick_gauss_moving", "thick_square_linear", "thick_square_thin", "thick_square_follow", "thick_square_static", "finite_source",
            "thick_plane", "sqrt_t"]


def wave_array(x0, tfinal, rng, n=12, slow=False):
    """a thermal-wave table: times, left, right, temperature front (monotone); slow: a front that hardly leaves the source"""
    ts = [tfinal * 1.05 * k / (n - 1) for k in range(n)]
    sp = rng.uniform(0.2, 1.0)
    if slow:
        T = [x0 - 0.02 + 0.004 * k * rng.uniform(0.9, 1.1) for k in range(n)]
        return [ts, [-v for v in T], [v + 0.2 for v in T], T]
    T = [x0 + 0.4 + sp * t ** 0.5 for t in ts]
    return [ts, [-v for v in T], [v + 0.2 for v in T], T]


def config(rng, family=None, small=False):
    f = family or rng.choice(FAMILIES)
    N = rng.choice([2, 3, 4, 5, 6, 8, 10, 12, 16, rng.randrange(17, 130)]) if not small else rng.choice([3, 4, 6])
    c = dict(family=f, N_space=N, x0=rng.choice([0.5, 1.0, rng.uniform(0.05, 4)]), tfinal=rng.choice([0.1, 1.0, 5.0, rng.uniform(0.05, 12), rng.uniform(12, 200)]),
             edge_v=rng.choice([1.0, 1.0, rng.uniform(0.2, 2.0)]), moving=rng.random() < .7, geometry="slab", M=rng.choice([0, 1, 2, 3]))
    four = lambda: rng.choice([4, 8, 12, 16, 24, 32, 64, 128])
    if f == "plane": c.update(kind="plane_IC", x0=rng.choice([1e-11, 1e-3, 0.5]))
    elif f == "dipole": c.update(kind="dipole", N_space=2 * rng.randrange(1, 6))
    elif f in ("gaussian_IC", "gaussian_source"): c.update(kind=f, sigma=0.5)
    elif f in ("square_IC", "square_source"): c.update(kind=f, N_space=four())
    elif f == "boundary":
        c.update(kind="boundary", N_space=2 * rng.randrange(1, 40 if rng.random() < .3 else 8), v0=rng.choice([0.0, 0.005, 0.05]), boundary_on=[1, 0])
        c["tfinal"] = min(c["tfinal"], 0.8 * c["x0"] / max(c["v0"], 1e-9), 12.0)
    elif f == "shell": c.update(kind="square_IC", geometry="sphere", N_space=max(3, N))
    elif f == "point": c.update(kind="plane_IC", geometry="sphere", x0=rng.choice([1e-3, 0.1, 0.5]))
    elif f == "thick_gauss_static":
        c.update(kind=rng.choice(["gaussian_IC", "gaussian_source"]), thick=True, moving=False, move=rng.choice([0, 1]), pad=rng.uniform(0.1, 3), sigma=0.5)
        c["wave"] = wave_array(c["x0"], c["tfinal"], rng)
    elif f == "thick_gauss_moving": c.update(kind=rng.choice(["gaussian_IC", "gaussian_source"]), thick=True, moving=True, sigma=0.5)
    elif f == "thick_square_linear": c.update(kind=rng.choice(["square_IC", "square_source"]), thick=True, move=0, N_space=four())
    elif f == "thick_square_thin":
        # geometric factor needs cells outside the source; x0 large keeps dx=1e-12 representable
        c.update(kind=rng.choice(["square_IC", "square_source"]), thick=True, move=2, N_space=rng.choice([4, 8, 12, 16]), x0=rng.choice([0.5, 0.3]))
        c["tfinal"] = max(c["tfinal"], 0.1)
    elif f == "thick_square_follow":
        c.update(kind="square_source", thick=True, moving=True, move=1, N_space=rng.choice([16, 20, 24, 32, 64]), x0=0.5, finite=True, width=1e6,
                 pad=rng.uniform(0.005, 0.05))
        c["leader_pad"] = c["pad"] * rng.uniform(1.5, 3)
        c["wave"] = wave_array(c["x0"], c["tfinal"], rng, slow=rng.random() < .3)
    elif f == "thick_square_static":
        c.update(kind=rng.choice(["square_IC", "square_source"]), thick=True, moving=False, move=1, N_space=rng.choice([4, 8, 12, 16]), pad=rng.uniform(0.05, 2))
        c["wave"] = wave_array(c["x0"], c["tfinal"], rng)
    elif f == "finite_source":
        # source switched off at t0 < tfinal: the tracking edges then spread to the even mesh of half width pad
        c.update(kind="square_source", finite=True, N_space=four(), width=1e6, moving=True)
        c["t0"] = c["tfinal"] * rng.uniform(0.3, 0.7)
        c["pad"] = c["x0"] + c["edge_v"] * c["tfinal"] * rng.uniform(0.9, 1.2)
    elif f == "thick_plane":
        # a plane or dipole pulse of the diffusive scripts: linear (move 0) or sqrt-tabled (move 2, static) layouts
        c.update(kind=rng.choice(["plane_IC", "plane_IC", "dipole"]), thick=True, move=rng.choice([0, 0, 2]), x0=rng.choice([1e-3, 0.1, 0.5]),
                 N_space=2 * rng.randrange(1, 6))
        if c["move"] == 2: c["moving"] = False
    elif f == "sqrt_t":
        c.update(kind="square_source", thick=rng.random() < .5, move=2, finite=True, width=1e6, N_space=rng.choice([4, 8, 12, 16]), x0=rng.choice([0.5, 0.3]),
                 move_factor=rng.choice([1.0, rng.uniform(0.3, 3)]), moving=rng.random() < .8)
    return c


def times(rng, c, n=8):
    T = c["tfinal"]
    ts = [0.0, T] + [rng.uniform(0, T) for _ in range(n)]
    if c.get("finite"): ts += [c.get("t0", T) * f for f in (0.5, 0.999, 1.0, 1.001) if c.get("t0", T) * f <= T]
    rng.shuffle(ts)
    return ts
