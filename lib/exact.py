"""Exact scalar flux of the angle-discrete transport equation in an infinite slab, by Fourier series in space and a Volterra
equation in time (collision by collision).  Shares nothing with the repository's discretisation."""
import numpy as np, math


def shape_hat(kind, k, x0, sigma):
    if kind.startswith("gaussian"): return math.sqrt(math.pi) * sigma * np.exp(-(k * sigma) ** 2 / 4)
    if kind.startswith("square"): return 2 * x0 * np.sinc(k * x0 / np.pi)
    return np.ones_like(k)      # unit pulse


def kernel(k, t, mus, ws):
    """half the angular sum of exp(-i k mu t); mus None = all directions"""
    z = np.multiply.outer(t, k)
    if mus is None: return np.sinc(z / np.pi)
    return sum(0.5 * w * np.cos(z * m) for m, w in zip(mus, ws))


def transforms(c, mus, ws, k, T, nt, uncollided):
    """(phi_uncollided_hat, phi_collided_hat) at time T"""
    h = T / nt; t = h * np.arange(nt + 1)
    fh = c["fh"] if "fh" in c else c["strength"] * shape_hat(c["kind"], k, c["x0"], c["sigma"])
    decay = np.exp(-c["sigma_t"] * t)[:, None]
    K = decay * kernel(k, t, mus, ws)
    U = decay * kernel(k, t, None if uncollided else mus, ws)
    if "source" in c["kind"]:
        on = t <= c["t0"] + 1e-12
        # particles emitted during [0, min(t, t0)]: cumulative integral of U (Simpson on a refined grid)
        ts = np.linspace(0, T, 4 * nt + 1)
        f = np.exp(-c["sigma_t"] * ts)[:, None] * kernel(k, ts, None if uncollided else mus, ws)
        hs = h / 4
        cum = np.zeros((nt + 1, k.size))
        piece = hs / 3 * (f[0:-4:4] + 4 * f[1::4][:nt] + 2 * f[2::4][:nt] + 4 * f[3::4][:nt] + f[4::4])
        cum[1:] = np.cumsum(piece, axis=0)
        phu = cum.copy()
        if c["t0"] < T:
            lag = np.array([np.interp(np.maximum(t - c["t0"], 0), t, cum[:, j]) for j in range(k.size)]).T
            phu = cum - lag
        phu = phu * fh
    else:
        phu = U * fh
    # phi_c(t) = sigma_s int_0^t K(t-s) (phi_u + phi_c)(s) ds, trapezoidal
    s = c["sigma_s"]
    phc = np.zeros_like(phu)
    for n in range(1, nt + 1):
        g = phu[:n] + phc[:n]
        acc = (K[n:0:-1] * g).sum(axis=0) - 0.5 * K[n] * g[0] + 0.5 * K[0] * phu[n]
        phc[n] = s * h * acc / (1 - 0.5 * s * h)
    return phu[-1], phc[-1]


def collided(c, mus, ws, uncollided, xs, T=None, kmax=None, nt=160):
    """(phi_u, phi_c) at the points xs; phi_u only where it is smooth (Gaussians), else None"""
    T = c["tfinal"] if T is None else T
    reach = T + (6 * c["sigma"] if c["kind"].startswith("gaussian") else c["x0"]) + 0.5
    L = max(reach, np.abs(xs).max() * 1.05)
    if kmax is None: kmax = 14.0 / c["sigma"] if c["kind"].startswith("gaussian") else 120.0
    k = np.pi / L * np.arange(int(kmax * L / np.pi) + 1)
    a = transforms(c, mus, ws, k, T, nt, uncollided); b = transforms(c, mus, ws, k, T, 2 * nt, uncollided)
    u = (4 * b[0] - a[0]) / 3 if "source" in c["kind"] else b[0]
    v = (4 * b[1] - a[1]) / 3
    w = np.where(k == 0, 0.5, 1.0) / L
    C = np.cos(np.multiply.outer(xs, k))
    return (C @ (w * u) if c["kind"].startswith("gaussian") else None), C @ (w * v)


def ball(c, xs, T=None, kmax=150.0, nt=160):
    """collided flux of a uniform ball of radius x0 holding `strength` particles in an infinite
    medium, all directions: three-dimensional Fourier series in a large sphere"""
    T = c["tfinal"] if T is None else T
    R = T + c["x0"] + 0.3
    k = np.pi / R * np.arange(1, int(kmax * R / np.pi) + 1)
    z = k * c["x0"]
    fh = c["strength"] * 3 * (np.sin(z) - z * np.cos(z)) / z ** 3
    cc = dict(c, kind="hat", fh=fh)
    a = transforms(cc, None, None, k, T, nt, True)[1]; b = transforms(cc, None, None, k, T, 2 * nt, True)[1]
    v = (4 * b - a) / 3
    x = np.maximum(np.abs(xs), 1e-9)
    return (np.sin(np.multiply.outer(x, k)) / x[:, None]) @ (k * v) / (2 * np.pi * R)


def ball_uncollided(c, xs, T=None):
    """uncollided flux of the uniform ball: the directions whose starting point lies in the ball"""
    T = c["tfinal"] if T is None else T; R = c["x0"]
    n0 = c["strength"] * 3 / (4 * np.pi * R ** 3)
    r = np.maximum(np.abs(xs), 1e-9)
    # |r - T omega|^2 < R^2  <=>  mu > (r^2 + T^2 - R^2) / (2 r T)
    mu = np.clip((r * r + T * T - R * R) / (2 * r * T), -1, 1)
    return n0 * 0.5 * (1 - mu) * math.exp(-c["sigma_t"] * T)


def square_uncollided(c, mus, ws, xs, T=None):
    """uncollided flux of the square initial state or source in the discrete directions"""
    T = c["tfinal"] if T is None else T; st = c["sigma_t"]
    out = np.zeros(len(xs))
    for m, w in zip(mus, ws):
        if "source" not in c["kind"]: out += 0.5 * w * c["strength"] * math.exp(-st * T) * (np.abs(xs - m * T) <= c["x0"]); continue
        # ages s in [max(0, T-t0), T] with |x - m s| <= x0
        lo = max(0.0, T - c["t0"])
        if abs(m) < 1e-14: a, b = np.where(np.abs(xs) <= c["x0"], lo, T), np.full(len(xs), T)
        else:
            p, q = (xs - c["x0"]) / m, (xs + c["x0"]) / m
            a, b = np.maximum(np.minimum(p, q), lo), np.minimum(np.maximum(p, q), T)
        out += 0.5 * w * c["strength"] * np.where(b > a, (np.exp(-st * a) - np.exp(-st * b)) / st, 0.0)
    return out
