"""Independent solver of the semi-discrete transport equations (initial projection, weak form, time integration, reconstruction).
Vectorised over cells and directions; shares no code with the repository.  Only the mesh trajectory is supplied from outside."""
import numpy as np, math
from scipy.integrate import solve_ivp
from scipy.special import erf
import oracle as O, problems as P


def tab(geom, K, x, e):
    """basis values (K, N, Q) at the points x (N, Q) of each cell"""
    a, b = e[:-1, None], e[1:, None]
    B, dB = O.basis(geom), O.dbasis(geom)
    return np.array([B(n, x, a, b) for n in range(K)]), np.array([dB(n, x, a, b) for n in range(K)])


def cells(n, e):
    z, w = np.polynomial.legendre.leggauss(n)
    h = np.diff(e)[:, None]
    return 0.5 * h * (z + 1) + e[:-1, None], 0.5 * h * w


def uncollided(c, x, t):
    """scalar flux of the particles that have not collided, sigma_t = 1"""
    S, x0, sg, kind = c["strength"], c["x0"], c["sigma"], c["kind"]
    t0 = c["t0"]
    clip = lambda lo, hi: np.maximum(0.0, np.minimum(hi, 1.0) - np.maximum(lo, -1.0))
    if c["geometry"] == "sphere":
        with np.errstate(divide="ignore", invalid="ignore"): mc = np.where(x > 0, (x * x + t * t - x0 * x0) / (2 * x * t), math.copysign(math.inf, t - x0))
        return S * math.exp(-t) * 3 / (4 * math.pi * x0 ** 3) * 0.5 * (1 - np.clip(mc, -1, 1))
    if kind == "plane_IC": return S * math.exp(-t) / (2 * t) * (np.abs(x) < t)
    if kind == "square_IC": return S * math.exp(-t) * 0.5 * clip((x - x0) / t, (x + x0) / t)
    if kind == "gaussian_IC": return S * math.exp(-t) * sg * math.sqrt(math.pi) / (4 * t) * (erf((t - x) / sg) + erf((t + x) / sg))
    lo, hi = t - min(t, t0), t
    ax = np.abs(x)
    cuts = [np.clip(np.abs(ax - x0), lo, hi), np.clip(ax + x0, lo, hi)] if kind == "square_source" else [np.clip(ax - sg, lo, hi), np.clip(ax, lo, hi), np.clip(ax + sg, lo, hi)]
    if c["N_ang"] == 2:
        r3 = 3 ** .5
        cuts = [np.clip(q, lo, hi) for q in ([r3 * np.abs(ax - x0), r3 * (ax + x0)] if kind == "square_source" else [r3 * (ax - sg), r3 * ax, r3 * (ax + sg)])]
    pts = [0 * ax + lo] + cuts + [0 * ax + hi]
    pts = np.sort(np.array(pts), axis=0)
    z, w = np.polynomial.legendre.leggauss(16)
    tot = 0 * ax
    for p, q in zip(pts[:-1], pts[1:]):
        for zi, wi in zip(z, w):
            s = np.maximum(0.5 * (q - p) * (zi + 1) + p, 1e-300)
            if c["N_ang"] == 2:
                shape = (lambda y: 1.0 * (np.abs(y) <= x0)) if kind == "square_source" else (lambda y: np.exp(-(y / sg) ** 2))
                f = 0.5 * (shape(x - s / 3 ** .5) + shape(x + s / 3 ** .5))
            elif kind == "square_source": f = 0.5 * clip((x - x0) / s, (x + x0) / s)
            else: f = sg * math.sqrt(math.pi) / (4 * s) * (erf((s - x) / sg) + erf((s + x) / sg))
            tot = tot + 0.5 * (q - p) * wi * np.exp(-s) * f
    return S * tot


class Reference:
    def __init__(self, c, mus, ws, mesh_at):
        self.c, self.mus, self.ws, self.at = c, np.array(mus), np.array(ws), mesh_at
        self.wn = self.ws / self.ws.sum(); self.K = c["M"] + 1; self.N = c["N_space"]; self.A = len(mus)
        self.shape = (self.A, self.N, self.K)
        self.op = P.opacity_shape(c); self.src = P.source_shape(c) if not c["uncollided"] else None
        self.evals = 0

    # -- initial state ------------------------------------------------------------------------------------------------
    def initial(self):
        c = self.c; e = self.at(0.0)[0]; U = np.zeros(self.shape)
        if c["uncollided"]: return U
        S, x0, kind = c["strength"], c["x0"], c["kind"]
        if c["geometry"] == "slab":
            f = {"gaussian_IC": lambda x: 0.5 * S * np.exp(-(x / c["sigma"]) ** 2), "square_IC": lambda x: 0.5 * S * (np.abs(x) < x0),
                 "plane_IC": lambda x: 0.25 * S / x0 * (np.abs(x) < x0)}.get(kind)
            if f is None: return U
            x, w = cells(2 * c["M"] + 1, e)
            B, _ = tab("slab", self.K, x, e)
            U[:] = np.einsum("knq,nq,nq->nk", B, w, f(x))
            return U
        mid = 0.5 * (e[1:] + e[:-1])
        if kind == "square_IC": v = 0.5 * S * 3 / (4 * math.pi * x0 ** 3) * (mid < x0)
        else:
            R = x0 if c["moving"] else e[1]
            v = S / R ** 3 * (mid < R)
        U[:, :, 0] = v * np.sqrt(math.pi * np.diff(e))
        return U

    # -- moments of the source (slab: including scattering of the uncollided flux) --------------------------------------
    def moments(self, t, e):
        c = self.c; M = c["M"]; K = self.K; h = np.diff(e)
        out = np.zeros((self.N, K))
        if c["uncollided"]:
            if c["geometry"] == "sphere":
                n = 6 * M + 1; z = np.cos((2 * np.arange(1, n + 1) - 1) * math.pi / 2 / n)
                x = 0.5 * h[:, None] * (z + 1) + e[:-1, None]
                B, _ = tab("sphere", K, x, e)
                f = uncollided(c, x, t)
                return 0.5 * h[:, None] * np.einsum("knq,nq->nk", B, math.pi / n * np.sqrt(1 - z * z) * x ** 2 * f)
            if c["kind"] == "plane_IC" and c["moving"]:
                inside = np.maximum(np.minimum(e[1:], t) - np.maximum(e[:-1], -t), 0)
                out[:, 0] = c["sigma_s"] * c["strength"] * math.exp(-t) / (2 * t + 1e-12) * inside / np.sqrt(h)
                return out
            x, w = cells(2 * M + 1, e); B, _ = tab("slab", K, x, e)
            return c["sigma_s"] * np.einsum("knq,nq->nk", B, w * uncollided(c, x, t))
        if c["geometry"] == "slab" and "source" in c["kind"]:
            x, w = cells(2 * M + 1, e); B, _ = tab("slab", K, x, e)
            return np.einsum("knq,nq->nk", B, w * self.src(x, t))
        return out

    # -- the equations ---------------------------------------------------------------------------------------------------
    def rhs(self, t, V):
        self.evals += 1
        c = self.c; geom = c["geometry"]; K, N, A = self.K, self.N, self.A; M = K - 1
        U = V.reshape(self.shape); mus = self.mus
        e, v = self.at(t); a, b = e[:-1, None], e[1:, None]; va, vb = v[:-1, None], v[1:, None]
        x, w = cells(M + 2 if geom == "slab" else max(2 * M + 6, 12), e)
        if c["opacity"] != "constant": x, w = cells(max(2 * M + 6, 12), e)
        B, dB = tab(geom, K, x, e)
        T = np.array([O.dBdt(geom, n, x, a, b, va, vb) for n in range(K)])
        BL, BR = tab(geom, K, e[:-1, None], e)[0][:, :, 0], tab(geom, K, e[1:, None], e)[0][:, :, 0]
        W = w if geom == "slab" else w * x * x
        psi = np.einsum("lnk,knq->lnq", U, B)
        tL, tR = np.einsum("lnk,kn->ln", U, BL), np.einsum("lnk,kn->ln", U, BR)
        r = np.einsum("lnq,knq->lnk", psi, T * W) + mus[:, None, None] * np.einsum("lnq,knq->lnk", psi, dB * W)
        bon = c["boundary_source"] and not c["uncollided"] and t <= c["t0"]
        inL = c["boundary_strength"] if bon and c["boundary_on"][0] == 1 else 0.0
        inR = c["boundary_strength"] if bon and c["boundary_on"][1] == 1 else 0.0
        # value of psi on each of the N+1 edges seen from the left and from the right
        left = np.empty((A, N + 1)); right = np.empty((A, N + 1))
        left[:, 1:] = tR; right[:, :-1] = tL; right[:, -1] = inR
        left[:, 0] = inL if geom == "slab" else tL[::-1, 0]
        speed = mus[:, None] - v[None, :]
        area = np.ones(N + 1) if geom == "slab" else e * e
        F = area * speed * np.where(speed >= 0, left, right)
        r = r - (F[:, 1:, None] * BR.T[None] - F[:, :-1, None] * BL.T[None])
        phi = np.einsum("l,lnq->nq", self.wn, psi)
        S = self.moments(t, e)
        if geom == "slab":
            if c["opacity"] != "constant":
                Ks = c["Msigma"] + 1; xd, wd = cells(2 * M + 1, e)
                cs = np.einsum("knq,nq->nk", tab("slab", Ks, xd, e)[0], wd * self.op(xd, t))
                sx = np.einsum("nk,knq->nq", cs, tab("slab", Ks, x, e)[0])
            else: sx = np.ones_like(x)
            r = r + np.einsum("knq,lnq->lnk", B * w * sx, c["sigma_s"] * phi[None] - c["sigma_t"] * psi) + 0.5 * S
            return r.reshape(-1)
        mids = 0.5 * (mus[1:] + mus[:-1]); edge = np.r_[-1, mids, 1]
        g = np.zeros((A + 1,) + psi.shape[1:])
        g[1:-1] = (1 - mids ** 2)[:, None, None] * 0.5 * (psi[1:] + psi[:-1])
        D = (g[1:] - g[:-1]) / np.diff(edge)[:, None, None]
        r = r - np.einsum("knq,lnq->lnk", B * w * x, D) + 0.5 * c["sigma_s"] * S
        mass = np.einsum("knq,jnq->nkj", B * W, B)
        tt = np.einsum("knq,jnq->nkj", T * W, B)
        Mp = tt + tt.transpose(0, 2, 1) + np.einsum("n,kn,jn->nkj", e[1:] ** 2 * v[1:], BR, BR) - np.einsum("n,kn,jn->nkj", e[:-1] ** 2 * v[:-1], BL, BL)
        r = r - np.einsum("nkj,lnj->lnk", Mp, U)
        r = np.linalg.solve(mass[None], r[..., None])[..., 0]
        r = r - c["sigma_t"] * U + c["sigma_s"] * np.einsum("l,lnk->nk", self.wn, U)
        return r.reshape(-1)

    def solve(self, times=None, rtol=1e-7, atol=1e-9, max_step=None):
        """coefficients at each requested time; the integration is restarted where a source is switched off"""
        c = self.c; T = c["tfinal"]; times = [T] if times is None else list(times)
        U = self.initial().reshape(-1); t = 1e-12 if c["uncollided"] else 0.0; out = {}
        stops = sorted(set([min(x, T) for x in times] + ([c["t0"]] if 0 < c["t0"] < T else []) + [T]))
        for s in stops:
            if s > t:
                # stay strictly on one side of the switch-off
                f = self.rhs
                r = solve_ivp(f, (t, s), U, method="DOP853", rtol=rtol, atol=atol * max(c["strength"], c.get("boundary_strength", 0.0) if c["boundary_source"] else 0.0), max_step=max_step or T / 40)
                if not r.success: raise RuntimeError(r.message)
                U = r.y[:, -1]; t = s
            out[s] = U.reshape(self.shape)
        return [out[min(x, T)] for x in times]

    # -- outputs -----------------------------------------------------------------------------------------------------------
    def outputs(self, U, t, xs):
        """(psi (A, n), scalar flux (n,)) at points that are not cell edges"""
        c = self.c; e = self.at(t)[0]
        k = np.clip(np.searchsorted(e, xs) - 1, 0, self.N - 1)
        B = np.array([O.basis(c["geometry"])(n, xs, e[k], e[k + 1]) for n in range(self.K)])
        psi = np.einsum("ljk,kj->lj", U[:, k, :], B)
        phi = self.ws @ psi
        if c["uncollided"]: phi = phi + uncollided(c, xs, t)
        return psi, phi

    def ends(self, U, t):
        e = self.at(t)[0]; g = self.c["geometry"]
        L = O.recon(g, U[:, 0], e[:1], e[0], e[1])[:, 0]; R = O.recon(g, U[:, -1], e[-1:], e[-2], e[-1])[:, 0]
        return np.array([L, R]).T
