"""Independent reference mathematics (numpy/scipy only; shares no code with the repository)."""
import numpy as np, math
from numpy.polynomial import legendre as Lg, chebyshev as Ch

def gl(n, a=-1.0, b=1.0):
    x, w = Lg.leggauss(n)
    return 0.5 * (b - a) * x + 0.5 * (a + b), 0.5 * (b - a) * w

def Bleg(n, x, a, b):
    z = (2 * np.asarray(x, float) - a - b) / (b - a)
    return np.sqrt((2 * n + 1) / (b - a)) * Lg.legval(z, np.eye(n + 1)[n])

def dBleg(n, x, a, b):
    z = (2 * np.asarray(x, float) - a - b) / (b - a)
    return np.sqrt((2 * n + 1) / (b - a)) * Lg.legval(z, Lg.legder(np.eye(n + 1)[n])) * 2 / (b - a)

def Bche(n, x, a, b):
    z = (2 * np.asarray(x, float) - a - b) / (b - a)
    f = np.sqrt((1.0 if n == 0 else 2.0) / (math.pi * (b - a)))
    return f * Ch.chebval(z, np.eye(n + 1)[n])

def dBche(n, x, a, b):
    z = (2 * np.asarray(x, float) - a - b) / (b - a)
    f = np.sqrt((1.0 if n == 0 else 2.0) / (math.pi * (b - a)))
    return f * (Ch.chebval(z, Ch.chebder(np.eye(n + 1)[n])) if n else 0 * z) * 2 / (b - a)

def basis(geom): return Bleg if geom == "slab" else Bche
def dbasis(geom): return dBleg if geom == "slab" else dBche

def dBdt(geom, n, x, a, b, da, db):
    """time derivative at fixed x of the n-th basis function of the cell [a(t),b(t)]"""
    B, dB = basis(geom)(n, x, a, b), dbasis(geom)(n, x, a, b)
    h, dh = b - a, db - da
    # B = h^-1/2 f(z), z=(2x-a-b)/h ; dz/dt = -(da+db)/h - z dh/h ; dB/dx = B_z 2/h
    z = (2 * np.asarray(x, float) - a - b) / h
    return -0.5 * dh / h * B + dB * (h / 2) * (-(da + db) / h - z * dh / h)

def recon(geom, coef, x, a, b):
    """sum_n coef[n] B_n(x); coef (...,M+1)"""
    M = coef.shape[-1]
    Bs = np.array([basis(geom)(n, x, a, b) for n in range(M)])
    return np.tensordot(coef, Bs, axes=([-1], [0]))

def gram(geom, a, b, M, weight, f, g, n=40):
    x, w = gl(n, a, b)
    F = np.array([f(i, x) for i in range(M + 1)]); G = np.array([g(i, x) for i in range(M + 1)])
    return (F * (w * weight(x))) @ G.T

def cell_mass(geom, coef, a, b):
    """integral of psi over the cell with the geometry's volume weight; coef (...,M+1)"""
    x, w = gl(coef.shape[-1] + 4, a, b)
    wt = w if geom == "slab" else w * x * x
    return recon(geom, coef, x, a, b) @ wt
