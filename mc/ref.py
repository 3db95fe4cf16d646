"""Boring reference models, written from the documentation with plain loops.

Nothing here imports the library."""
import cmath
import math

import numpy as np

PI = math.pi


# ---------------------------------------------------------------- geometry
def to_rad(x, unit):
    if unit == 'rad':
        return float(x)
    if unit == 'deg':
        return float(x) * PI / 180.0
    if unit == 'sin':
        return math.asin(float(x))
    raise KeyError(unit)


def from_rad(x, unit):
    if unit == 'rad':
        return float(x)
    if unit == 'deg':
        return float(x) * 180.0 / PI
    return math.sin(float(x))


def pad3(p):
    p = [float(v) for v in p]
    return p + [0.0] * (3 - len(p))


def direction(kind, loc, unit):
    """Unit vector pointing at a far-field source."""
    if kind == 'ff1d':
        t = to_rad(loc, unit)
        return (math.sin(t), math.cos(t), 0.0)
    az, el = to_rad(loc[0], unit), to_rad(loc[1], unit)
    return (math.cos(el) * math.cos(az), math.cos(el) * math.sin(az), math.sin(el))


def phase(kind, loc, unit, pos, pos0, wavelength):
    """Phase of the wave at ``pos`` (positive: arrives earlier)."""
    if kind == 'nf2d':
        s = (float(loc[0]), float(loc[1]), 0.0)
        d = math.dist(s, pos)
        d0 = math.dist(s, pos0)
        return -2 * PI / wavelength * (d - d0)
    u = direction(kind, loc, unit)
    return 2 * PI / wavelength * sum(a * b for a, b in zip(u, pos))


def positions(loc, dims=None):
    return [pad3(p) for p in np.asarray(loc, dtype=float).reshape(len(loc), -1).tolist()]


def add_location_errors(loc, err):
    """Nominal locations + errors; the result has max(d_loc, d_err) columns."""
    loc = np.asarray(loc, dtype=float)
    err = np.asarray(err, dtype=float)
    d = max(loc.shape[1], err.shape[1])
    out = np.zeros((loc.shape[0], d))
    for i in range(loc.shape[0]):
        for j in range(d):
            v = 0.0
            if j < loc.shape[1]:
                v += loc[i, j]
            if j < err.shape[1]:
                v += err[i, j]
            out[i, j] = v
    return out


def steering(loc, kind, srcs, unit, wavelength, perts=(), response=None):
    """perts: ordered list of (type, params); response(r, az, el) -> list of L
    gains, or None for isotropic scalar sensors.
    Returns an (L, M, K) tensor."""
    loc = np.asarray(loc, dtype=float)
    if loc.ndim == 1:
        loc = loc.reshape(-1, 1)
    for t, p in perts:
        if t == 'location_errors':
            loc = add_location_errors(loc, p)
    pos = positions(loc)
    M, K = len(pos), len(srcs)
    # One/two-dimensional arrays lie on the x axis / in the xy plane.
    L = 1 if response is None else len(response(1.0, 0.1, 0.1))
    A = np.zeros((L, M, K), dtype=complex)
    for k in range(K):
        for m in range(M):
            a = cmath.exp(1j * phase(kind, srcs[k], unit, pos[m], pos[0], wavelength))
            if response is None:
                g = [1.0]
            else:
                g = response(*spherical(kind, srcs[k], unit, pos[m]))
            for l in range(L):
                A[l, m, k] = g[l] * a
    for t, p in perts:
        if t == 'location_errors':
            continue
        for l in range(L):
            A[l] = apply_pert(t, p, A[l])
    return A


def apply_pert(t, p, A):
    M, K = A.shape
    out = np.zeros((M, K), dtype=complex)
    p = np.asarray(p)
    for k in range(K):
        for m in range(M):
            if t == 'gain_errors':
                out[m, k] = (1.0 + p[m]) * A[m, k]
            elif t == 'phase_errors':
                out[m, k] = cmath.exp(1j * p[m]) * A[m, k]
            elif t == 'mutual_coupling':
                out[m, k] = sum(p[m, i] * A[i, k] for i in range(M))
            else:
                raise KeyError(t)
    return out


def spherical(kind, loc, unit, ref):
    if kind == 'ff1d':
        return (math.inf, PI / 2 - to_rad(loc, unit), 0.0)
    if kind == 'ff2d':
        return (math.inf, to_rad(loc[0], unit), to_rad(loc[1], unit))
    x, y, z = loc[0] - ref[0], loc[1] - ref[1], -ref[2]
    r = math.sqrt(x * x + y * y + z * z)
    az = math.atan2(y, x)
    el = math.atan2(z, math.hypot(x, y))
    return (r, az, el)


# ------------------------------------------------------------- small utils
def close(a, b, tol=1e-8):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    d = np.abs(a - b)
    s = 1.0 + np.abs(b)
    ok = d <= tol * s
    inf = ~np.isfinite(b.real if np.iscomplexobj(b) else b)
    if inf.any():
        ok = ok | ((a == b) & inf)
    return bool(np.all(ok))


def hermitian(n, seed=0):
    """A fixed, generic Hermitian matrix of order-one entries."""
    M = np.zeros((n, n), dtype=complex)
    for i in range(n):
        for j in range(n):
            M[i, j] = math.sin(1.7 * i + 2.3 * j + 0.4 + seed) + 1j * math.cos(0.9 * i - 1.1 * j + 1.3 * seed)
    return 0.5 * (M + M.conj().T)


def generic(n, m, seed=0, cplx=True):
    M = np.zeros((n, m), dtype=complex)
    for i in range(n):
        for j in range(m):
            M[i, j] = math.sin(1.3 * i + 2.9 * j + 0.7 * seed + 0.3 * i * j) \
                + 1j * math.cos(2.1 * i - 0.8 * j + 1.9 * seed + 0.17 * i * i)
    return M if cplx else M.real.copy()


def herm_pd(n, seed=0, floor=0.5):
    G = generic(n, n, seed)
    R = G @ G.conj().T / n + floor * np.eye(n)
    return 0.5 * (R + R.conj().T)


def noise_projector(R, k):
    """Projector on the eigenvectors of the n-k smallest eigenvalues."""
    w, E = np.linalg.eigh(np.asarray(R))
    order = np.argsort(w)
    En = E[:, order[:len(w) - k]]
    return En @ En.conj().T, w[order]


def central_diff(f, x, h):
    """Fourth-order central difference."""
    return (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)
