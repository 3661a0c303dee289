"""Independent oracles. None of this imports chaosmagpy."""
import math
from fractions import Fraction

import numpy as np

LD = np.longdouble
PI = LD('3.14159265358979323846264338327950288')


def rad(x):
    return np.asarray(x, dtype=LD) * (PI / 180)


def cosd(x):
    return np.cos(rad(x))


def sind(x):
    return np.sin(rad(x))


# -- solid harmonics ----------------------------------------------------------
def solid(nmax, x, y, z):
    """Schmidt quasi-normalised regular solid harmonics S[n][m] (complex, m>=0)
    and Cartesian gradients by differentiating the Cartesian recursion."""
    x, y, z = (np.asarray(v, dtype=LD) for v in (x, y, z))
    shape = np.broadcast(x, y, z).shape
    CL = np.clongdouble
    one = np.ones(shape, dtype=CL)
    zero = np.zeros(shape, dtype=CL)
    w = (x + 1j * y).astype(CL) * one
    r2 = x * x + y * y + z * z
    S = {(0, 0): (one, zero, zero, zero)}
    for m in range(1, nmax + 1):
        f = LD(1) if m == 1 else np.sqrt(LD(2 * m - 1) / LD(2 * m))
        s, sx, sy, sz = S[m - 1, m - 1]
        S[m, m] = (f * w * s, f * (s + w * sx), f * (1j * s + w * sy),
                   f * w * sz)
    for m in range(0, nmax + 1):
        for n in range(m + 1, nmax + 1):
            a = LD(2 * n - 1)
            s, sx, sy, sz = S[n - 1, m]
            v, vx, vy, vz = a * z * s, a * z * sx, a * z * sy, a * (s + z * sz)
            if n - 2 >= m:
                b = np.sqrt(LD((n - 1) ** 2 - m * m))
                s, sx, sy, sz = S[n - 2, m]
                v = v - b * r2 * s
                vx = vx - b * (2 * x * s + r2 * sx)
                vy = vy - b * (2 * y * s + r2 * sy)
                vz = vz - b * (2 * z * s + r2 * sz)
            d = np.sqrt(LD(n * n - m * m))
            S[n, m] = (v / d, vx / d, vy / d, vz / d)
    return S


def coeff_index(nmin, nmax, mmax):
    """List of (n, m) with m < 0 for h, natural order."""
    out = []
    for n in range(nmin, nmax + 1):
        out.append((n, 0))
        for m in range(1, min(n, mmax) + 1):
            out += [(n, m), (n, -m)]
    return out


def local_axes(theta, phi):
    st, ct, sp, c = sind(theta), cosd(theta), sind(phi), cosd(phi)
    z = np.zeros(np.broadcast(st, sp).shape, dtype=LD)
    er = np.stack([st * c + z, st * sp + z, ct + z])
    et = np.stack([ct * c + z, ct * sp + z, -st + z])
    ep = np.stack([-sp + z, c + z, z])
    return er, et, ep


def field_design(r, theta, phi, index, source, r_surf):
    """Field of unit coefficients: three arrays, shape points + (len(index),).
    r, theta, phi are broadcast together first."""
    r, theta, phi = np.broadcast_arrays(*(np.asarray(v, dtype=LD)
                                          for v in (r, theta, phi)))
    rho = r / LD(r_surf)
    er, et, ep = local_axes(theta, phi)
    nmax = max(n for n, _ in index)
    S = solid(nmax, er[0], er[1], er[2])     # on the unit sphere
    out = [np.empty(r.shape + (len(index),), dtype=LD) for _ in range(3)]
    for k, (n, m) in enumerate(index):
        part = np.real if m >= 0 else np.imag
        s, sx, sy, sz = (part(v) for v in S[n, abs(m)])
        g = np.stack([sx, sy, sz])
        if source == 'internal':
            g = (g - (2 * n + 1) * s * er) * rho ** LD(-(n + 2))
        else:
            g = g * rho ** LD(n - 1)
        for o, e in zip(out, (er, et, ep)):
            o[..., k] = -(g * e).sum(axis=0)
    return out


def potential(theta, phi, coeffs, index=None):
    """sum of coefficient times surface harmonic."""
    if index is None:
        nmax = int(round(math.sqrt(len(coeffs) + 1))) - 1
        index = coeff_index(1, nmax, nmax)
    er, _, _ = local_axes(theta, phi)
    S = solid(max(n for n, _ in index), er[0], er[1], er[2])
    V = np.zeros(er.shape[1:], dtype=LD)
    for c, (n, m) in zip(coeffs, index):
        V = V + c * (S[n, m][0].real if m >= 0 else S[n, -m][0].imag)
    return V


def surface_design(theta, phi, index):
    er, _, _ = local_axes(theta, phi)
    S = solid(max(n for n, _ in index), er[0], er[1], er[2])
    return np.stack([S[n, m][0].real if m >= 0 else S[n, -m][0].imag
                     for n, m in index], axis=-1)


# -- piecewise polynomials ----------------------------------------------------
def pp_piece(breaks, t):
    """Index of the piece that contains t (right-continuous, end closed)."""
    b = np.asarray(breaks, dtype=float)
    i = int(np.searchsorted(b, t, side='right')) - 1
    return min(max(i, 0), len(b) - 2)


def poly_deriv(c, dt, k):
    """k-th derivative at dt of sum_i c[i] dt^(K-1-i); c has shape (K, D)."""
    K = c.shape[0]
    out = np.zeros(c.shape[1:], dtype=LD)
    for i in range(K):
        p = K - 1 - i
        if p >= k:
            out = out + c[i].astype(LD) * (
                math.factorial(p) // math.factorial(p - k)) * LD(dt) ** (p - k)
    return out


def poly_scale(c, dt, k):
    return np.asarray(poly_deriv(np.abs(c), abs(dt), k), dtype=float)


def pp_eval(breaks, coeffs, t, deriv=0, terms=None):
    """Value and magnitude scale of the piecewise polynomial at scalar t; for t
    outside the breaks Taylor expansion with `terms` terms about the nearer
    end (terms=0 gives NaN); derivative per 365.25-day year."""
    b = np.asarray(breaks, dtype=float)
    K = coeffs.shape[0]
    scale_y = LD('365.25') ** deriv
    if b[0] <= t <= b[-1]:
        i = pp_piece(b, t)
        dt = LD(t) - LD(b[i])
        c = coeffs[:, i]
        return (poly_deriv(c, dt, deriv) * scale_y,
                poly_scale(c, float(dt), deriv) * float(scale_y))
    if not terms:
        nan = np.full(coeffs.shape[2:], np.nan)
        return nan, np.ones(coeffs.shape[2:])
    terms = min(terms, K)
    x = b[0] if t < b[0] else b[-1]
    i = 0 if t < b[0] else len(b) - 2
    dt0 = LD(x) - LD(b[i])
    dt = LD(t) - LD(x)
    val = np.zeros(coeffs.shape[2:], dtype=LD)
    sc = np.zeros(coeffs.shape[2:])
    for k in range(deriv, terms):
        f = dt ** (k - deriv) / math.factorial(k - deriv)
        val = val + poly_deriv(coeffs[:, i], dt0, k) * f
        sc = sc + poly_scale(coeffs[:, i], float(dt0), k) * abs(float(f))
    return val * scale_y, sc * float(scale_y)


def pp_scale_day(breaks, coeffs, t):
    """Bound of the slope per day at t."""
    if coeffs.shape[0] == 1:
        return 0.0
    return float(np.max(pp_eval(breaks, coeffs, t, 1)[1])) / 365.25


# -- B-splines (Cox-de Boor from the definition) --------------------------------
def bspline_basis(knots, order, t):
    """All basis functions of the order at scalar t; the last non-empty
    interval is closed. Exact rational-free long double recursion."""
    k = np.asarray(knots, dtype=LD)
    n = len(k)
    t = LD(t)
    B = np.zeros(n - 1, dtype=LD)
    if k[0] <= t <= k[-1]:
        i = int(np.searchsorted(k, t, side='right')) - 1
        while i >= n - 1 or k[i] == k[i + 1]:
            i -= 1
        B[i] = 1
    for p in range(2, order + 1):
        N = np.zeros(n - p, dtype=LD)
        for i in range(n - p):
            v = LD(0)
            if k[i + p - 1] > k[i]:
                v += (t - k[i]) / (k[i + p - 1] - k[i]) * B[i]
            if k[i + p] > k[i + 1]:
                v += (k[i + p] - t) / (k[i + p] - k[i + 1]) * B[i + 1]
            N[i] = v
        B = N
    return B


def bspline_deriv_matrix(knots, order):
    """Matrix mapping coefficients of the order-K spline to those of its
    derivative (order K-1 on the same knots)."""
    k = np.asarray(knots, dtype=LD)
    nb = len(k) - order
    D = np.zeros((nb + 1, nb), dtype=LD)
    for i in range(nb + 1):
        den = k[i + order - 1] - k[i] if i + order - 1 < len(k) else LD(0)
        if den > 0:
            if i < nb:
                D[i, i] += (order - 1) / den
            if i - 1 >= 0:
                D[i, i - 1] -= (order - 1) / den
    return D


def bspline_row(knots, order, t, deriv=0):
    """Derivatives of all basis functions at t."""
    nb = len(knots) - order
    if deriv >= order:
        return np.zeros(nb, dtype=LD)
    M = np.eye(nb, dtype=LD)
    o = order
    for _ in range(deriv):
        M = bspline_deriv_matrix(knots, o).dot(M)
        o -= 1
    return bspline_basis(knots, o, t).dot(M)


# -- calendar -------------------------------------------------------------------
def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days_from_civil(y, m, d):
    """Days since 2000-01-01, proleptic Gregorian, integer arithmetic."""
    y2 = y - (m <= 2)
    era = y2 // 400
    yoe = y2 - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 730425


def civil_from_days(z):
    z += 730425
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + (3 if mp < 10 else -9)
    return yoe + era * 400 + (m <= 2), m, d


def dim(y, m):
    return [31, 29 if is_leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30,
            31][m - 1]


def dyear_to_mjd(dy, leap_year):
    """Exact rational conversion of a float decimal year."""
    f = Fraction(float(dy))
    if not leap_year:
        return (f - 2000) * Fraction(36525, 100)
    y = math.floor(f)
    return days_from_civil(y, 1, 1) + (f - y) * (366 if is_leap(y) else 365)


def mjd_to_dyear(mjd, leap_year):
    f = Fraction(float(mjd))
    if not leap_year:
        return f / Fraction(36525, 100) + 2000
    y, _, _ = civil_from_days(math.floor(f))
    d0 = days_from_civil(y, 1, 1)
    return y + (f - d0) / (366 if is_leap(y) else 365)


# -- Sun (Astronomical Almanac low-precision formulas, J2000) --------------------
def sun_vector(mjd):
    """Unit vector to the Sun in geographic (Earth-fixed) coordinates."""
    n = np.asarray(mjd, dtype=LD) - LD('0.5')      # days since J2000.0
    L = LD('280.460') + LD('0.9856474') * n
    g = LD('357.528') + LD('0.9856003') * n
    lam = L + LD('1.915') * sind(g) + LD('0.020') * sind(2 * g)
    eps = LD('23.439') - LD('0.0000004') * n
    x, y, z = cosd(lam), cosd(eps) * sind(lam), sind(eps) * sind(lam)
    gmst = LD('280.46061837') + LD('360.98564736629') * n
    cg, sg = cosd(gmst), sind(gmst)
    return np.stack([cg * x + sg * y, -sg * x + cg * y, z], axis=-1)


def sun_vector_meeus(mjd):
    """Unit vector to the Sun, Earth-fixed (Meeus, Astronomical Algorithms,
    chapters 12 and 25), good to about 0.003 degrees."""
    d = np.asarray(mjd, dtype=LD) - LD('0.5')
    T = d / 36525
    L0 = LD('280.46646') + LD('36000.76983') * T + LD('0.0003032') * T * T
    M = LD('357.52911') + LD('35999.05029') * T - LD('0.0001537') * T * T
    C = ((LD('1.914602') - LD('0.004817') * T - LD('0.000014') * T * T)
         * sind(M) + (LD('0.019993') - LD('0.000101') * T) * sind(2 * M)
         + LD('0.000289') * sind(3 * M))
    om = LD('125.04') - LD('1934.136') * T
    lam = L0 + C - LD('0.00569') - LD('0.00478') * sind(om)
    eps = LD('23.4392911') - LD('0.0130042') * T + LD('0.00256') * cosd(om)
    x, y, z = cosd(lam), cosd(eps) * sind(lam), sind(eps) * sind(lam)
    gst = (LD('280.46061837') + LD('360.98564736629') * d
           + LD('0.000387933') * T * T - LD('0.00478') * sind(om) * cosd(eps))
    cg, sg = cosd(gst), sind(gst)
    return np.stack([cg * x + sg * y, -sg * x + cg * y, z], axis=-1)


def unit(theta, phi):
    st = sind(theta)
    return np.stack(np.broadcast_arrays(st * cosd(phi), st * sind(phi),
                                        cosd(theta)), axis=-1)


def angle(u, v):
    """Angle in degrees between unit vectors, accurate for small angles."""
    u, v = np.broadcast_arrays(np.asarray(u, LD), np.asarray(v, LD))
    c = np.linalg.norm(np.cross(u.astype(float), v.astype(float)), axis=-1)
    d = (u * v).sum(axis=-1).astype(float)
    return np.degrees(np.arctan2(c, d))
