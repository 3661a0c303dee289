"""C03: Schmidt quasi-normalised Legendre functions and derivatives."""
import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

mu = cp.model_utils
REQUIRED = ['north pole', 'south pole', 'close to a pole', 'scalar theta',
            'n-d theta', 'high degree', 'nmax=1']


def legendre_ref(nmax, th):
    """P_n^m and dP/dtheta from the solid harmonics at phi = 0."""
    st, ct = R.sind(th), R.cosd(th)
    S = R.solid(nmax, st, 0 * st, ct)
    P = {k: v[0].real for k, v in S.items()}
    dP = {k: (v[1].real * ct - v[3].real * st) for k, v in S.items()}
    return P, dP


def values(ctx):
    """P_n^m and its derivative for random degree and colatitudes, any shape"""
    nmax = ctx.pick(1, 2, 3, ctx.int(4, 30))
    if nmax == 1:
        ctx.hit('nmax=1')
    shape = ctx.pick((), (1,), (5,), (2, 3), (1, 2, 2), (0,))
    n = int(np.prod(shape)) if shape else 1
    th = G.thetas(ctx, n).reshape(shape)
    if shape == ():
        ctx.hit('scalar theta')
        th = ctx.pick(th, float(th))
    elif len(shape) > 1:
        ctx.hit('n-d theta')
    judge(ctx, nmax, th)


def judge(ctx, nmax, th):
    P = ctx.call(mu.legendre_poly, nmax, th)
    ref, dref = legendre_ref(nmax, th)
    shp = np.shape(th)
    ctx.describe(nmax=nmax, theta=np.asarray(th))
    ctx.check(np.shape(P)[2:] == shp and np.shape(P)[:1] >= (nmax + 1,),
              f'legendre_poly: shape {np.shape(P)} for theta shape {shp}')
    got = np.stack([P[n, m] for n in range(1, nmax + 1)
                    for m in range(n + 1)])
    want = np.stack([np.broadcast_to(ref[n, m], shp)
                     for n in range(1, nmax + 1) for m in range(n + 1)])
    ctx.close(got, want, 2e-14 * (nmax + 10), f'P_n^m up to degree {nmax}')
    got = np.stack([P[m, n + 1] for n in range(1, nmax + 1)
                    for m in range(n + 1)])
    want = np.stack([np.broadcast_to(dref[n, m], shp)
                     for n in range(1, nmax + 1) for m in range(n + 1)])
    nn = np.array([n for n in range(1, nmax + 1) for m in range(n + 1)])
    tol = (2e-14 * (nmax + 10) * (nn + 1)).reshape((-1,) + (1,) * len(shp))
    ctx.close(got, want, np.broadcast_to(tol, want.shape),
              f'dP_n^m/dtheta up to degree {nmax}')
    return P


def near_pole(ctx):
    """relative accuracy of P_n^1/sin(theta) arbitrarily close to the poles"""
    nmax = ctx.int(1, 25)
    d = 10.0 ** ctx.uni(-12, -1, 6)
    south = ctx.chance(0.5)
    th = 180.0 - d if south else d
    d = 180.0 - th if south else d          # exact distance to the pole
    ctx.hit('close to a pole')
    P = ctx.call(mu.legendre_poly, nmax, th)
    s = R.sind(d)
    ref, _ = legendre_ref(nmax, d)
    got = np.stack([P[n, 1] for n in range(1, nmax + 1)]) / s
    sign = np.array([(-1.0) ** (n + 1) if south else 1.0
                     for n in range(1, nmax + 1)])[:, None]
    want = sign * np.stack([ref[n, 1] for n in range(1, nmax + 1)]) / s
    n = np.arange(1, nmax + 1)[:, None]
    ctx.close(got, want, 2e-14 * (nmax + 10) * n * n + 0 * want.astype(float),
              'P_n^1/sin(theta) close to the pole')


def high(ctx):
    """degrees 60 to 200 (thorough 300)"""
    nmax = ctx.int(60, 150) if ctx.tier == 'quick' else ctx.int(60, 300)
    ctx.hit('high degree')
    judge(ctx, nmax, G.thetas(ctx, 4))


def identities(ctx):
    """addition theorem, parity and orthogonality (Gauss-Legendre) of the returned table alone"""
    nmax = ctx.int(2, 40)
    th = G.thetas(ctx, 4)
    P = ctx.call(mu.legendre_poly, nmax, th)
    Q = ctx.call(mu.legendre_poly, nmax, 180.0 - th)
    for n in range(1, nmax + 1):
        ctx.close(sum(P[n, m] ** 2 for m in range(n + 1)), np.ones(4),
                  5e-14 * (nmax + 10), f'addition theorem, degree {n}')
        sgn = (-1.0) ** (n + np.arange(n + 1))[:, None]
        ctx.close(Q[n, :n + 1], sgn * P[n, :n + 1], 3e-14 * (nmax + 10),
                  f'parity, degree {n}')
    x, w = np.polynomial.legendre.leggauss(nmax + 1)
    P = ctx.call(mu.legendre_poly, nmax, np.degrees(np.arccos(x)))
    for m in range(0, nmax + 1):
        T = P[max(m, 1):nmax + 1, m]
        M = (T * w) @ T.T
        n = np.arange(max(m, 1), nmax + 1)
        want = np.diag(2.0 / (2 * n + 1) * (1 if m == 0 else 2))
        ctx.close(M, want, 1e-12, f'orthogonality, order {m}')


FAMILIES = [Family('values', values, 2000, 24000),
            Family('near_pole', near_pole, 600, 12000),
            Family('high', high, 20, 240),
            Family('identities', identities, 240, 4000)]
