"""C12: spherical-harmonic rotation and analysis preserve the function."""
import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

cu = cp.coordinate_utils
REQUIRED = ['nmax > kmax', 'nmax < kmax', 'nmax = kmax', 'array of bases',
            '2-d array of bases', 'axis-permuting base', 'improper kmax',
            'composition', 'inverse', 'kmax default', 'kmax > nmax analysis',
            'model field analysed', 'complementary degrees present',
            'gsm frame', 'identity base', 'pole on a quadrature node']
ASSUMPTIONS = ['floating-point rounding is bounded by 1e-11 times the size '
               'of the coefficients (observed below 1e-13)']


def bases(ctx, shape):
    n = int(np.prod(shape)) if shape else 1
    M = np.stack([G.random_rotation(ctx) for _ in range(n)])
    if np.any(np.abs(M).max(axis=(1, 2)) == 1.0):
        ctx.hit('axis-permuting base')
    if np.any(np.all(M == np.eye(3), axis=(1, 2))):
        ctx.hit('identity base')
    return M.reshape(shape + (3, 3))


def rotate(ctx, nmax, kmax, M):
    """Rows of M are the base vectors."""
    return ctx.call(cu.rotate_gauss, nmax, kmax, M[..., 0, :], M[..., 1, :],
                    M[..., 2, :])


def frame_angles(M, u):
    """Colatitude and longitude of unit vectors u in the frame with rows M."""
    v = np.einsum('ij,pj->pi', M.astype(R.LD), u.astype(R.LD))
    th = np.degrees(np.arctan2(np.hypot(v[:, 0], v[:, 1]), v[:, 2]))
    return th, np.degrees(np.arctan2(v[:, 1], v[:, 0]))


def pointwise(ctx):
    """the rotated coefficients define the same function at every point"""
    nmax = ctx.int(1, 9)
    kmax = nmax if ctx.chance(0.4) else ctx.int(1, 9)
    big = ctx.chance(0.004)
    if big:
        nmax, kmax = ctx.pick((12, 12), (3, 17), (16, 2), (13, 14))
    ctx.hit('nmax > kmax' if nmax > kmax else 'nmax < kmax' if nmax < kmax
            else 'nmax = kmax')
    shape = () if big else ctx.pick((), (), (1,), (3,), (2, 2))
    if shape:
        ctx.hit('array of bases' if len(shape) == 1 else '2-d array of bases')
    if ctx.chance(0.2):
        ctx.hit('gsm frame')
        t = ctx.uni(-3000, 9000, shape)
        ref = ctx.pick(cu.basevectors_gsm, cu.basevectors_sm)
        M = np.stack(ctx.call(ref, np.asarray(t)), axis=-2)
    else:
        M = bases(ctx, shape)
    if ctx.chance(0.1):
        # put the pole of the frame on a node of any Gauss-Legendre grid of
        # the size that exact quadrature needs
        n = int((nmax + kmax + 1) / 2) + 1
        x = np.polynomial.legendre.leggauss(n)[0][ctx.int(0, n - 1)]
        j = ctx.int(0, 2 * n - 1)
        th, ph = np.degrees(np.arccos(x)), 180.0 * j / n
        e3 = R.unit(th, ph).astype(float)
        e2 = np.cross(e3, ctx.rng.normal(size=3))
        e2 /= np.linalg.norm(e2)
        M = M.copy()
        M[(0,) * len(shape)] = np.stack([np.cross(e2, e3), e2, e3])
        ctx.hit('pole on a quadrature node')
    lo = min(nmax, kmax)
    idx = R.coeff_index(1, kmax, kmax)
    c = ctx.rng.normal(size=len(idx))
    if nmax > kmax:
        ctx.hit('improper kmax')
    ctx.describe(nmax=nmax, kmax=kmax, bases=M, coeffs=c)
    T = rotate(ctx, nmax, kmax, M)
    ctx.equal(T.shape, shape + (nmax * (nmax + 2), kmax * (kmax + 2)),
              'shape of the rotation matrix')
    npt = 12
    th, ph = G.thetas(ctx, npt), G.phis(ctx, npt)
    u = R.unit(th, ph)
    A = R.surface_design(th, ph, R.coeff_index(1, nmax, nmax))
    for i in np.ndindex(shape):
        a, b = frame_angles(M[i], u)
        B = R.surface_design(a, b, idx)
        # degrees above nmax are not representable; the others must agree
        if kmax > nmax:
            ctx.hit('complementary degrees present')
        nk = lo * (lo + 2)
        ctx.close(A @ (T[i] @ c), B[:, :nk] @ c[:nk], 1e-11,
                  'value of the rotated function')
        # degree by degree: block diagonal
        for n in range(1, lo + 1):
            s = slice(n * n - 1, n * (n + 2))
            ctx.close(A[:, s] @ (T[i][s] @ c), B[:, s] @ c[s], 1e-11,
                      f'degree {n} of the rotated function')


def algebra(ctx):
    """block diagonal in degree, orthogonal blocks, composition and inverse"""
    nmax = ctx.int(1, 8)
    kmax = nmax if ctx.chance(0.5) else ctx.int(1, 8)
    M = bases(ctx, ())
    ctx.describe(nmax=nmax, kmax=kmax, base=M)
    T = rotate(ctx, nmax, kmax, M)
    n_row = np.array([n for n, _ in R.coeff_index(1, nmax, nmax)])
    n_col = np.array([n for n, _ in R.coeff_index(1, kmax, kmax)])
    off = n_row[:, None] != n_col[None, :]
    ctx.close(T[off], np.zeros(off.sum()), 1e-12, 'off-diagonal blocks')
    for n in range(1, min(nmax, kmax) + 1):
        s = slice(n * n - 1, n * (n + 2))
        D = T[s, s]
        ctx.close(D @ D.T, np.eye(2 * n + 1), 1e-12, f'D D^T of degree {n}')
        ctx.close(D.T @ D, np.eye(2 * n + 1), 1e-12, f'D^T D of degree {n}')
    n = min(nmax, kmax)
    T = rotate(ctx, n, n, M)
    # inverse: the geographic axes expressed in the rotated frame
    ctx.hit('inverse')
    ctx.close(rotate(ctx, n, n, M.T), T.T, 1e-12, 'inverse rotation')
    M2 = bases(ctx, ())
    # frame 2 is given in frame 1: rows of M2 @ M in geographic coordinates
    T2 = rotate(ctx, n, n, M2)
    ctx.hit('composition')
    ctx.close(rotate(ctx, n, n, M2 @ M), T @ T2, 1e-12, 'composition')
    # degree one is the 3x3 rotation itself
    P = [2, 0, 1]                        # g10 ~ z, g11 ~ x, h11 ~ y
    ctx.close(T[:3, :3], M.T[np.ix_(P, P)], 1e-12, 'degree-one block')


def analysis(ctx):
    """sh_analysis recovers the coefficients of a band-limited function"""
    nmax = ctx.int(1, 14)
    kw = {}
    band = nmax
    if ctx.chance(0.6):
        kw['kmax'] = ctx.int(1, 18)
        band = max(nmax, kw['kmax'])
        if kw['kmax'] > nmax:
            ctx.hit('kmax > nmax analysis')
    else:
        ctx.hit('kmax default')
    L = band if ctx.chance(0.7) else ctx.int(1, band)
    idx = R.coeff_index(1, L, L)
    c = G.coeff_vector(ctx, idx)
    mean = ctx.pick(0.0, 0.0, 25.0)
    seen = []

    if ctx.chance(0.25):
        # the radial field of a model is (n+1) times the potential at r_surf
        ctx.hit('model field analysed')
        r0 = cp.basicConfig['params.r_surf']
        fac = np.array([n + 1.0 for n, _ in idx])
        mean = 0.0

        def func(theta, phi):
            seen.append((theta, phi))
            return cp.model_utils.synth_values(c / fac, r0, theta, phi)[0]
    else:
        def func(theta, phi):
            seen.append((theta, phi))
            return (R.potential(theta, phi, c, idx) + mean).astype(float)

    ctx.describe(nmax=nmax, L=L, coeffs=c, **kw)
    got = ctx.call(cu.sh_analysis, func, nmax, **kw)
    want = np.zeros(nmax * (nmax + 2))
    k = min(want.size, c.size)
    want[:k] = c[:k]
    ctx.close(got, want, 1e-11 * (1 + abs(mean) + np.abs(c).sum()),
              'analysed coefficients')
    th, ph = np.broadcast_arrays(*seen[0])
    ctx.check(np.all((th > 0) & (th < 180)), 'colatitudes handed to func')


FAMILIES = [Family('pointwise', pointwise, 1200, 12000),
            Family('algebra', algebra, 640, 6400),
            Family('analysis', analysis, 2000, 20000)]
