"""C21: power spectra, degree correlation and sensitivity."""
import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

mu = cp.model_utils
REQUIRED = ['internal', 'external', 'toroidal', 'axis 0', 'last axis',
            'middle axis', 'nmax smaller', 'nmax too large', 'radius default',
            'other r_surf', 'inside the core', 'scalar time', 'array of times',
            'deriv', 'model source external', 'extrapolated', 'proportional',
            'opposite', 'not a vector', 'unequal length', 'unknown source',
            'one-hot', 'high degree', 'float32', 'integer', 'CHAOS model',
            'degree with no power', 'non-contiguous']


def grid(n):
    """Gauss-Legendre nodes exact for squares of degree n fields."""
    x, w = np.polynomial.legendre.leggauss(n + 1)
    th = np.degrees(np.arccos(x))
    ph = np.arange(2 * n + 2) * 360. / (2 * n + 2)
    T, P = np.meshgrid(th, ph, indexing='ij')
    W = np.repeat(w[:, None] / 2 / ph.size, ph.size, axis=1)
    return T, P, W


def formula(c, radius, a, source):
    """Spectrum along the last axis, in long double."""
    c = np.asarray(c, dtype=R.LD)
    N = int(round(np.sqrt(c.shape[-1] + 1))) - 1
    out = np.empty(c.shape[:-1] + (N,), dtype=R.LD)
    for n in range(1, N + 1):
        s = (c[..., n * n - 1:n * n + 2 * n] ** 2).sum(axis=-1)
        if source == 'internal':
            f = (n + 1) * (R.LD(a) / R.LD(radius)) ** (2 * n + 4)
        elif source == 'external':
            f = n * (R.LD(radius) / R.LD(a)) ** (2 * n - 2)
        else:
            f = R.LD(n * (n + 1)) / (2 * n + 1)
        out[..., n - 1] = f * s
    return out


def sphere(ctx):
    """the spectrum is the mean square field over the sphere, by quadrature of the field from an independent synthesis"""
    N = ctx.int(1, 7)
    src = ctx.pick('internal', 'external', 'toroidal')
    ctx.hit(src)
    idx = R.coeff_index(1, N, N)
    c = G.coeff_vector(ctx, idx)
    if np.count_nonzero(c) == 1:
        ctx.hit('one-hot')
    a = cp.basicConfig['params.r_surf']
    if ctx.chance(0.3):
        ctx.hit('other r_surf')
        a = cp.basicConfig['params.r_surf'] = float(ctx.uni(3000, 9000))
    kw = {}
    if ctx.chance(0.25):
        ctx.hit('radius default')
        r = a
    else:
        r = kw['radius'] = float(ctx.pick(3485., a, 2 * a, ctx.uni(2000,
                                                                  20000)))
        if r < 3500:
            ctx.hit('inside the core')
    if src != 'internal' or ctx.chance(0.5):
        kw['source'] = src
    T, P, W = grid(N)
    ctx.describe(N=N, kw=kw, a=a, coeffs=c)
    W_n = ctx.call(mu.power_spectrum, c.copy(), **kw)
    D = R.field_design(a if src == 'toroidal' else r, T, P, idx,
                       'internal' if src == 'toroidal' else src, a)
    want = np.empty(N)
    for n in range(1, N + 1):
        s = slice(n * n - 1, n * n + 2 * n)
        B = [(d[..., s] * c[s]).sum(axis=-1) for d in D]
        sq = sum(b ** 2 for b in (B[1:] if src == 'toroidal' else B))
        want[n - 1] = (sq * W).sum()
    ctx.close(W_n, want, 1e-12 * np.abs(want) + 1e-300, 'spectrum')


def axes(ctx):
    """any axis, shape, dtype, memory order and truncation"""
    N = ctx.int(1, 30) if ctx.chance(0.3) else ctx.int(1, 6)
    if N > 20:
        ctx.hit('high degree')
    k = N * (N + 2)
    other = list(ctx.pick((), (3,), (2, 3), (2, 1, 2)))
    ax = ctx.int(0, len(other))
    shape = other[:ax] + [k] + other[ax:]
    c = ctx.rng.normal(size=shape) * 10 ** ctx.uni(-3, 4)
    kind = ctx.int(0, 3)
    if kind == 0:
        ctx.hit('float32')
        c = c.astype(np.float32)
    elif kind == 1:
        ctx.hit('integer')
        c = np.rint(c).astype(np.int64)
    elif kind == 2:
        ctx.hit('non-contiguous')
        c = np.asfortranarray(c)[::-1] if ax != 0 else np.asfortranarray(c)
    src = ctx.pick('internal', 'external', 'toroidal')
    kw = dict(source=src)
    r = float(ctx.uni(3000, 9000))
    if ctx.chance(0.5):
        kw['axis'] = ctx.pick(ax, ax - len(shape))
    elif ax != len(shape) - 1:
        kw['axis'] = ax
    ctx.hit('last axis' if ax == len(shape) - 1 else 'axis 0' if ax == 0
            else 'middle axis')
    nmax = N
    u = ctx.rng.random()
    if u < 0.3:
        nmax = kw['nmax'] = ctx.int(1, N)
        if nmax < N:
            ctx.hit('nmax smaller')
    elif u < 0.45:
        ctx.hit('nmax too large')
        kw['nmax'] = N + ctx.int(1, 3)
    ctx.describe(shape=shape, kw=kw, r=r)
    got = ctx.call(mu.power_spectrum, c, r, **kw)
    w = np.moveaxis(formula(np.moveaxis(c, ax, -1), r,
                            cp.basicConfig['params.r_surf'], src)[..., :nmax],
                    -1, ax)
    eps = 4e-6 if c.dtype == np.float32 else 1e-12
    ctx.close(got, w, eps * np.abs(w.astype(float)) + 1e-300,
              'spectrum along the axis')
    if ctx.chance(0.2):
        ctx.hit('unknown source')
        ctx.rejects(mu.power_spectrum, c, r, source=ctx.pick(
            'Internal', 'all', 'poloidal', ''))


def model(ctx):
    """BaseModel.power_spectrum is the spectrum of the coefficients at the time, with the source of the model"""
    N = ctx.int(1, 5)
    order, pieces = ctx.int(1, 5), ctx.int(1, 5)
    b = G.breaks(ctx, pieces)
    co = G.pp_coeffs(ctx, order, b, N * (N + 2))
    src = ctx.pick('internal', 'external')
    if ctx.chance(0.3):
        ctx.hit('CHAOS model')
        spec = G.chaos_spec(ctx, n_tdep=N, order=order, pieces=pieces)
        b, co, src = spec['breaks'], spec['coeffs_tdep'], 'internal'
        m = G.build_chaos(ctx, spec).model_tdep
    else:
        m = ctx.call(cp.chaos.BaseModel, 'm', b, order, co, source=src)
    if src == 'external':
        ctx.hit('model source external')
    kw = {}
    nmax, deriv = N, 0
    if ctx.chance(0.5):
        nmax = kw['nmax'] = ctx.int(1, N)
        if nmax < N:
            ctx.hit('nmax smaller')
    if ctx.chance(0.5):
        ctx.hit('deriv')
        deriv = kw['deriv'] = ctx.int(0, order)
    n = ctx.int(1, 4)
    t = G.times_in(ctx, b, n, outside=ctx.pick(0, 0.3))
    terms = 2
    if ctx.chance(0.3):
        kw['extrapolate'], terms = ctx.pick(('constant', 1), ('cubic', 4),
                                            ('quadratic', 3))
    if np.any((t < b[0]) | (t > b[-1])):
        ctx.hit('extrapolated')
    if ctx.chance(0.3):
        ctx.hit('scalar time')
        t = float(t[0])
    else:
        ctx.hit('array of times')
        if n == 4:
            t = t.reshape(2, 2)
    a = cp.basicConfig['params.r_surf']
    if ctx.chance(0.3):
        ctx.hit('other r_surf')
        a = cp.basicConfig['params.r_surf'] = float(ctx.uni(3000, 9000))
    args = []
    if ctx.chance(0.4):
        ctx.hit('radius default')
        r = a
    else:
        r = float(ctx.uni(3000, 9000))
        args = [r]
    ctx.describe(N=N, order=order, kw=kw, t=t, r=r)
    got = ctx.call(m.power_spectrum, t, *args, **kw)
    k = nmax * (nmax + 2)
    ref = [R.pp_eval(b, co[..., :k], float(x), deriv, terms)
           for x in np.ravel(t)]
    c = np.reshape([v for v, _ in ref], np.shape(t) + (k,))
    s = np.reshape([v for _, v in ref], np.shape(t) + (k,)).astype(float)
    want = formula(c, r, a, src)
    tol = formula(np.sqrt(2 * (np.abs(np.asarray(c, float)) + 1e-12 * s)
                          * 1e-11 * s), r, a, src).astype(float)
    # times on a break or rounded: allow the slope over one rounding of time
    ctx.close(got, want, 1e-11 * np.abs(want.astype(float)) + tol
              + formula(1e-11 * s, r, a, src).astype(float) + 1e-300,
              'spectrum of the model')


def correlation(ctx):
    """normalised inner product per degree: within [-1, 1], symmetric, scale free, one for proportional vectors"""
    N = ctx.int(1, 15)
    k = N * (N + 2)
    c1, c2 = ctx.rng.normal(size=(2, k)) * 10 ** ctx.uni(-4, 4, (2, 1))
    if ctx.chance(0.3):
        c1, c2 = (np.where(c == 0, 1.0, c) for c in (np.rint(c1 * 100),
                                                     np.rint(c2 * 100)))
        ctx.hit('integer')
        if np.abs(c1).max() < 1e6 and np.abs(c2).max() < 1e6:
            c1, c2 = c1.astype(int), c2.astype(int)
    for n in range(1, N + 1):
        if ctx.chance(0.2) and n > 1:
            # orthogonal degree
            s = slice(n * n - 1, n * n + 2 * n)
            if c1.dtype.kind == 'f' and c2.dtype.kind == 'f':
                c2[s] -= c1[s] * (c1[s] @ c2[s]) / (c1[s] @ c1[s])
    zero = None
    if ctx.chance(0.2):
        ctx.hit('degree with no power')
        zero = ctx.int(1, N)
        c1[zero * zero - 1:zero * zero + 2 * zero] = 0
    ctx.describe(c1=c1, c2=c2, zero=zero)
    with np.errstate(all='ignore'):
        got = ctx.call(mu.degree_correlation, c1, c2)
        back = ctx.call(mu.degree_correlation, c2, c1)
    want = np.empty(N)
    for n in range(1, N + 1):
        u, v = (np.asarray(c[n * n - 1:n * n + 2 * n], R.LD)
                for c in (c1, c2))
        d = np.sqrt((u * u).sum() * (v * v).sum())
        want[n - 1] = (u * v).sum() / d if d > 0 else np.nan
    ok = np.isfinite(want)
    ctx.equal(np.shape(got), (N,), 'shape')
    ctx.close(got[ok], want[ok], 2e-13, 'degree correlation')
    ctx.close(back[ok], got[ok], 1e-14, 'symmetry')
    ctx.check(np.all(np.abs(got[ok]) <= 1 + 1e-13), 'within [-1, 1]')
    if zero is not None:
        ctx.check(not np.isfinite(got[zero - 1]), 'correlation of a degree '
                  f'without power is {got[zero - 1]}')
    else:
        f = float(ctx.pick(1e-3, 1.0, 77.0))
        ctx.hit('proportional', 'opposite')
        ctx.close(ctx.call(mu.degree_correlation, c1, f * c1), np.ones(N),
                  1e-13, 'proportional vectors')
        ctx.close(ctx.call(mu.degree_correlation, -f * c2, c2), -np.ones(N),
                  1e-13, 'opposite vectors')
    bad(ctx, mu.degree_correlation, c1, c2)


def bad(ctx, fn, c1, c2):
    if ctx.chance(0.5):
        ctx.hit('not a vector')
        ctx.rejects(fn, *ctx.pick((c1[None], c2), (c1, c2[:, None]),
                                  (c1[None], c2[None]),
                                  (np.asarray(c1[0]), np.asarray(c2[0]))))
    else:
        ctx.hit('unequal length')
        ctx.rejects(fn, *ctx.pick((c1[:-1], c2), (c1, c2[:3] if c2.size > 3
                                                  else c2[:1])))


def sensitivity(ctx):
    """error of each coefficient divided by the root mean square true coefficient of its degree"""
    N = ctx.int(1, 15)
    k = N * (N + 2)
    true = ctx.rng.normal(size=k) * 10 ** ctx.uni(-4, 4)
    c = true * ctx.pick(0, 1) + ctx.rng.normal(size=k) * 10 ** ctx.uni(-4, 4)
    if ctx.chance(0.2):
        ctx.hit('one-hot')
        c = true.copy()
        c[ctx.int(0, k - 1)] += 1.0
    zero = None
    if ctx.chance(0.2):
        ctx.hit('degree with no power')
        zero = ctx.int(1, N)
        true[zero * zero - 1:zero * zero + 2 * zero] = 0
    ctx.describe(c=c, true=true)
    with np.errstate(all='ignore'):
        got = ctx.call(mu.sensitivity, c, true)
    want = np.empty(k)
    tol = np.empty(k)
    for n in range(1, N + 1):
        s = slice(n * n - 1, n * n + 2 * n)
        u, v = np.asarray(c[s], R.LD), np.asarray(true[s], R.LD)
        rms = np.sqrt((v * v).sum() / (2 * n + 1))
        with np.errstate(all='ignore'):
            want[s] = (u - v) / rms
            tol[s] = 1e-13 * (np.abs(u) + np.abs(v)) / rms
    ok = np.isfinite(want)
    ctx.equal(np.shape(got), (k,), 'shape')
    ctx.close(got[ok], want[ok], tol[ok] + 1e-300, 'sensitivity')
    if zero is not None:
        ctx.check(not np.isfinite(got[zero * zero - 1]) or
                  c[zero * zero - 1] == 0, 'degree without power')
    bad(ctx, mu.sensitivity, c, true)


FAMILIES = [Family('sphere', sphere, 3200, 32000),
            Family('axes', axes, 10000, 120000),
            Family('model', model, 6000, 60000),
            Family('correlation', correlation, 8000, 80000),
            Family('sensitivity', sensitivity, 8000, 80000)]
