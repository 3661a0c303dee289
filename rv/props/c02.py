"""C02: design matrices are the linear operator of the synthesis."""
import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G
from .c01 import draw

mu = cp.model_utils
REQUIRED = ['north pole', 'south pole', 'close to a pole', 'external',
            'internal', 'nmin>1', 'mmax<nmax', 'mmax<nmin-1', 'broadcast',
            'static', 'no static', 'n_static equal', 'datum at the last knot',
            'datum on a knot', 'repeated interior knot', 'degree > 40']


def columns(ctx):
    """every column of design_gauss against the gradient of its harmonic; product against synth_values"""
    (nmin, nmax, mmax, index, source, r_surf, c, r, th, ph) = draw(
        ctx, ctx.pick(3, 8, 16) if ctx.tier == 'quick' else ctx.pick(6, 16, 40),
        8)
    shape = (8,)
    if ctx.chance(0.4):                              # broadcast shapes
        ctx.hit('broadcast')
        a, b = ctx.int(1, 4), ctx.int(1, 4)
        th, ph = G.thetas(ctx, a)[:, None], G.phis(ctx, b)[None, :]
        r = r[0] if ctx.chance(0.5) else G.radii(ctx, a, r_surf)[:, None]
        shape = (a, b)
    kw = {}
    if nmin > 1 or ctx.chance(0.3):
        kw['nmin'] = nmin
    if mmax < nmax or ctx.chance(0.3):
        kw['mmax'] = mmax
    if source == 'external' or ctx.chance(0.5):
        kw['source'] = source
    ctx.describe(nmin=nmin, nmax=nmax, mmax=mmax, source=source, theta=th)
    A = ctx.call(mu.design_gauss, r, th, ph, nmax, **kw)
    ctx.check(isinstance(A, tuple) and len(A) == 3, 'design_gauss: 3 matrices')
    D = R.field_design(r, th, ph, index, source, r_surf)
    rho = np.broadcast_to(np.asarray(r) / r_surf, shape)
    n = np.array([k[0] for k in index])
    p = rho[..., None] ** (-(n + 2.)) if source == 'internal' else \
        rho[..., None] ** (n - 1.)
    tol = G.eps_tol(nmax, (n + 1) * p)
    for a, d, name in zip(A, D, ('A_radius', 'A_theta', 'A_phi')):
        ctx.close(a, d, tol, f'design_gauss {name}')
    got = ctx.call(mu.synth_values, c, r, th, ph, nmax=nmax, mmax=mmax,
                   nmin=nmin, source=source)
    sc = G.field_scale(index, c, rho, source)
    for a, g, name in zip(A, got, ('radius', 'theta', 'phi')):
        ctx.close(a @ c, g, G.eps_tol(nmax, sc, 2), f'A_{name} @ c')


def matrix(ctx):
    """design_matrix times random spline coefficients against per-datum reference synthesis"""
    n_tdep = ctx.int(1, 4)
    order = ctx.int(1, 6)
    pieces = ctx.int(1, 6)
    big = ctx.chance(0.005)
    if big:
        ctx.hit('large problem')
        n_tdep, pieces = ctx.pick((8, 20), (13, 5), (1, 130))
    brk = G.breaks(ctx, pieces)
    inner = brk[1:-1]
    if order > 1 and inner.size and ctx.chance(0.25):
        ctx.hit('repeated interior knot')
        inner = np.repeat(inner, ctx.rng.integers(1, order + 1, inner.size))
    knots = np.r_[[brk[0]] * order, inner, [brk[-1]] * order]
    nb = len(knots) - order
    nd = ctx.int(1, 12)
    if big:
        nd = ctx.pick(100, 300)
    t = G.times_in(ctx, brk, nd)
    if np.any(t == brk[-1]):
        ctx.hit('datum at the last knot')
    if np.any(np.isin(t, brk)):
        ctx.hit('datum on a knot')
    th, ph = G.thetas(ctx, nd, poles=False), G.phis(ctx, nd)
    r = G.radii(ctx, nd, 6371.2)
    src = ctx.pick('internal', 'external', None)
    kw = {} if src is None else dict(source=src)
    u = ctx.int(0, 3)
    if u == 0:
        n_static = n_tdep
        ctx.hit('no static')
        if ctx.chance(0.3):
            kw['n_static'] = None
    elif u == 1:
        n_static = n_tdep
        kw['n_static'] = n_static
        ctx.hit('n_static equal')
    else:
        n_static = kw['n_static'] = n_tdep + ctx.int(1, 6)
        ctx.hit('static')
    s = src or 'internal'
    Gm = ctx.call(mu.design_matrix, knots, order, n_tdep, t, r, th, ph, **kw)
    it = R.coeff_index(1, n_tdep, n_tdep)
    idx = R.coeff_index(1, n_static, n_static)
    ns = len(idx) - len(it)
    C = ctx.rng.normal(size=(len(it), nb))
    Cs = ctx.rng.normal(size=ns)
    if ctx.chance(0.5):                # one coefficient only
        keep = ctx.int(0, C.size + ns - 1)
        v = np.zeros(C.size + ns)
        v[keep] = 1.0
        C, Cs = v[:C.size].reshape(C.shape), v[C.size:]
    v = np.concatenate([C.ravel(), Cs])
    ctx.describe(n_tdep=n_tdep, n_static=n_static, order=order, knots=knots,
                 source=src, time=t)
    gc = np.empty((nd, len(idx)), dtype=R.LD)
    for i in range(nd):
        row = R.bspline_row(knots, order, t[i])
        gc[i] = np.concatenate([C @ row, Cs])
    want = G.ref_field(gc, r, th, ph, idx, s, 6371.2)
    sc = G.field_scale(idx, np.r_[np.abs(C).max(1), np.abs(Cs)], r / 6371.2, s)
    for g, w, name in zip(Gm, want, ('radius', 'theta', 'phi')):
        ctx.check(np.shape(g) == (nd, v.size),
                  f'design_matrix G_{name}: shape {np.shape(g)}, expected '
                  f'{(nd, v.size)}')
        ctx.close(np.asarray(g) @ v, w, G.eps_tol(n_static, sc, 30),
                  f'design_matrix G_{name} @ x')


def high(ctx):
    """design_gauss above degree 40 (up to 130), every column against the gradient of its harmonic"""
    ctx.hit('degree > 40')
    nmax = ctx.int(41, 60) if ctx.tier == 'quick' else ctx.int(41, 130)
    nmin = ctx.pick(1, 1, ctx.int(1, nmax))
    mmax = ctx.pick(nmax, nmax, ctx.int(0, nmax))
    source = ctx.pick('internal', 'external')
    index = R.coeff_index(nmin, nmax, mmax)
    th = np.r_[G.thetas(ctx, 2), ctx.pick(1., 0.01, 179.5)]
    ph = G.phis(ctx, 3)
    r = 6371.2 * ctx.uni(0.97, 1.03, 3)
    ctx.describe(nmin=nmin, nmax=nmax, mmax=mmax, source=source, theta=th)
    A = ctx.call(mu.design_gauss, r, th, ph, nmax, nmin=nmin, mmax=mmax,
                 source=source)
    D = R.field_design(r, th, ph, index, source, 6371.2)
    n = np.array([k[0] for k in index])
    rho = (r / 6371.2)[:, None]
    p = rho ** (-(n + 2.)) if source == 'internal' else rho ** (n - 1.)
    for a, d, name in zip(A, D, ('A_radius', 'A_theta', 'A_phi')):
        ctx.close(a, d, G.eps_tol(nmax, (n + 1) * p), f'design_gauss {name}')


FAMILIES = [Family('columns', columns, 2800, 48000),
            Family('matrix', matrix, 2000, 32000),
            Family('high', high, 160, 1600)]
