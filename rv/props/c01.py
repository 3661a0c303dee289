"""C01: synth_values returns -grad V."""
import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

mu = cp.model_utils
REQUIRED = ['north pole', 'south pole', 'close to a pole', 'external',
            'internal', 'nmin>1', 'mmax<nmax', 'mmax<nmin-1', 'infer nmax',
            'infer mmax', 'infer both', 'r_surf changed', 'one-hot']
ASSUMPTIONS = ['oracle: gradient of Cartesian solid harmonics in long double',
               'tolerance 2e-14 (nmax+8) times a bound of the field']


def draw(ctx, nhi, npts):
    nmin, nmax, mmax, index = G.layout(ctx, nhi)
    source = ctx.pick('internal', 'external')
    ctx.hit(source)
    if nmin > 1:
        ctx.hit('nmin>1')
    if mmax < nmax:
        ctx.hit('mmax<nmax')
    if mmax < nmin - 1:
        ctx.hit('mmax<nmin-1')
    r_surf = 6371.2
    if ctx.chance(0.3):
        r_surf = ctx.pick(3485.0, 6371.0, 1.0, 2440.0)
        cp.basicConfig['params.r_surf'] = r_surf
        ctx.hit('r_surf changed')
    c = G.coeff_vector(ctx, index)
    if np.count_nonzero(c) == 1:
        ctx.hit('one-hot')
    th, ph = G.thetas(ctx, npts), G.phis(ctx, npts)
    r = G.radii(ctx, npts, r_surf)
    return nmin, nmax, mmax, index, source, r_surf, c, r, th, ph


def judge(ctx, got, c, r, th, ph, index, source, r_surf, what):
    nmax = max(n for n, _ in index)
    want = G.ref_field(c, r, th, ph, index, source, r_surf)
    sc = G.field_scale(index, c, np.asarray(r) / r_surf, source)
    ctx.check(isinstance(got, tuple) and len(got) == 3, f'{what}: 3 components')
    for g, w, name in zip(got, want, ('B_radius', 'B_theta', 'B_phi')):
        ctx.close(g, w, G.eps_tol(nmax, sc), f'{what} {name}')


def synth(ctx):
    """synth_values with random degree/order layouts against -grad V at points including poles"""
    (nmin, nmax, mmax, index, source, r_surf, c, r, th, ph) = draw(
        ctx, ctx.pick(3, 8, 20) if ctx.tier == 'quick' else ctx.pick(6, 20, 45),
        12)
    kw = {}
    full = mmax == nmax
    if nmin > 1 or ctx.chance(0.3):
        kw['nmin'] = nmin
    how = ctx.int(0, 3)
    if how == 0 and full:                        # infer both
        ctx.hit('infer both')
    elif how == 1 and full:
        kw['nmax'] = nmax
        ctx.hit('infer mmax')
    elif how == 2:
        kw['mmax'] = mmax
        ctx.hit('infer nmax')
    else:
        kw['nmax'], kw['mmax'] = nmax, mmax
    if source == 'external' or ctx.chance(0.5):
        kw['source'] = source
    ctx.describe(nmin=nmin, nmax=nmax, mmax=mmax, source=source,
                 r_surf=r_surf, kw=str(kw), theta=th, coeffs=c)
    got = ctx.call(mu.synth_values, c, r, th, ph, **kw)
    judge(ctx, got, c, r, th, ph, index, source, r_surf, 'synth_values')


def infer(ctx):
    """every (nmin, nmax, mmax) layout must be inferred back from the number of coefficients"""
    nmin, nmax, mmax, index = G.layout(ctx, 40)
    nmax = max(n for n, _ in index)
    source = ctx.pick('internal', 'external')
    c = ctx.rng.normal(size=len(index)) * np.array(
        [1.0 / (n + 1) for n, _ in index])
    # emphasise the last degree: a wrong inference misses or overruns it
    c[-1] = 50.0
    th, ph, r = np.array([35.0, 121.5]), np.array([-20.0, 200.0]), \
        np.array([6371.2, 6500.0])
    kw = dict(nmin=nmin, source=source)
    if mmax < nmax or ctx.chance(0.5):
        kw['mmax'] = mmax
    got = ctx.call(mu.synth_values, c, r, th, ph, **kw)
    ctx.describe(nmin=nmin, nmax=nmax, mmax=mmax)
    judge(ctx, got, c, r, th, ph, index, source, 6371.2, 'inferred layout')


def truncate(ctx):
    """nmax below the number of coefficients uses the leading coefficients only"""
    nfull = ctx.int(2, 15)
    nmax = ctx.int(1, nfull)
    nmin = ctx.int(1, nmax) if ctx.chance(0.3) else 1
    index = R.coeff_index(nmin, nfull, nfull)
    c = ctx.rng.normal(size=len(index))
    sub = R.coeff_index(nmin, nmax, nmax)
    th, ph, r = G.thetas(ctx, 6), G.phis(ctx, 6), G.radii(ctx, 6, 6371.2)
    src = ctx.pick('internal', 'external')
    got = ctx.call(mu.synth_values, c, r, th, ph, nmin=nmin, nmax=nmax,
                   source=src)
    judge(ctx, got, c[:len(sub)], r, th, ph, sub, src, 6371.2, 'truncated')


def high(ctx):
    """high-degree fields up to degree 185"""
    nmax = ctx.int(60, 110) if ctx.tier == 'quick' else ctx.int(60, 185)
    nmin = ctx.pick(1, 21, nmax - 2)
    index = R.coeff_index(nmin, nmax, nmax)
    c = G.coeff_vector(ctx, index) if ctx.chance(0.3) else \
        ctx.rng.normal(size=len(index))
    th, ph = G.thetas(ctx, 5), G.phis(ctx, 5)
    r = ctx.uni(6371.2, 7000.0, 5)
    src = ctx.pick('internal', 'external')
    if src == 'external':
        r = ctx.uni(5000.0, 6371.2, 5)
    got = ctx.call(mu.synth_values, c, r, th, ph, nmin=nmin, nmax=nmax,
                   source=src)
    ctx.describe(nmax=nmax, nmin=nmin, source=src)
    judge(ctx, got, c, r, th, ph, index, src, 6371.2, 'high degree')


def from_pp(ctx):
    """synth_from_pp and BaseModel.synth_values: field of the spline coefficients (and derivatives)"""
    n = ctx.int(1, 8)
    order, pieces = ctx.int(1, 6), ctx.int(1, 5)
    brk = G.breaks(ctx, pieces)
    co = G.pp_coeffs(ctx, order, brk, n * (n + 2), 1e3)
    t = G.times_in(ctx, brk, 5)
    # exclude the last break here: its handling is the subject of C05
    src = ctx.pick('internal', 'external')
    nmax = ctx.int(1, n)
    deriv = ctx.int(0, min(order, 3))
    th, ph, r = G.thetas(ctx, 5), G.phis(ctx, 5), G.radii(ctx, 5, 6371.2)
    index = R.coeff_index(1, nmax, nmax)
    if ctx.chance(0.5):
        got = ctx.call(mu.synth_from_pp, brk, order, co, t, r, th, ph,
                       nmax=nmax, source=src, deriv=deriv)
        what = 'synth_from_pp'
    else:
        m = ctx.call(cp.chaos.BaseModel, 'm', brk, order, co, source=src)
        got = ctx.call(m.synth_values, t, r, th, ph, nmax=nmax, deriv=deriv)
        what = 'BaseModel.synth_values'
    gc = np.empty((5, len(index)), dtype=R.LD)
    sc = np.empty((5, len(index)))
    for i in range(5):
        v, s = R.pp_eval(brk, co[..., :len(index)], t[i], deriv)
        gc[i], sc[i] = v, s
    want = G.ref_field(gc, r, th, ph, index, src, 6371.2)
    tol = G.eps_tol(nmax, G.field_scale(index, sc, r / 6371.2, src), 4)
    ctx.hit(what)
    for g, w, name in zip(got, want, ('B_radius', 'B_theta', 'B_phi')):
        ctx.close(g, w, tol, f'{what} {name}')


REQUIRED += ['synth_from_pp', 'BaseModel.synth_values']
FAMILIES = [Family('synth', synth, 3600, 80000),
            Family('infer', infer, 1200, 16000),
            Family('truncate', truncate, 480, 12000),
            Family('high', high, 32, 480),
            Family('from_pp', from_pp, 800, 16000)]
