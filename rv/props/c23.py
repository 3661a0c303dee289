"""C23: illegal requests are rejected, over-large ones truncated with a
warning, and legal ones pass without either."""
import os

import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

cu, mu, du, pu = (cp.coordinate_utils, cp.model_utils, cp.data_utils,
                  cp.plot_utils)
REQUIRED = ['own offset bins', 'rejected', 'legal without warning', 'pole warning',
            'colatitude outside', 'colatitude slightly outside',
            'mixed pole and illegal colatitude', 'unknown source',
            'nmin above nmax', 'shapes', 'truncated degree',
            'truncated dimension', 'exact degree', 'period warning',
            'time at the ends', 'unknown extrapolation',
            'unknown satellite', 'missing part', 'unknown reference',
            'unknown epoch', 'base vectors at poles', 'illegal date',
            'illegal year', 'static degree', 'same static degree',
            'RC outside', 'GSM period', 'SM period', 'unknown model part',
            'unknown source in list', 'nmax below nmin of files',
            'two-dimensional breaks', 'grid', 'scalar', 'dipole length',
            'sun outside', 'degree zero', 'coefficients missing',
            'integer extrapolation', 'truncated GSM', 'truncated SM',
            'missing Euler angles', 'other dipole', 'missing value beside']


def legal(ctx, fn, *args, pole=False, extra=(), finite=True, **kw):
    """A legal call: no exception (the runner reports it) and no warning but
    the documented ones."""
    out = ctx.call(fn, *args, **kw)
    msgs = ctx.user_warnings()
    name = getattr(fn, '__name__', str(fn))
    rest = [m for m in msgs if not ('pole' in m and pole)
            and not any(e in m for e in extra)]
    ctx.check(not rest, f'{name}: a legal request warned {rest}')
    if pole:
        ctx.hit('pole warning')
        ctx.check(any('pole' in m for m in msgs),
                  f'{name}: no warning about the poles')
    else:
        ctx.hit('legal without warning')
    for o in (out if isinstance(out, tuple) else (out,)):
        if finite and isinstance(o, np.ndarray) and o.dtype.kind == 'f':
            ctx.check(np.all(np.isfinite(o)), f'{name}: not finite')
    return out


def warns(ctx, fn, *args, n=1, **kw):
    out = ctx.call(fn, *args, **kw)
    name = getattr(fn, '__name__', str(fn))
    ctx.check(len(ctx.user_warnings()) >= n,
              f'{name}: no warning ({len(ctx.user_warnings())} of {n})')
    return out


def same(ctx, a, b, what):
    a = a if isinstance(a, tuple) else (a,)
    b = b if isinstance(b, tuple) else (b,)
    ctx.equal(len(a), len(b), f'{what}: number of results')
    for x, y in zip(a, b):
        s = np.max(np.abs(y)) if np.size(y) else 0.0
        ctx.close(x, y, 1e-13 * s + 1e-300, what)


def positions(ctx, pole=False):
    """radius, theta, phi (scalars, vectors or broadcasting), grid flag."""
    k = ctx.pick('scalar', 'vector', 'broadcast', 'grid')
    n = ctx.int(1, 5)
    th = ctx.uni(0.001, 179.999, n)
    if ctx.chance(0.2):
        th[ctx.int(0, n - 1)] = ctx.pick(1e-10, 180 - 1e-10, 1e-3, 179.9999)
    if pole:
        th[ctx.int(0, n - 1)] = ctx.pick(0.0, 180.0)
    ph = ctx.uni(-180, 360, n)
    r = ctx.uni(3500, 9000, n)
    if k == 'scalar':
        ctx.hit('scalar')
        i = int(np.argmin(np.minimum(th, 180 - th)))
        x = float(r[i]), float(th[i]), float(ph[i])
        if ctx.chance(0.3):
            x = tuple(np.asarray(v) for v in x)
        return x + (False,)
    if k == 'vector':
        return r, th, ph, False
    if k == 'broadcast':
        return (float(r[0]) if ctx.chance(0.5) else r[:1],
                th[:, None], ctx.uni(-180, 180, 3), False)
    ctx.hit('grid')
    return float(r[0]), th, ctx.uni(-180, 180, ctx.int(1, 4)), True


def bad_theta(ctx, th):
    """Move one colatitude outside [0, 180]."""
    th = np.array(th, dtype=float)
    bad = ctx.pick(-1e-9, -0.5, 180.0000001, np.nextafter(180., 181.), -5e-324,
                   190.0, -90.0, 360.0, np.inf, -np.inf)
    if abs(bad) < 1e-3 or 180 < bad < 180.01:
        ctx.hit('colatitude slightly outside')
    if th.ndim == 0:
        ctx.hit('colatitude outside')
        return float(bad) if ctx.chance(0.5) else np.array(bad)
    i = ctx.int(0, th.size - 1)
    th.flat[i] = bad
    if th.size > 1 and ctx.chance(0.6):
        ctx.hit('mixed pole and illegal colatitude')
        th.flat[(i + 1) % th.size] = ctx.pick(0.0, 180.0)
    elif th.size > 1 and ctx.chance(0.5):
        ctx.hit('missing value beside')
        th.flat[(i + 1) % th.size] = np.nan
    ctx.hit('colatitude outside')
    return th


BAD_SOURCE = ('internl', 'int', 'all', 'externals', 'ext', 'toroidal', 'both', 1)


def field(ctx):
    """synth_values, design_gauss and design_matrix"""
    pole = ctx.chance(0.25)
    r, th, ph, grid = positions(ctx, pole)
    nmin, nmax, mmax, idx = G.layout(ctx, 7)
    src = ctx.pick(None, 'internal', 'external')
    c = G.coeff_vector(ctx, idx)
    ctx.describe(r=r, th=th, ph=ph, grid=grid, layout=[nmin, nmax, mmax],
                 src=src)
    kw = dict(nmin=nmin, nmax=nmax, mmax=mmax, source=src)
    if ctx.chance(0.5):
        legal(ctx, mu.synth_values, c, r, th, ph, pole=pole, grid=grid, **kw)
        fn, args, kw['grid'] = mu.synth_values, (c,), grid
    else:
        if grid:
            th, grid = th[:, None], False
        legal(ctx, mu.design_gauss, r, th, ph, pole=pole, **kw)
        fn, args = mu.design_gauss, ()
    what = ctx.int(0, 4)
    if what == 0:
        ctx.rejects(fn, *args, r, bad_theta(ctx, th), ph, **kw)
    elif what == 1:
        ctx.hit('unknown source')
        ctx.rejects(fn, *args, r, th, ph,
                    **dict(kw, source=ctx.pick(*BAD_SOURCE)))
    elif what == 2:
        ctx.hit('nmin above nmax')
        kw['nmin'] = nmax + ctx.int(1, 3)
        ctx.rejects(fn, *args, r, th, ph, **kw)
    elif what == 3:
        ctx.hit('shapes')
        kw['grid'] = False
        if fn is mu.design_gauss:
            kw.pop('grid')
        ctx.rejects(fn, *args, *ctx.pick(
            (np.full(4, 7000.), np.full(3, 50.), 10.),
            (7000., np.full(3, 50.), np.full(2, 10.)),
            (np.full((2, 3), 7000.), np.full(2, 50.), np.full(3, 10.))), **kw)
        if fn is mu.synth_values:
            ctx.rejects(fn, np.ones((5, c.size)), r if np.ndim(r) == 0
                        else 7000., np.full(4, 50.), 10., **kw)
    else:
        # degrees the coefficients do not have, or no degree at all
        if fn is mu.synth_values:
            ctx.rejects(fn, c, r, th, ph,
                        **dict(kw, nmax=nmax + ctx.int(1, 3)))
            ctx.hit('degree zero')
            ctx.rejects(fn, c, r, th, ph, **dict(kw, nmin=ctx.pick(0, -1)))
        else:
            ctx.hit('degree zero')
            ctx.rejects(fn, r, th, ph, **dict(kw, nmax=0, nmin=1))
            ctx.rejects(fn, r, th, ph, **dict(kw, nmin=0))
            ctx.rejects(fn, r, th, ph, **dict(kw, mmax=nmax + 1))
            ctx.rejects(fn, r, th, ph, **dict(kw, mmax=-1))


def design_matrix(ctx):
    """design_matrix and the spline helpers"""
    n = ctx.int(1, 5)
    order = ctx.int(1, 4)
    brk = G.breaks(ctx, ctx.int(1, 4))
    knots = legal(ctx, mu.augment_breaks, brk, order)
    t = ctx.uni(brk[0], brk[-1], n)
    r, th, ph = ctx.uni(6000, 7000, n), ctx.uni(1, 179, n), ctx.uni(0, 360, n)
    nt = ctx.int(1, 3)
    ns = ctx.pick(None, nt + ctx.int(1, 2))
    src = ctx.pick(None, 'internal', 'external')
    ctx.describe(brk=brk, order=order, t=t, nt=nt, ns=ns, src=src)
    legal(ctx, mu.design_matrix, knots, order, nt, t, r, th, ph, n_static=ns,
          source=src)
    what = ctx.int(0, 5)
    if what == 0:
        ctx.rejects(mu.design_matrix, knots, order, nt, t, r,
                    np.append(th[1:], ctx.pick(180.5, -3.0)), ph, ns, src)
    elif what == 1:
        ctx.hit('unknown source')
        ctx.rejects(mu.design_matrix, knots, order, nt, t, r, th, ph, ns,
                    ctx.pick(*BAD_SOURCE))
    elif what == 2 and nt > 1:
        ctx.hit('static degree')
        ctx.rejects(mu.design_matrix, knots, order, nt, t, r, th, ph,
                    ctx.int(1, nt - 1), src, exc=ValueError)
    elif what == 3:
        ctx.hit('same static degree')
        a = warns(ctx, mu.design_matrix, knots, order, nt, t, r, th, ph,
                  n_static=nt, source=src)
        b = legal(ctx, mu.design_matrix, knots, order, nt, t, r, th, ph,
                  source=src)
        same(ctx, a, b, 'ignored static field')
    elif what == 4:
        ctx.hit('shapes')
        x = [t, r, th, ph]
        k = ctx.int(0, 3)
        x[k] = np.append(x[k], x[k][-1])
        ctx.rejects(mu.design_matrix, knots, order, nt, *x, ns, src)
    else:
        ctx.hit('two-dimensional breaks')
        ctx.rejects(mu.augment_breaks, ctx.pick(brk[None], brk[:, None]),
                    order)


def random_base(ctx):
    order, pieces, nm = ctx.int(1, 5), ctx.int(1, 4), ctx.int(1, 4)
    brk = G.breaks(ctx, pieces)
    dim = nm * (nm + 2)
    c = G.pp_coeffs(ctx, order, brk, dim)
    return brk, order, c, nm, dim


def some_times(ctx, brk, n):
    t = G.times_in(ctx, brk, n)
    if ctx.chance(0.4):
        t[0] = brk[0]
        t[-1] = brk[-1]
        ctx.hit('time at the ends')
    return float(t[0]) if n == 1 and ctx.chance(0.6) else t


def outside(ctx, brk, n):
    t = np.array(G.times_in(ctx, brk, n))
    if n > 1 and ctx.chance(0.3):
        ctx.hit('missing value beside')
        t[:] = np.nan
    t[ctx.int(0, n - 1)] = ctx.pick(
        np.nextafter(brk[0], -np.inf), np.nextafter(brk[-1], np.inf),
        brk[0] - 10, brk[-1] + 10., brk[-1] + 1e5)
    return t


def base(ctx):
    """Base and BaseModel: times, dimensions, degrees, missing coefficients"""
    brk, order, c, nm, dim = random_base(ctx)
    src = ctx.pick(None, 'internal', 'external')
    m = ctx.call(cp.chaos.BaseModel, 'm', brk, order, c, src)
    b = ctx.call(cp.chaos.Base, 'b', brk, order, c)
    n = ctx.int(1, 4)
    t = some_times(ctx, brk, n)
    deriv = ctx.pick(None, 0, 1, 2)
    ex = ctx.pick(None, 'linear', 'quadratic', 'cubic', 'constant', 'spline',
                  'off', True, False, 0, 1, 2, 3, 4)
    ctx.describe(brk=brk, order=order, nm=nm, t=t, deriv=deriv, ex=ex)
    kw = dict(deriv=deriv, extrapolate=ex)
    full = legal(ctx, m.synth_coeffs, t, **kw)
    legal(ctx, b.synth_coeffs, t, **kw)
    ctx.hit('exact degree')
    legal(ctx, m.synth_coeffs, t, nmax=nm, **kw)
    legal(ctx, b.synth_coeffs, t, dim=dim, **kw)
    legal(ctx, b.synth_coeffs, t, dim=ctx.int(1, dim), **kw)
    r, th, ph, grid = positions(ctx, pole := ctx.chance(0.2))
    t1 = float(np.ravel(t)[0])
    legal(ctx, m.synth_values, t1, r, th, ph, grid=grid, pole=pole,
          nmax=ctx.pick(None, nm, ctx.int(1, nm)), **kw)
    what = ctx.int(0, 7)
    if what == 0:
        ctx.hit('truncated degree')
        big = nm + ctx.pick(1, 2, 10)
        same(ctx, warns(ctx, m.synth_coeffs, t, nmax=big, **kw), full,
             'truncated coefficients')
        v = warns(ctx, m.synth_values, t1, r, th, ph, grid=grid, nmax=big,
                  n=2 if pole else 1, **kw)
        same(ctx, v, m.synth_values(t1, r, th, ph, grid=grid, nmax=nm, **kw),
             'truncated values')
        if src is None or src == 'internal':
            v = warns(ctx, mu.synth_from_pp, brk, order, c, t1, r, th, ph,
                      grid=grid, nmax=big, deriv=deriv, n=2 if pole else 1)
            same(ctx, v, mu.synth_from_pp(brk, order, c, t1, r, th, ph,
                                          grid=grid, deriv=deriv),
                 'truncated values of synth_from_pp')
        s = warns(ctx, m.power_spectrum, t, nmax=big, deriv=deriv)
        same(ctx, s, m.power_spectrum(t, deriv=deriv), 'truncated spectrum')
    elif what == 1:
        ctx.hit('truncated dimension')
        same(ctx, warns(ctx, b.synth_coeffs, t, dim=dim + ctx.pick(1, 7),
                        **kw), full, 'truncated dimension')
    elif what == 2:
        ctx.hit('period warning')
        to = outside(ctx, brk, n)
        if not isinstance(ex, str):
            ctx.hit('integer extrapolation')
        one = ctx.chance(0.3)
        to = float(to[(to < brk[0]) | (to > brk[-1])][0]) if one else to
        for fn in (m.synth_coeffs, b.synth_coeffs):
            out = warns(ctx, fn, to, **kw)
            if ex in ('off', False, 0) and type(ex) in (str, bool, int):
                ctx.check(np.all(np.isnan(out[(np.asarray(to) < brk[0])
                                              | (np.asarray(to) > brk[-1])])),
                          'no extrapolation: not NaN')
            else:
                ctx.check(np.all(np.isfinite(out[~np.isnan(to)])),
                          'extrapolation: not finite')
        warns(ctx, m.synth_values, to, 7000., 50., 10., **kw)
    elif what == 3:
        ctx.hit('unknown extrapolation')
        bad = ctx.pick('lin', 'none', 'quartic', 'nearest', 'on')
        to = outside(ctx, brk, n)
        ctx.rejects(b.synth_coeffs, to, extrapolate=bad)
        ctx.rejects(m.synth_coeffs, to, extrapolate=bad)
        ctx.rejects(m.synth_values, to, 7000., 50., 10., extrapolate=bad)
    elif what == 4:
        ctx.hit('coefficients missing')
        e = ctx.pick(cp.chaos.Base, cp.chaos.BaseModel)('e', brk, order)
        ctx.rejects(e.synth_coeffs, t)
        ctx.rejects(e.synth_coeffs, float(brk[0]))
        e = ctx.call(ctx.pick(cp.chaos.Base, cp.chaos.BaseModel), 'e')
        ctx.rejects(e.synth_coeffs, t)
        e = cp.chaos.BaseModel('e', brk, order)
        ctx.rejects(e.synth_values, t, 7000., 50., 10.)
        ctx.rejects(e.power_spectrum, t)
        ctx.rejects(e.to_shc, ctx.path('e.shc'))
        e = cp.chaos.BaseModel('e', brk, order, np.empty((order, brk.size - 1,
                                                          0)))
        ctx.rejects(e.synth_coeffs, t)
    elif what == 5:
        ctx.rejects(m.synth_values, t1, r, bad_theta(ctx, th), ph, grid=grid)
        if grid is False and np.ndim(th) < 2:
            ctx.rejects(mu.synth_from_pp, brk, order, c, t1, r,
                        bad_theta(ctx, th), ph)
    elif what == 6:
        ctx.hit('unknown source')
        bad = ctx.pick(*BAD_SOURCE)
        e = cp.chaos.BaseModel('e', brk, order, c, bad)
        ctx.rejects(e.synth_values, t1, r, th, ph, grid=grid)
        if bad != 'toroidal':
            ctx.rejects(e.power_spectrum, t)
        ctx.rejects(mu.synth_from_pp, brk, order, c, t1, r, th, ph, grid=grid,
                    source=bad)
    else:
        ctx.hit('shapes')
        ctx.rejects(m.synth_values, np.full(3, t1), np.full(4, 7000.), 50., 10.)
        ctx.rejects(m.synth_values, np.full(3, t1), 7000., np.full(2, 50.),
                    10.)
        ctx.rejects(m.synth_values, t1, 7000., np.full(2, 50.), np.full(3, 1.))


def rc_file(ctx, lo, hi):
    p = ctx.path('rc.dat')
    tab = G.rc_table(ctx, lo, hi)
    G.write_rc_dat(p, tab)
    cp.basicConfig['file.RC_index'] = p
    return tab


def chaos(ctx):
    """CHAOS: sources, parts, degrees, periods"""
    stat, ext = ctx.chance(0.7), ctx.chance(0.8)
    spec = G.chaos_spec(ctx, static=stat, external=ext, own_bins=True,
                        euler=ctx.pick(None, {'swarm_a': 3},
                                       {'champ': 1, 'swarm_b': 2}))
    if ctx.chance(0.5) and spec.get('meta'):
        spec['meta'] = None
    tdep = ctx.chance(0.85) or not (stat or ext)
    if not tdep:
        spec.pop('coeffs_tdep')
    m = G.build_chaos(ctx, spec)
    brk = spec['breaks']
    n = ctx.int(1, 3)
    t = some_times(ctx, brk, n)
    # SM period covers the model
    rc = rc_file(ctx, brk[0] - 5.0, brk[-1] + 5.0)
    t1 = float(np.ravel(t)[0])
    r, th, ph, grid = positions(ctx, pole := ctx.chance(0.15))
    static = m.model_static is not None
    ctx.describe(brk=brk, t=t, tdep=tdep, static=static, ext=ext, th=th)
    ex_src = ctx.pick(None, 'external', 'internal')
    va_src = ctx.pick(None, 'all', 'external', 'internal')
    nmT = m.model_tdep.nmax if tdep else 0
    nmS = m.model_static.nmax if static else 0
    if tdep:
        legal(ctx, m.synth_coeffs_tdep, t, nmax=ctx.pick(None, nmT, 1))
        legal(ctx, m.synth_values_tdep, t1, r, th, ph, grid=grid, pole=pole,
              nmax=ctx.pick(None, nmT))
    if static:
        legal(ctx, m.synth_coeffs_static, nmax=ctx.pick(None, nmS, 1))
        legal(ctx, m.synth_values_static, r, th, ph, grid=grid, pole=pole,
              nmax=ctx.pick(None, nmS))
    if ext:
        legal(ctx, m.synth_coeffs_gsm, np.asarray(t),
              nmax=ctx.pick(None, 1, 2), source=ex_src)
        legal(ctx, m.synth_coeffs_sm, np.asarray(t), source=ex_src,
              nmax=ctx.pick(None, 1, 2, m.n_sm),
              rc=ctx.pick(None, 0.0, np.zeros(np.shape(t))))
        legal(ctx, m.synth_values_gsm, t1, r, th, ph, grid=grid, pole=pole,
              source=va_src)
        legal(ctx, m.synth_values_sm, t1, r, th, ph, grid=grid, pole=pole,
              source=va_src)
    have = ['tdep'] * tdep + ['static'] * static + ['gsm', 'sm'] * ext
    if have and not grid:
        sub = [s for s in have if ctx.chance(0.7)]
        legal(ctx, m, t1, r, th, ph, source_list=sub, nmax_static=nmS or None,
              pole=pole and bool(sub))
    bad = ctx.pick('externals', 'ext', 'none', 'gsm', 'tdep', 3)
    what = ctx.int(0, 8)
    if what == 0:
        ctx.hit('missing part')
        empty = cp.CHAOS(brk, spec['order'])
        mm = empty if ctx.chance(0.4) else m
        if mm.model_tdep is None:
            ctx.rejects(mm.synth_coeffs_tdep, t)
            ctx.rejects(mm.synth_values_tdep, t1, r, th, ph)
            ctx.rejects(mm.plot_maps_tdep, t1, 7000.)
            ctx.rejects(mm.plot_timeseries_tdep, 7000., 50., 10.)
            ctx.rejects(mm.save_shcfile, ctx.path('x.shc'))
            ctx.rejects(mm, t1, 7000., 50., 10., source_list=['tdep'])
            ctx.rejects(mm, t1, 7000., 50., 10., source_list='internal',
                        nmax_static=1)
        if mm.model_static is None:
            ctx.rejects(mm.synth_coeffs_static)
            ctx.rejects(mm.synth_values_static, r, th, ph)
            ctx.rejects(mm.plot_maps_static, 7000.)
            ctx.rejects(mm.save_shcfile, ctx.path('x.shc'), model='static')
            ctx.rejects(mm, t1, 7000., 50., 10., source_list=['static'])
        if mm.coeffs_gsm is None:
            ctx.rejects(mm.synth_coeffs_gsm, np.asarray(t))
            ctx.rejects(mm.synth_values_gsm, t1, r, th, ph)
            ctx.rejects(mm.synth_coeffs_sm, np.asarray(t), rc=0.0)
            ctx.rejects(mm.synth_values_sm, t1, r, th, ph, rc_e=0., rc_i=0.)
            ctx.rejects(mm.plot_maps_external, t1, 7000.)
            ctx.rejects(mm, t1, 7000., 50., 10., source_list='external')
        if mm.model_euler is None:
            ctx.hit('missing Euler angles')
            ctx.rejects(mm.synth_euler_angles, t1, 'swarm_a')
        ctx.check(not os.path.exists(ctx.path('x.shc')), 'file written for '
                  'a missing part')
    elif what == 1 and ext:
        ctx.hit('unknown source')
        ctx.rejects(m.synth_coeffs_gsm, np.asarray(t), source=bad)
        ctx.rejects(m.synth_coeffs_sm, np.asarray(t), source=bad, rc=0.)
        ctx.rejects(m.synth_coeffs_sm, np.asarray(t), source=bad)
        ctx.rejects(m.synth_values_gsm, t1, r, th, ph, source=bad)
        ctx.rejects(m.synth_values_sm, t1, r, th, ph, source=bad)
        ctx.rejects(m.synth_values_sm, t1, r, th, ph, source=bad, rc_e=0.,
                    rc_i=0.)
        ctx.rejects(m.synth_coeffs_gsm, np.asarray(t), source='all')
        ctx.rejects(m.synth_coeffs_sm, np.asarray(t), source='all', rc=0.)
        ctx.rejects(m.plot_maps_external, t1, 7000.,
                    source=ctx.pick('ext', 'tdep'))
    elif what == 2 and ext:
        ctx.hit('unknown reference')
        ctx.rejects(m.plot_maps_external, t1, 7000.,
                    reference=ctx.pick('geo', 'external', 'smgsm'))
    elif what == 3:
        ctx.hit('truncated degree')
        if tdep:
            same(ctx, warns(ctx, m.synth_coeffs_tdep, t, nmax=nmT + 1),
                 m.synth_coeffs_tdep(t), 'tdep')
            same(ctx, warns(ctx, m.synth_values_tdep, t1, r, th, ph,
                            grid=grid, nmax=nmT + 3, n=2 if pole else 1),
                 m.synth_values_tdep(t1, r, th, ph, grid=grid), 'tdep values')
        if static:
            same(ctx, warns(ctx, m.synth_coeffs_static, nmax=nmS + 1),
                 m.synth_coeffs_static(), 'static')
            same(ctx, warns(ctx, m.synth_values_static, r, th, ph, grid=grid,
                            nmax=nmS + 20, n=2 if pole else 1),
                 m.synth_values_static(r, th, ph, grid=grid), 'static values')
            if not grid:
                same(ctx, warns(ctx, m, t1, r, th, ph, source_list=['static'],
                                nmax_static=nmS + 1, n=2 if pole else 1),
                     m(t1, r, th, ph, source_list=['static'],
                       nmax_static=nmS), 'static values of the model')
        if ext:
            ctx.hit('truncated GSM', 'truncated SM')
            tt = np.asarray(t)
            same(ctx, warns(ctx, m.synth_coeffs_gsm, tt, nmax=3,
                            source=ex_src),
                 m.synth_coeffs_gsm(tt, source=ex_src), 'gsm')
            same(ctx, warns(ctx, m.synth_coeffs_sm, tt, nmax=m.n_sm + 1,
                            source=ex_src),
                 m.synth_coeffs_sm(tt, source=ex_src), 'sm')
            same(ctx, warns(ctx, m.synth_values_gsm, t1, 7000., 50., 10.,
                            nmax=5), m.synth_values_gsm(t1, 7000., 50., 10.),
                 'gsm values')
            same(ctx, warns(ctx, m.synth_values_sm, t1, 7000., 50., 10.,
                            nmax=5), m.synth_values_sm(t1, 7000., 50., 10.),
                 'sm values')
    elif what == 4:
        to = outside(ctx, brk, n)
        if tdep:
            ctx.hit('period warning')
            warns(ctx, m.synth_coeffs_tdep, to)
            warns(ctx, m.synth_values_tdep, to, 7000., 50., 10.)
            warns(ctx, m, to, 7000., 50., 10., source_list=['tdep'])
        if ext:
            ctx.hit('GSM period')
            warns(ctx, m.synth_coeffs_gsm, to, source=ex_src)
            warns(ctx, m.synth_values_gsm, to, 7000., 50., 10.)
            ctx.hit('SM period')
            db = spec['breaks_delta']
            lo = max(db[k][0] for k in db)
            hi = min(db[k][-1] for k in db)
            ts = ctx.pick(np.nextafter(lo, -np.inf), np.nextafter(hi, np.inf),
                          lo - 30., hi + 30.)
            ts = np.append(to[:0] if n == 1 else np.clip(to[1:], lo, hi), ts)
            if ctx.chance(0.2):
                ts = np.append(ts, np.nan)
            warns(ctx, m.synth_coeffs_sm, ts, rc=0., source=ex_src)
            legal(ctx, m.synth_coeffs_sm, np.array([lo, hi]), rc=0.,
                  source=ex_src)
            legal(ctx, m.synth_coeffs_gsm, np.array([brk[0], brk[-1]]),
                  source=ex_src)
    elif what == 5 and ext:
        ctx.hit('RC outside')
        tb = ctx.pick(rc['time'][0] - 1e-3, rc['time'][-1] + 1e-3,
                      rc['time'][0] - 50)
        ctx.rejects(m.synth_coeffs_sm, np.array([t1, tb]), source=ex_src)
        ctx.rejects(m.synth_values_sm, tb, 7000., 50., 10., source=va_src)
        ctx.rejects(m, tb, 7000., 50., 10., source_list=['sm'])
        # but given values of the index are used whatever the file covers
        ctx.call(m.synth_coeffs_sm, np.asarray(tb), rc=1., source=ex_src)
        cp.basicConfig['params.dipole'] = [-30000., -1000., 4000.]
        ctx.hit('other dipole')
        ctx.rejects(m.synth_coeffs_gsm, np.asarray(t))
        ctx.rejects(m.synth_coeffs_sm, np.asarray(t), rc=0.)
    elif what == 6:
        ctx.hit('unknown source in list')
        sub = [s for s in have if ctx.chance(0.5)]
        wrong = ctx.pick('tdp', 'GSM', 'internal', 'external', 'crust', '')
        sub.insert(ctx.int(0, len(sub)), wrong)
        ctx.rejects(m, t1, 7000., 50., 10., source_list=sub,
                    nmax_static=nmS or None)
        if wrong not in ('internal', 'external'):
            ctx.rejects(m, t1, 7000., 50., 10., source_list=wrong)
        ctx.hit('unknown model part')
        p = ctx.path('part.shc')
        ctx.rejects(m.save_shcfile, p, model=ctx.pick(
            'gsm', 'Static', '', 'internal'))
        ctx.check(not os.path.exists(p), 'file of an unknown part')
    elif what == 7:
        if m.model_euler is not None:
            ctx.hit('unknown satellite')
            ctx.rejects(m.synth_euler_angles, t1, ctx.pick(
                'swarm', 'Swarm_A', '', 'swarm_a ', None))
            sat = ctx.pick(*m.model_euler)
            eb = m.model_euler[sat].breaks
            te = ctx.uni(eb[0], eb[-1], 2)
            extra = () if spec.get('meta') is None else ('pre-rotation',)
            legal(ctx, m.synth_euler_angles, te, sat, extra=extra,
                  dim=ctx.pick(None, 1, 2, 3))
            if extra:
                ctx.check(len(ctx.user_warnings()) == 1, 'pre-rotation: '
                          f'{len(ctx.user_warnings())} warnings')
            warns(ctx, m.synth_euler_angles, te, sat, dim=4,
                  n=1 + len(extra))
            warns(ctx, m.synth_euler_angles, np.append(te, eb[-1] + 1), sat,
                  n=1 + len(extra))
    else:
        if tdep:
            ctx.rejects(m.synth_values_tdep, t1, r, bad_theta(ctx, th), ph,
                        grid=grid)
        if static:
            ctx.rejects(m.synth_values_static, r, bad_theta(ctx, th), ph,
                        grid=grid)
        if ext:
            ctx.rejects(m.synth_values_gsm, t1, r, bad_theta(ctx, th), ph,
                        grid=grid)
            ctx.rejects(m.synth_values_sm, t1, r, bad_theta(ctx, th), ph,
                        grid=grid)
        if have and not grid:
            ctx.rejects(m, t1, r, bad_theta(ctx, th), ph, source_list=have,
                        nmax_static=nmS or None)
        if have:
            ctx.hit('shapes')
            ctx.rejects(m, np.full(3, t1), np.full(2, 7000.), 50., 10.,
                        source_list=have, nmax_static=nmS or None)
            ctx.rejects(m, t1, 7000., np.full(3, 50.), np.full(2, 10.),
                        source_list=have, nmax_static=nmS or None)


def frames(ctx):
    """coordinate transformations and dipoles"""
    n = ctx.int(1, 4)
    t = ctx.uni(-20000, 30000, n)
    th, ph = ctx.uni(1, 179, n), ctx.uni(-180, 180, n)
    B = ctx.rng.normal(size=(2, n))
    ref = ctx.pick('gsm', 'sm', 'mag', 'GSM', 'Sm', 'MAG')
    inv = ctx.pick(None, False, True)
    dip = ctx.pick(None, [-29442., -1501., 4797.1], (11.3, -70.), np.array(
        [-30000., -2000., 5000.]))
    ctx.describe(t=t, th=th, ph=ph, ref=ref, inv=inv, dip=dip)
    legal(ctx, cu.transform_points, th, ph, t, reference=ref, inverse=inv,
          dipole=dip)
    legal(ctx, cu.transform_vectors, th, ph, B[0], B[1], t, reference=ref,
          inverse=inv, dipole=dip)
    legal(ctx, cu.zenith_angle, t, th, ph)
    legal(ctx, cu.sun_position, t)
    legal(ctx, cu.igrf_dipole, ctx.pick(None, '2010', '2015', 2010, 2015))
    legal(ctx, cu.basevectors_use, th, ph)
    what = ctx.int(0, 6)
    bad = ctx.pick('geo', 'gse', '', None, 'gsm ', 3)
    if what == 0:
        ctx.hit('unknown reference')
        ctx.rejects(cu.transform_points, th, ph, t, reference=bad,
                    inverse=inv)
        ctx.rejects(cu.transform_vectors, th, ph, B[0], B[1], t,
                    reference=bad, inverse=inv)
        ctx.rejects(cu.rotate_gauss_fft, 1, 1, N=8, reference=ctx.pick(
            'mag', 'geo', 'gse', ''), qfunc=lambda f, k: f)
    elif what == 1:
        ctx.hit('unknown epoch')
        ctx.rejects(cu.igrf_dipole, ctx.pick('2020', 2005, '', 'IGRF', 2015.5))
    elif what == 2:
        ctx.hit('base vectors at poles')
        pb = th.copy()
        if ctx.chance(0.3):
            pb[:] = np.nan
        pb[ctx.int(0, n - 1)] = ctx.pick(0.0, 180.0)
        ctx.rejects(cu.basevectors_use, pb if ctx.chance(0.7) else
                    float(ctx.pick(0.0, 180.0)), ph)
        ctx.rejects(cu.transform_vectors, pb, ph, B[0], B[1], t,
                    reference=ref)
    elif what == 3:
        ctx.hit('dipole length')
        ctx.rejects(cu.dipole_to_vec, ctx.pick((1., 2., 3., 4.), [], ()))
        ctx.rejects(cu.transform_points, th, ph, t, reference=ref,
                    dipole=(1., 2., 3., 4.))
    elif what == 4:
        ctx.hit('sun outside')
        tb = np.append(t, ctx.pick(36200.0, 36524.9, 5e4, -36526., -1e5,
                                   -36250.))
        for fn, a in ((cu.sun_position, (tb,)),
                      (cu.zenith_angle, (tb, 50., 10.)),
                      (cu.basevectors_gsm, (tb,)),
                      (cu.basevectors_sm, (tb,))):
            ctx.rejects(fn, *a)
        ctx.rejects(cu.transform_points, 50., 10., tb,
                    reference=ctx.pick('gsm', 'sm'))
    elif what == 5:
        ctx.hit('shapes')
        ctx.rejects(cu.transform_points, np.full(3, 50.), np.full(2, 10.),
                    np.zeros(3), reference=ref)
        ctx.rejects(cu.transform_vectors, np.full(3, 50.), np.full(3, 10.),
                    np.ones(2), np.ones(3), np.zeros(3), reference=ref)
        ctx.rejects(cu.basevectors_use, np.full(3, 50.), np.full(2, 10.))
        if ref.lower() != 'mag':
            ctx.rejects(cu.transform_points, np.full(3, 50.), np.full(3, 10.),
                        np.zeros(2), reference=ref)
    else:
        per = 10 ** ctx.uni(4, 8, n)
        legal(ctx, cu.q_response_1D, per, np.array([.1, 1.]), np.array(
            [6371., 5000.]), 1, kind=ctx.pick(None, 'quadratic', 'constant'))
        ctx.hit('shapes')
        ctx.rejects(cu.q_response_1D, per[None], np.array([.1, 1.]),
                    np.array([6371., 5000.]), 1)
        ctx.rejects(cu.q_response_1D, per, np.array([[.1, 1.]]),
                    np.array([6371., 5000.]), 1)
        ctx.rejects(cu.q_response_1D, per, np.array([.1, 1., 2.]),
                    np.array([6371., 5000.]), 1)
        ctx.rejects(cu.q_response_1D, per, np.array([.1, 1.]),
                    np.array([6371., 5000.]), 1,
                    kind=ctx.pick('linear', 'const', ''))


def dates(ctx):
    """dates, decimal years and shc files"""
    y = ctx.int(1600, 2400)
    mo, d = ctx.int(1, 12), ctx.int(1, 28)
    ctx.describe(date=[y, mo, d])
    legal(ctx, du.mjd2000, y, mo, d, ctx.int(0, 23), ctx.int(0, 59))
    legal(ctx, du.is_leap_year, ctx.pick(y, np.array([y, 2000])))
    t = ctx.uni(-30000, 30000, 3)
    for lp in (None, True, False):
        legal(ctx, du.mjd_to_dyear, t, leap_year=lp)
        legal(ctx, du.dyear_to_mjd, 2000 + t / 365.25, leap_year=lp)
    what = ctx.int(0, 3)
    if what == 0:
        ctx.hit('illegal date')
        bad = ctx.pick((y, 13, 1), (y, 0, 1), (y, 2, 30), (y, 4, 31),
                       (y, mo, 32), (y, mo, 0), (2001, 2, 29), (1900, 2, 29),
                       (y, mo, -1), (y, -3, 1))
        ctx.rejects(du.mjd2000, *bad)
        ctx.rejects(du.mjd2000, np.array([y, bad[0]]), np.array([mo, bad[1]]),
                    np.array([d, bad[2]]))
    elif what == 1:
        ctx.hit('illegal year')
        ctx.rejects(du.is_leap_year, ctx.pick(
            float(y), y + 0.5, np.array([float(y)]), str(y), [y + 0.1]))
    elif what == 2:
        nm = ctx.int(1, 4)
        c = ctx.rng.normal(size=(3, nm * (nm + 2)))
        p = ctx.path('a.shc')
        legal(ctx, du.save_shcfile, np.sort(t), c, filepath=p,
              nmin=ctx.pick(None, 1, nm), nmax=ctx.pick(None, nm))
        os.remove(p)
        ctx.hit('nmax below nmin of files')
        ctx.rejects(du.save_shcfile, t, c, filepath=p, nmin=nm + 1)
        ctx.rejects(du.save_shcfile, t, c, filepath=p, nmin=2, nmax=1)
        ctx.rejects(du.save_shcfile, t, c, filepath=p, nmin=nm + 1, nmax=nm)
        ctx.check(not os.path.exists(p), 'file written by a rejected request')
        brk, order, cc, nn, _ = random_base(ctx)
        m = cp.chaos.BaseModel('m', brk, order, cc)
        ctx.rejects(m.to_shc, p, nmin=nn + 1)
        ctx.rejects(m.to_shc, p, nmin=2, nmax=1)
        legal(ctx, m.to_shc, p, nmin=nn, nmax=nn)
    else:
        c1, c2 = ctx.rng.normal(size=(2, 8))
        for fn in (mu.degree_correlation, mu.sensitivity):
            legal(ctx, fn, c1, c2)
            ctx.hit('shapes')
            ctx.rejects(fn, c1, c2[:3])
            ctx.rejects(fn, c1[:3], c2)
            ctx.rejects(fn, c1[None], c2)
            ctx.rejects(fn, c1, c2[:, None])
        ctx.hit('unknown source')
        legal(ctx, mu.power_spectrum, c1, 6371.2, source=ctx.pick(
            None, 'internal', 'external', 'toroidal'), nmax=ctx.pick(
                None, 1, 2))
        ctx.rejects(mu.power_spectrum, c1, source=ctx.pick(
            'Internal', 'poloidal', '', 1))


FAMILIES = [Family('field', field, 8000, 160000),
            Family('design_matrix', design_matrix, 1200, 24000),
            Family('base', base, 5000, 100000),
            Family('chaos', chaos, 2400, 48000),
            Family('frames', frames, 3000, 60000),
            Family('dates', dates, 1600, 32000)]
