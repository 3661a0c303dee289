"""C05: time-dependent coefficients are the piecewise polynomial."""
import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

NAMES = {'off': 0, 'constant': 1, 'linear': 2, 'quadratic': 3, 'cubic': 4}
REQUIRED = ['time on a break', 'synth_from_pp outside', 'time at the end', 'time outside the model',
            'mixed inside and outside', 'deriv >= order', 'order cut',
            'single break', 'truncated', 'mode off', 'mode constant',
            'mode linear', 'mode quadratic', 'mode cubic', 'mode spline',
            'mode default', 'mode bool', 'mode int',
            'mode NumPy integer', 'euler', 'static',
            'far outside', 'order 1', 'order 6', 'order 9', 'discontinuous',
            'breaks not float', 'list of breaks', 'values', 'values of CHAOS']


def modes(ctx, order):
    """extrapolate argument and number of Taylor terms."""
    m = ctx.pick('off', 'constant', 'linear', 'quadratic', 'cubic', 'spline',
                 'default', 'bool', 'int')
    ctx.hit('mode ' + m)
    if m == 'default':
        return ctx.pick({}, dict(extrapolate=None)), 2
    if m == 'bool':
        b = ctx.chance(0.5)
        return dict(extrapolate=b), 2 if b else 0
    if m == 'int':
        k = ctx.int(0, 8)
        form = ctx.pick(int, np.int64, np.int32, np.int8)
        if form is not int:
            ctx.hit('mode NumPy integer')
        return dict(extrapolate=form(k)), k
    return dict(extrapolate=m), order if m == 'spline' else NAMES[m]


def reference(brk, co, t, deriv, terms):
    shape = np.shape(t)
    val = np.empty(shape + co.shape[2:], dtype=R.LD)
    sc = np.empty(shape + co.shape[2:])
    for i in np.ndindex(shape):
        x = float(np.asarray(t)[i])
        val[i], sc[i] = R.pp_eval(brk, co, x, deriv, terms)
        if not brk[0] <= x <= brk[-1] and terms:
            # the end may be off by the spacing of floats at this time
            slope = R.pp_eval(brk, co, x, deriv + 1, terms)[1] / 365.25
            sc[i] += slope * 4 * np.spacing(abs(x) + abs(brk[-1])) / 1e-11
    return val, sc


def draw_times(ctx, brk, shape=None):
    shape = ctx.pick((), (1,), (3,), (8,), (2, 3), (2, 1, 2)) \
        if shape is None else shape
    n = int(np.prod(shape)) if shape else 1
    t = G.times_in(ctx, brk, n, ctx.pick(0.0, 0.0, 0.4, 1.0))
    ins = (t >= brk[0]) & (t <= brk[-1])
    if ins.any() and not ins.all():
        ctx.hit('mixed inside and outside')
    if np.any(t > brk[-1] + 0.9 * (brk[-1] - brk[0])):
        ctx.hit('far outside')
    return t.reshape(shape)


def draw_deriv(ctx, order):
    d = ctx.pick(None, 0, 1, 1, 2, 3, order, order + 1,
                 ctx.int(0, order - 1), ctx.int(0, order - 1))
    if d is not None and d >= order:
        ctx.hit('deriv >= order')
    return d


def close(ctx, got, val, sc, what):
    ctx.close(got, val, 1e-11 * sc + 1e-9 * np.abs(val) + 1e-280, what)


def base(ctx):
    """Base and BaseModel.synth_coeffs against the piecewise (Taylor) polynomial of the constructor arguments"""
    order = ctx.int(1, 6) if ctx.chance(0.85) else ctx.int(7, 10)
    ctx.hit(f'order {order}')
    pieces = ctx.pick(1, 2, 3, 6, 15)
    big = ctx.chance(0.02)
    if big:
        ctx.hit('large model')
        pieces = ctx.pick(40, 129, 300)
    brk = G.breaks(ctx, pieces)
    is_model = ctx.chance(0.6)
    nmax = ctx.pick(10, 14, 20) if big else ctx.int(1, 4)
    dim = nmax * (nmax + 2) if is_model else ctx.pick(
        100, 450) if big else ctx.int(1, 9)
    if ctx.chance(0.5) or order == 1 or order > 8:  # SciPy limits from_spline
        co = G.pp_coeffs(ctx, order, brk, dim)
        ctx.hit('discontinuous')
    else:
        co = G.continuous_pp(ctx, order, brk, dim)
    rows = co
    arg_order = order
    u = ctx.int(0, 5)
    if u == 0:
        arg_order = None
    elif u == 1:
        arg_order = order + ctx.int(1, 3)
    elif u == 2 and order > 1:
        ctx.hit('order cut')
        arg_order = ctx.int(1, order - 1)
        co = co[-arg_order:]
        order = arg_order
    barg = brk
    if ctx.chance(0.2):
        ctx.hit('breaks not float')
        brk = np.unique(np.round(brk))
        if brk.size != pieces + 1:
            brk = np.arange(pieces + 1) * 100.0
        barg = ctx.pick(brk.astype(int), brk.tolist(), tuple(brk))
    elif ctx.chance(0.1):
        ctx.hit('list of breaks')
        barg = ctx.pick(brk.tolist(), tuple(brk))
    cls = cp.chaos.BaseModel if is_model else cp.chaos.Base
    m = ctx.call(cls, 'name', barg, arg_order, rows)
    ctx.check(m.pieces == pieces and m.order == order and m.dim == dim,
              f'order/pieces/dim {m.order}, {m.pieces}, {m.dim}')
    if is_model:
        ctx.check(m.nmax == nmax, f'degree {m.nmax} of the model of {nmax}')
        q = ctx.int(1, 130)
        m0 = ctx.call(cls, 'name', [0., 1.], 1, np.zeros((1, 1, q * (q + 2))))
        ctx.check(m0.nmax == q, f'degree {m0.nmax} of a model of degree {q}')
    t = draw_times(ctx, brk)
    deriv = draw_deriv(ctx, order)
    kw, terms = modes(ctx, order)
    if deriv is not None or ctx.chance(0.5):
        kw['deriv'] = deriv
    k = dim
    if ctx.chance(0.4):
        if is_model:
            q = ctx.int(1, nmax)
            kw['nmax'], k = q, q * (q + 2)
        else:
            kw['dim'] = k = ctx.int(1, dim)
        ctx.hit('truncated')
    ctx.describe(breaks=brk, order=order, time=t, **kw)
    arg = float(t) if t.shape == () and ctx.chance(0.5) else t
    if t.ndim == 1 and ctx.chance(0.2):
        arg = t.tolist()
    got = ctx.call(m.synth_coeffs, arg, **kw)
    val, sc = reference(brk, co[..., :k], t, deriv or 0, terms)
    close(ctx, got, val, sc, 'synth_coeffs')
    if is_model and ctx.chance(0.3):
        ctx.hit('values')
        values(ctx, m.synth_values, arg, t.shape, val, sc, kw)


def values(ctx, f, arg, shape, val, sc, kw):
    """field components given by f against those of the coefficients"""
    n = int(np.prod(shape))
    th, ph = G.thetas(ctx, n).reshape(shape), G.phis(ctx, n).reshape(shape)
    r = G.radii(ctx, n, 6371.2).reshape(shape)
    B = ctx.call(f, arg, r, th, ph, **kw)
    q = int(round(np.sqrt(val.shape[-1] + 1))) - 1
    idx = R.coeff_index(1, q, q)
    want = G.ref_field(val, r, th, ph, idx, 'internal', 6371.2)
    with np.errstate(all='ignore'):
        scb = G.field_scale(idx, sc + np.abs(val), r / 6371.2, 'internal')
    for b, w in zip(B, want):
        ctx.close(b, w, 1e-9 * np.nan_to_num(scb.astype(float)) + 1e-280,
                  f.__name__)


def point_model(ctx):
    """models with a single break (static): value there, Taylor constant elsewhere"""
    ctx.hit('single break')
    b = ctx.uni(-3000, 5000)
    dim = ctx.pick(3, 8)
    co = ctx.rng.normal(size=(1, 1, dim)) * 100
    barg = ctx.pick(np.array([b]), np.array(b), [b], np.array([b, b]))
    m = ctx.call(cp.chaos.BaseModel, 'static', barg, 1, co)
    shape = ctx.pick((), (4,))
    t = np.full(shape, b)
    ctx.describe(breaks=b, time=t)
    got = ctx.call(m.synth_coeffs, t)
    ctx.close(got, np.broadcast_to(co[0, 0], shape + (dim,)), 1e-12,
              'static value at the break')
    for ext in (None, 'constant', 'linear', 'spline', 1):
        off = np.where(ctx.rng.random(shape) < 0.5, -1, 1) * \
            ctx.uni(0.1, 5000, shape)
        got = ctx.call(m.synth_coeffs, b + off, extrapolate=ext)
        ctx.close(got, np.broadcast_to(co[0, 0], shape + (dim,)), 1e-12,
                  f'static value off the break, extrapolate={ext}')
    got = ctx.call(m.synth_coeffs, b + off, extrapolate='off')
    ctx.check(np.all(np.isnan(got)), 'static off the break, extrapolate off')
    got = ctx.call(m.synth_coeffs, t, deriv=1)
    ctx.close(got, np.zeros(shape + (dim,)), 0, 'derivative of a static model')


def satellites(ctx):
    names = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c',
             'cryosat-2_1', 'x y', 'A', 'nimbus_c']
    k = ctx.rng.permutation(len(names))[:ctx.int(1, 5)]
    return {names[i]: ctx.int(1, 9) for i in k}


def chaos_parts(ctx):
    """CHAOS.synth_coeffs_tdep, synth_coeffs_static and synth_euler_angles against the constructor arguments"""
    spec = G.chaos_spec(ctx, external=False,
                        euler=satellites(ctx))
    if ctx.chance(0.5):
        spec.pop('meta')
    m = G.build_chaos(ctx, spec)
    brk, order, co = spec['breaks'], spec['order'], spec['coeffs_tdep']
    t = draw_times(ctx, brk)
    kw, terms = modes(ctx, order)
    deriv = draw_deriv(ctx, order)
    k = co.shape[-1]
    n = int(round(np.sqrt(k + 1))) - 1
    if ctx.chance(0.5):
        q = ctx.int(1, n)
        kw['nmax'], k = q, q * (q + 2)
    ctx.describe(breaks=brk, order=order, time=t, deriv=deriv, **kw)
    got = ctx.call(m.synth_coeffs_tdep, t, deriv=deriv, **kw)
    val, sc = reference(brk, co[..., :k], t, deriv or 0, terms)
    close(ctx, got, val, sc, 'synth_coeffs_tdep')
    if ctx.chance(0.5):
        ctx.hit('values of CHAOS')
        values(ctx, m.synth_values_tdep, t, t.shape, val, sc,
               dict(kw, deriv=deriv))

    ctx.hit('static')
    s = spec['coeffs_static'][0, 0]
    ns = int(round(np.sqrt(s.size + 1))) - 1
    q = ctx.pick(None, ctx.int(1, ns))
    got = ctx.call(m.synth_coeffs_static, nmax=q)
    ctx.equal(np.asarray(got), s if q is None else s[:q * (q + 2)],
              'synth_coeffs_static')
    got = ctx.call(m.synth_coeffs_static, nmax=q, deriv=1)
    ctx.check(not np.any(got), 'derivative of the static field')

    ctx.hit('euler')
    for name in spec['breaks_euler']:
        eb, ec = spec['breaks_euler'][name], spec['coeffs_euler'][name]
        t = draw_times(ctx, eb)
        kw, terms = modes(ctx, 1)
        deriv = ctx.pick(None, 0, 1)
        dim = ctx.pick(None, 1, 2, 3)
        got = ctx.call(m.synth_euler_angles, t, name, dim=dim, deriv=deriv,
                       **kw)
        val, sc = reference(eb, ec[..., :dim], t, deriv or 0, terms)
        close(ctx, got, val, sc, 'synth_euler_angles')


def pp_values(ctx):
    """synth_from_pp against the reference synthesis of the piecewise polynomial; NaN outside its breaks"""
    n = ctx.int(1, 5)
    order = ctx.int(1, 6)
    brk = G.breaks(ctx, ctx.int(1, 5))
    co = G.pp_coeffs(ctx, order, brk, n * (n + 2), 10.)
    shape = ctx.pick((), (5,), (5,), (2, 3), (2, 1, 2))
    t = draw_times(ctx, brk, shape)
    out = (t < brk[0]) | (t > brk[-1])
    if ctx.chance(0.5):
        t = np.clip(t, brk[0], brk[-1])
        out = np.zeros(shape, dtype=bool)
    if out.any():
        ctx.hit('synth_from_pp outside')
    size = int(np.prod(shape))
    deriv = draw_deriv(ctx, order)
    q = ctx.pick(None, ctx.int(1, n))
    src = ctx.pick(None, 'internal', 'external')
    s = src or 'internal'
    th, ph, r = G.thetas(ctx, size), G.phis(ctx, size), G.radii(
        ctx, size, 6371.2)
    th, ph, r = th.reshape(shape), ph.reshape(shape), r.reshape(shape)
    ctx.describe(breaks=brk, order=order, time=t, deriv=deriv, nmax=q)
    got = ctx.call(cp.model_utils.synth_from_pp, brk, order, co, t, r, th, ph,
                   nmax=q, source=src, deriv=deriv)
    k = n if q is None else q
    idx = R.coeff_index(1, k, k)
    inner = np.ravel(np.clip(t, brk[0], brk[-1]))
    val, sc = reference(brk, co[..., :len(idx)], inner, deriv or 0, order)
    r, th, ph, out = np.ravel(r), np.ravel(th), np.ravel(ph), np.ravel(out)
    want = G.ref_field(val, r, th, ph, idx, s, 6371.2)
    scb = G.field_scale(idx, sc, r / 6371.2, s)
    for g, w in zip(got, want):
        ctx.equal(np.shape(g), shape, 'synth_from_pp: shape')
        g = np.ravel(g)
        ctx.check(np.all(np.isnan(g[out])),
                  'synth_from_pp outside the breaks is not NaN')
        ctx.close(g[~out], w[~out], 1e-10 * scb[~out].astype(float) + 1e-280,
                  'synth_from_pp')


def continuity(ctx):
    """matching derivatives at the model ends: Taylor modes are continuous there to the order they promise"""
    order = ctx.int(2, 6)
    brk = G.breaks(ctx, ctx.int(1, 4))
    co = G.pp_coeffs(ctx, order, brk, 3)
    m = ctx.call(cp.chaos.BaseModel, 'x', brk, order, co)
    mode = ctx.pick('constant', 'linear', 'quadratic', 'cubic', 'spline')
    terms = min(NAMES.get(mode, order), order)
    ctx.describe(order=order, breaks=brk, mode=mode)
    for x, sgn in ((brk[0], -1), (brk[-1], 1)):
        for d in range(terms):
            e = 1e-7
            a = ctx.call(m.synth_coeffs, x, deriv=d, extrapolate=mode)
            b = ctx.call(m.synth_coeffs, x + sgn * e, deriv=d,
                         extrapolate=mode)
            _, s1 = R.pp_eval(brk, co, x, d + 1, terms)
            _, s0 = R.pp_eval(brk, co, x, d, terms)
            ctx.close(b, a, 3 * e * s1 + 1e-10 * s0 + 1e-280,
                      f'derivative {d} across the end of the model')


FAMILIES = [Family('base', base, 12000, 160000),
            Family('point_model', point_model, 400, 2000),
            Family('chaos_parts', chaos_parts, 2000, 24000),
            Family('pp_values', pp_values, 2000, 24000),
            Family('continuity', continuity, 1600, 16000)]
