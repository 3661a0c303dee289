"""C10: the CHAOS total field is the sum of its sources."""
import os

import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

REQUIRED = ['default sources', 'internal group', 'external group',
            'explicit list', 'nmax_static', 'default nmax_static 85',
            'part missing but unused', 'RC from file', 'RC given',
            'RC half given', 'grid',
            'nmax cut', 'source all', 'source external', 'source internal',
            'time outside the model', 'real model', 'other r_surf', 'verbose']
PARTS = ('tdep', 'static', 'gsm', 'sm')


def tdep_ref(spec, t, r, th, ph, nmax=None, deriv=0):
    """Reference field and scale of the time-dependent part."""
    co = spec['coeffs_tdep']
    n = int(round(np.sqrt(co.shape[-1] + 1))) - 1
    n = n if nmax is None else nmax
    idx = R.coeff_index(1, n, n)
    shape = np.broadcast_shapes(*map(np.shape, (t, r, th, ph)))
    t = np.broadcast_to(t, shape)
    c = np.empty(shape + (len(idx),), dtype=R.LD)
    sc = np.empty(c.shape)
    for i in np.ndindex(shape):
        v, s = R.pp_eval(spec['breaks'], co[..., :len(idx)], float(t[i]),
                         deriv, 2)
        c[i], sc[i] = v, s
    return field(c, r, th, ph, idx, 'internal', sc)


def field(c, r, th, ph, idx, source, scale=None):
    a = cp.basicConfig['params.r_surf']
    r, th, ph = np.broadcast_arrays(r, th, ph)
    shape = np.broadcast_shapes(np.shape(c)[:-1], r.shape)
    r, th, ph = (np.broadcast_to(v, shape) for v in (r, th, ph))
    c = np.broadcast_to(c, shape + (len(idx),))
    B = G.ref_field(c, r, th, ph, idx, source, a)
    s = np.abs(np.asarray(c, float)) if scale is None else \
        np.broadcast_to(scale, c.shape)
    sc = G.field_scale(idx, s + np.abs(np.asarray(c, float)), r / a, source)
    return B, sc


def static_ref(spec, r, th, ph, nmax):
    c = spec['coeffs_static'][0, 0]
    n = min(int(round(np.sqrt(c.size + 1))) - 1, nmax)
    idx = R.coeff_index(1, n, n)
    return field(c[:len(idx)], r, th, ph, idx, 'internal')


def ext_ref(m, part, t, r, th, ph, source='all', nmax=None, rc=None):
    """Field of the coefficients the model reports for this part."""
    tot, scale = None, 0
    for s in ('external', 'internal'):
        if source not in ('all', s):
            continue
        if part == 'gsm':
            c = m.synth_coeffs_gsm(t, source=s, nmax=nmax)
        else:
            c = m.synth_coeffs_sm(t, source=s, nmax=nmax,
                                  rc=None if rc is None else rc[s])
        c = np.asarray(c)
        n = int(round(np.sqrt(c.shape[-1] + 1))) - 1
        idx = R.coeff_index(1, n, n)
        B, sc = field(c, r, th, ph, idx, s)
        tot = B if tot is None else [a + b for a, b in zip(tot, B)]
        scale = scale + sc
    return tot, scale


def points(ctx, brk, out=True):
    """time, radius, theta, phi with broadcastable shapes."""
    shape = ctx.pick((), (4,), (2, 3), (3, 1))

    def sub(n=None):
        s = tuple(1 if ctx.chance(0.25) else k for k in shape)
        return s if ctx.chance(0.75) else s[1:]
    st, sr, sth, sp = sub(), sub(), sub(), sub()

    def make(fn, s):
        return np.reshape(fn(int(np.prod(s)) if s else 1), s)
    t = make(lambda n: G.times_in(ctx, brk, n, 0.15 if out else 0.0), st)
    r = make(lambda n: G.radii(ctx, n, cp.basicConfig['params.r_surf']), sr)
    return t, r, make(lambda n: G.thetas(ctx, n), sth), make(
        lambda n: G.phis(ctx, n), sp)


def rc_setup(ctx, t):
    """RC values given directly or through a file; returns kwargs and the
    per-source values (None: taken from the file)."""
    u = ctx.int(0, 9)
    if u < 5:
        ctx.hit('RC given')
        s = np.shape(t)
        e, i = ctx.rng.normal(size=s) * 30, ctx.rng.normal(size=s) * 10
        if ctx.chance(0.4):
            e, i = float(ctx.rng.normal() * 30), float(ctx.rng.normal() * 10)
        return dict(rc_e=e, rc_i=i), dict(external=e, internal=i)
    ctx.hit('RC from file')
    tab = G.rc_table(ctx, float(np.min(t)) - 1, float(np.max(t)) + 1)
    p = ctx.path('rc.h5')
    G.write_rc_h5(p, tab)
    cp.basicConfig['file.RC_index'] = p
    if u < 7:       # one of the two given, the other one from the file
        ctx.hit('RC half given')
        v = ctx.rng.normal(size=np.shape(t)) * 30
        s = ctx.pick('external', 'internal')
        rc = dict(external=None, internal=None)
        rc[s] = v
        kw = {'rc_' + s[0]: v}
        if ctx.chance(0.5):
            kw.update({'rc_' + k[0]: w for k, w in rc.items()})
        return kw, rc
    return {}, None


def add(tot, new):
    (B, sc), (Bn, scn) = tot, new
    return [a + b for a, b in zip(B, Bn)], sc + scn


def close3(ctx, got, want, sc, what, factor=1e-11):
    for g, w, name in zip(got, want, ('radius', 'theta', 'phi')):
        sh = np.broadcast_shapes(np.shape(w), np.shape(g))
        ctx.close(g, w, np.broadcast_to(factor * np.asarray(sc, float) + 1e-10,
                                        sh), f'{what} B_{name}')


def total(ctx):
    """CHAOS.__call__ for every selection of sources against the reference synthesis of the selected parts"""
    if ctx.chance(0.2):
        ctx.hit('other r_surf')
        cp.basicConfig['params.r_surf'] = ctx.pick(6378.137, 3480.0)
    spec = G.chaos_spec(ctx, own_bins=True)
    args = G.copy_spec(spec)
    t, r, th, ph = points(ctx, spec['breaks'])
    u = ctx.int(0, 4)
    kw = {}
    if u == 0:
        sel = list(PARTS)
        ctx.hit('default sources')
        if ctx.chance(0.3):
            kw['source_list'] = None
    elif u == 1:
        kw['source_list'], sel = 'internal', ['tdep', 'static']
        ctx.hit('internal group')
    elif u == 2:
        kw['source_list'], sel = 'external', ['gsm', 'sm']
        ctx.hit('external group')
    else:
        k = ctx.int(1, 4)
        sel = [PARTS[i] for i in ctx.rng.permutation(4)[:k]]
        kw['source_list'] = ctx.pick(sel, tuple(sel))
        ctx.hit('explicit list')
    if ctx.chance(0.4):
        drop = []
        if 'tdep' not in sel:
            drop.append('coeffs_tdep')
        if 'static' not in sel:
            drop.append('coeffs_static')
        if 'gsm' not in sel:
            drop.append('coeffs_gsm')
        if 'sm' not in sel:
            drop.append('coeffs_sm')
        if drop:
            ctx.hit('part missing but unused')
        for d in drop:
            args.pop(d)
    nmax_static = 85
    if ctx.chance(0.4):
        kw['nmax_static'] = nmax_static = ctx.int(
            1, int(round(np.sqrt(spec['coeffs_static'].size + 1))) - 1)
        ctx.hit('nmax_static')
    if ctx.chance(0.2):
        kw['verbose'] = True
        ctx.hit('verbose')
    m = ctx.call(cp.CHAOS, args.pop('breaks'), args.pop('order'), **args)
    rc = None
    if 'sm' in sel:
        k2, rc = rc_setup(ctx, t)
        kw.update(k2)
    ctx.describe(sources=sel, time=t, radius=r, theta=th, phi=ph)
    got = ctx.call(m, t, r, th, ph, **kw)
    shape = np.broadcast_shapes(*map(np.shape, (t, r, th, ph)))
    tot = ([np.zeros(shape, dtype=R.LD)] * 3, np.zeros(shape))
    if 'tdep' in sel:
        tot = add(tot, tdep_ref(spec, t, r, th, ph))
    if 'static' in sel:
        tot = add(tot, static_ref(spec, r, th, ph, nmax_static))
    for p in ('gsm', 'sm'):
        if p in sel:
            tot = add(tot, ext_ref(m, p, t, r, th, ph, rc=rc))
    close3(ctx, got, tot[0], tot[1], 'CHAOS call')


def grid_args(ctx, brk):
    a, b = ctx.int(1, 4), ctx.int(1, 5)
    th, ph = G.thetas(ctx, a), G.phis(ctx, b)
    ts = ctx.pick((), (2, 1, 1), (a, b), (1,))
    t = np.reshape(G.times_in(ctx, brk, int(np.prod(ts)) if ts else 1), ts)
    r = float(G.radii(ctx, 1, 6371.2)[0]) if ctx.chance(0.6) else \
        G.radii(ctx, a, 6371.2)[:, None]
    return t, r, th, ph


def parts(ctx):
    """each synth_values_* method is the synthesis of its synth_coeffs_*; 'all' is internal plus external; nmax and grids"""
    spec = G.chaos_spec(ctx, own_bins=True)
    what = ctx.pick(*PARTS)
    used = dict(spec)
    if ctx.chance(0.3):
        ctx.hit('model of one part')
        for p in set(PARTS) - {what}:
            del used['coeffs_' + p]
    m = G.build_chaos(ctx, used)
    kw = {}
    if ctx.chance(0.35):
        ctx.hit('grid')
        t, r, th, ph = grid_args(ctx, spec['breaks'])
        kw['grid'] = True
        gth, gph = th[:, None], ph[None, :]
    else:
        t, r, th, ph = points(ctx, spec['breaks'])
        gth, gph = th, ph
        if ctx.chance(0.3):
            kw['grid'] = False
    ctx.describe(part=what, time=t, radius=r, theta=th, phi=ph, **kw)
    if what == 'tdep':
        n = int(round(np.sqrt(spec['coeffs_tdep'].shape[-1] + 1))) - 1
        q = None
        if ctx.chance(0.5):
            kw['nmax'] = q = ctx.int(1, n)
            ctx.hit('nmax cut')
        d = 0
        if ctx.chance(0.4):
            kw['deriv'] = d = ctx.int(0, 3)
        got = ctx.call(m.synth_values_tdep, t, r, th, ph, **kw)
        want, sc = tdep_ref(spec, t, r, gth, gph, q, d)
    elif what == 'static':
        n = int(round(np.sqrt(spec['coeffs_static'].size + 1))) - 1
        q = n
        if ctx.chance(0.5):
            kw['nmax'] = q = ctx.int(1, n)
            ctx.hit('nmax cut')
        d = 0
        if ctx.chance(0.3):
            ctx.hit('static derivative')
            kw['deriv'] = d = ctx.int(0, 2)
        got = ctx.call(m.synth_values_static, r, th, ph, **kw)
        want, sc = static_ref(spec, r, gth, gph, q)
        if d:
            want = [0.0 * w for w in want]
    else:
        src = ctx.pick(None, 'all', 'external', 'internal')
        ctx.hit('source ' + (src or 'all'))
        q = None
        if ctx.chance(0.5):
            kw['nmax'] = q = ctx.int(1, 2)
            ctx.hit('nmax cut')
        rc = None
        if src is not None:
            kw['source'] = src
        if what == 'sm':
            k2, rc = rc_setup(ctx, t)
            kw.update(k2)
            got = ctx.call(m.synth_values_sm, t, r, th, ph, **kw)
        else:
            got = ctx.call(m.synth_values_gsm, t, r, th, ph, **kw)
        want, sc = ext_ref(m, what, t, r, gth, gph, src or 'all', q, rc)
        # coefficients cut at nmax are the leading ones of the full set
        f = m.synth_coeffs_gsm if what == 'gsm' else m.synth_coeffs_sm
        for s in ('external', 'internal'):
            k3 = {} if what == 'gsm' else dict(
                rc=None if rc is None else rc[s])
            full = np.asarray(ctx.call(f, t, source=s, **k3))
            one = np.asarray(ctx.call(f, t, source=s, nmax=1, **k3))
            ctx.check(full.shape == np.shape(t) + (8,), f'shape of {what} '
                      f'coefficients {full.shape}')
            ctx.close(one, full[..., :3], 1e-12 * (1 + np.abs(full).max()),
                      f'{what} coefficients cut at degree 1')
            if s == 'external':       # the default source
                ctx.close(ctx.call(f, t, **k3), full, 0, 'default source')
    close3(ctx, got, want, sc, what)


def static85(ctx):
    """the static field in __call__ is cut at degree 85 by default and at nmax_static if given"""
    n = 87
    s = np.zeros((1, 1, n * (n + 2)))
    for _ in range(4):
        k = ctx.int(83, 87)
        s[0, 0, k * k - 1 + ctx.int(0, 2 * k)] = ctx.rng.normal() * 10
    s[0, 0, 87 * 87 - 1 + 3] = 50.0
    s[0, 0, 86 * 86 - 1 + 5] = 50.0
    s[0, 0, 85 * 85 - 1 + 2] = 50.0
    brk = np.array([0., 1000.])
    m = ctx.call(cp.CHAOS, brk, 1, coeffs_static=s)
    r, th, ph = 6371.2 * ctx.uni(0.98, 1.03), ctx.uni(70, 110), G.phis(ctx, 1)[
        0]
    q = ctx.pick(None, 84, 85, 86, 87, 95)
    ctx.hit('default nmax_static 85')
    ctx.describe(nmax_static=q, theta=th, phi=ph)
    kw = {} if q is None else dict(nmax_static=q)
    got = ctx.call(m, 500., r, th, ph, source_list=['static'], **kw)
    want, sc = static_ref(dict(coeffs_static=s), r, th, ph,
                          85 if q is None else q)
    close3(ctx, got, want, sc, 'static field', 1e-10)


def real(ctx):
    """the CHAOS-7 model of the documentation, total field against the reference synthesis"""
    path = os.path.join(os.path.dirname(os.path.dirname(cp.__file__)), 'docs',
                        'source', '.static', 'examples', 'CHAOS-7.mat')
    ctx.hit('real model')
    if not os.path.exists(path):
        ctx.check(True, '')
        return
    m = ctx.call(cp.load_CHAOS_matfile, path)
    spec = dict(breaks=m.model_tdep.breaks, coeffs_tdep=m.model_tdep.coeffs,
                coeffs_static=m.model_static.coeffs)
    t = ctx.uni(-300, 6000, 4)
    r = ctx.uni(6371.2, 6900, 4)
    th, ph = G.thetas(ctx, 4), G.phis(ctx, 4)
    e, i = ctx.rng.normal(size=4) * 20, ctx.rng.normal(size=4) * 5
    rc = dict(external=e, internal=i)
    ns = ctx.int(1, 40)
    got = ctx.call(m, t, r, th, ph, rc_e=e, rc_i=i, nmax_static=ns)
    tot = tdep_ref(spec, t, r, th, ph)
    tot = add(tot, static_ref(spec, r, th, ph, ns))
    for p in ('gsm', 'sm'):
        tot = add(tot, ext_ref(m, p, t, r, th, ph, rc=rc))
    close3(ctx, got, tot[0], tot[1], 'CHAOS-7', 1e-10)
    # plausibility of the whole pipeline: main field strength at ground level
    B = ctx.call(m, 2000., 6371.2, np.array([60., 90., 120.]), 0., 
                 rc_e=0., rc_i=0.)
    F = np.sqrt(sum(np.asarray(b) ** 2 for b in B))
    ctx.check(np.all((F > 20000) & (F < 70000)), f'field strength {F}')


FAMILIES = [Family('total', total, 2400, 24000),
            Family('parts', parts, 3200, 32000),
            Family('static85', static85, 48, 240),
            Family('real', real, 24, 120)]
